#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = ('TLA+ specification model-checked with TLC; tests enumerated by TLC (one per transition) replayed in the real '
     'code; traces recorded from the real code checked against the specification by TLC')
NOTE = {
 'C01': 'Every bounded interleaving of the models; on the real code, contents are compared byte for byte (by the harness: a delivered data is identified by its exact content).',
 'C06': 'The drain from every reachable state of the bounded models; on the real code, a loss-free phase at the end of each session.',
 'C11': 'The rate is exact except at the quotient 98, where floating point rounding makes 50 acceptable as well as 49.',
 'C12': 'Time is a virtual clock (clock_gettime is interposed).',
 'C13': 'Only genuine packets, cut or sent to the wrong peer, and packets of unknown types; forged bodies are not considered.',
 'C19': 'All sequences of operations up to a depth for small sizes, random ones for large sizes.',
 'C22': 'Over the loopback, with the real program; random losses are judged by proportions (1 per cent plus 6 standard deviations).',
 'C23': 'Over the loopback, with the real program.',
 'C24': 'Every allocation of every call of random sessions fails in turn; the sessions are chosen by seeds.',
 'C21': 'Interleavings at the granularity of calls and of handlers are chosen by seeds; schedules of threads are those of the machine.',
 'C20': 'The record is made by the decoder compiled with NTC_DUMP_PACKETS; tools/replay.cc is run on it too.',
}
T = {
 'C19': 'TLA+ specification of byte sequences; sequences of operations enumerated by TLC performed on the real containers; recorded traces checked by TLC',
 'C22': 'TLA+ specification of a lossy relay, model-checked with TLC; tests enumerated by TLC replayed with the real program; recorded traces checked by TLC',
 'C23': 'TLA+ specification of a relay; traces recorded from the real program checked by TLC',
 'C24': 'TLA+ specification of calls in which any allocation may fail, model-checked with TLC; traces of the real code, in which each allocation fails in turn, checked by TLC',
 'C21': 'TLA+ specification of independent sessions; traces of interleaved sessions (in handlers, and in threads), recorded from the real code, checked by TLC',
 'C20': 'TLA+ specification of the record (a queue of packets); recorded traces of recording, reading and replaying checked by TLC',
}
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append(dict(
        property=i,
        quick_cmd='python3 check.py --property %s --tier quick' % i,
        thorough_cmd='python3 check.py --property %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=T.get(i, S),
        level='model_checking',
        level_note=(NOTE.get(i, 'Every behaviour of the bounded models; the real code is bound to the specification by replaying each transition of bounded instances and by checking recorded random sessions.')
                    + ' Trusted: TLC, the harness (calls the public interface only), and for large parameters the sampling by seeds.')))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=[],
         notes='No hooks are needed in /repo: everything is observed through the public interface. '
               'Known and fixed defects are listed in known-findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
