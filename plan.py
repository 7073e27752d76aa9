"""What is explored for each property."""

INVARIANTS = '''INVARIANTS AtMostOnce OnlySubmitted InOrder SkippedOnlyAbandoned NothingWithheld NothingDecodable
  AcksTruthful WindowDiscipline PacketsNumbered HorizonSafe NothingStaleKept AdaptiveBounds
  DrainsFromHere
PROPERTIES WindowLimited EvictOnlyWhenNeeded HorizonMonotone
'''


def constants(w, ordered, limits, rates, modes, adaptives, nb, period, data, repairs, acks, time, ids, rounds):
    return '''CONSTANTS
  W = %s
  Ordered = %s
  Limits <- %s
  Rates <- %s
  Modes <- %s
  Adaptives <- %s
  AckNb = %s
  AckPeriod = %s
  MaxData = %s
  MaxRepairs = %s
  MaxAcks = %s
  MaxTime = %s
  RepairIds <- %s
  DrainRounds = %s
''' % (w, 'TRUE' if ordered else 'FALSE', limits, rates, modes, adaptives, nb, period, data, repairs, acks, time, ids,
       rounds)


def model(*a, **k):
    return dict(module='MCNetcode', timeout=k.get('timeout', 600), workers=k.get('workers', 2),
                heap=k.get('heap', '3g'),
                cfg='SPECIFICATION Spec\n' + constants(*a) + 'VIEW View\n' + INVARIANTS
                + k.get('more', '') + 'CHECK_DEADLOCK FALSE\n')


def gen(*a, **k):
    return dict(module='GenNetcode', timeout=k.get('timeout', 600), heap=k.get('heap', '3g'),
                cfg='SPECIFICATION GSpec\n' + constants(*a) + 'VIEW View\nACTION_CONSTRAINT Emit\n'
                + k.get('more', '') + 'CHECK_DEADLOCK FALSE\n')


def gen_buffers(slots, sizes, c, maxsize, depth):
    return dict(module='GenBuffers', timeout=900,
                cfg='''SPECIFICATION Spec
CONSTANTS
  Slots = {%s}
  Sizes = {%s}
  CInterface = %s
  MaxSize = %d
  Depth = %d
VIEW View
INVARIANT TypeOK
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
''' % (slots, sizes, 'TRUE' if c else 'FALSE', maxsize, depth))


def gen_relay(lines, sent, model):
    return dict(module='GenRelay', timeout=600, cfg="""SPECIFICATION %s
CONSTANTS
  MaxLines = %d
  MaxSent = %d
INVARIANTS InOrder Counted AfterTheEnd
%sCHECK_DEADLOCK FALSE
""" % ('MSpec' if model else 'Spec', lines, sent, '' if model else 'ACTION_CONSTRAINT Emit\n'))


def faults(data, rate):
    return dict(module='Faults', timeout=1500, cfg="""SPECIFICATION FSpec
CONSTANTS
  MaxData = %d
  Rate = %d
INVARIANTS Reported OneDataPerId Sorted
CHECK_DEADLOCK FALSE
""" % (data, rate))


SMALL = 'CONSTRAINT SmallCounters\n'

MODELS = {
    # in order, limited or unlimited window
    'ordered':    model(8, True, 'Lim2U', 'Rate2', 'Sys', 'No', 1000, 0, 4, 3, 1, 0, 'RI_plain', 15),
    'unordered':  model(8, False, 'Lim23', 'Rate2', 'Sys', 'No', 1000, 0, 4, 3, 1, 0, 'RI_plain', 15),
    # linearly dependent repairs
    'dependent':  model(4, False, 'NoLimit', 'RateNever', 'Sys', 'No', 1000, 0, 4, 5, 0, 0, 'RI_dep', 40),
    'dependent2': model(4, True, 'NoLimit', 'RateNever', 'NonSys', 'No', 1000, 0, 4, 5, 1, 0, 'RI_dep2', 40),
    'modes':      model(8, False, 'Lim2U', 'Rates12', 'BothModes', 'No', 1000, 0, 3, 3, 2, 0, 'RI_plain', 15),
    # automatic acks and adaptive rate
    'autoack':    model(8, True, 'Lim2', 'Rate1', 'Sys', 'Yes', 2, 2, 2, 2, 2, 2, 'RI_plain', 15, more=SMALL),
    'relay':      gen_relay(3, 5, True),
    # allocations that fail
    'faults':     faults(4, 2),
    # thorough
    'relay6':     gen_relay(4, 7, True),
    'faults5':    faults(5, 1),
    'ordered5':   model(8, True, 'Lim3U', 'Rate2', 'Sys', 'No', 1000, 0, 5, 4, 2, 0, 'RI_plain', 15, workers=8,
                        heap='12g', timeout=3000),
    'unordered5': model(8, False, 'Lim23', 'Rate2', 'Sys', 'No', 1000, 0, 5, 4, 1, 0, 'RI_plain', 15, workers=8,
                        heap='12g', timeout=3000),
    'dependent5': model(4, True, 'Lim3U', 'RateNever', 'Sys', 'No', 1000, 0, 4, 6, 1, 0, 'RI_dep', 40, workers=8,
                        heap='12g', timeout=3000),
    'autoack3':   model(8, True, 'Lim2', 'Rate1', 'Sys', 'Yes', 2, 2, 3, 3, 2, 2, 'RI_plain', 15, more=SMALL, workers=8,
                        heap='12g', timeout=3000),
}

GENERATORS = {
    'ordered':   gen(8, True, 'Lim2U', 'Rate2', 'Sys', 'No', 1000, 0, 4, 3, 1, 0, 'RI_plain', 15),
    'ordered16': gen(16, True, 'Lim23', 'Rate2', 'Sys', 'No', 1000, 0, 4, 3, 1, 0, 'RI_plain', 15),
    'unordered': gen(4, False, 'Lim23', 'Rate2', 'Sys', 'No', 1000, 0, 4, 3, 1, 0, 'RI_plain', 15),
    'modes':     gen(8, False, 'Lim2U', 'Rates12', 'BothModes', 'No', 1000, 0, 3, 3, 2, 0, 'RI_plain', 15),
    'repairs':   gen(32, True, 'NoLimit', 'RateNever', 'NonSys', 'No', 1000, 0, 4, 6, 1, 0, 'RI_plain', 15),
    'repairs2':  gen(4, False, 'Lim3U', 'RateNever', 'Sys', 'No', 1000, 0, 4, 4, 0, 0, 'RI_plain', 15),
    'adaptive':  gen(8, False, 'Lim2', 'Rate1', 'Sys', 'Yes', 1000, 0, 2, 2, 2, 0, 'RI_plain', 15, more=SMALL),
    # thorough
    'ordered5':  gen(8, True, 'Lim3U', 'Rate2', 'Sys', 'No', 1000, 0, 5, 4, 1, 0, 'RI_plain', 15, heap='8g'),
    'repairs5':  gen(16, True, 'Lim3U', 'RateNever', 'Sys', 'No', 1000, 0, 4, 5, 1, 0, 'RI_plain', 15, heap='8g'),
    'relay':     gen_relay(2, 4, False),
    'relay3':    gen_relay(3, 5, False),
    'packets':   gen_buffers('0, 1', '0, 2, 9', False, 9, 5),
    'datas':     gen_buffers('3, 4', '0, 2, 9', False, 9, 5),
    'cpackets':  gen_buffers('5, 7', '0, 2, 9', True, 9, 6),
    'packets6':  gen_buffers('0, 1', '0, 2, 9, 17', False, 17, 6),
    'datas6':    gen_buffers('3, 4', '0, 2, 9, 17', False, 17, 6),
}

# Number of random shards.
SHARD = dict(quick=10, thorough=160)

# When a call crashes or doesn't return, what it must do isn't done.
DECODING = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C12', 'C14', 'C15', 'C16', 'C17', 'C18'}
CRASH = {
    'data': {'C08', 'C09', 'C10', 'C14', 'C15', 'C16'},
    'bulk': {'C08', 'C09', 'C10', 'C11', 'C14'},
    'stream': DECODING | {'C10'},
    'again': DECODING | {'C08', 'C09', 'C10', 'C11'},
    'rep':  {'C06', 'C09', 'C10', 'C14', 'C15'},
    'fwd':  DECODING,
    'fba':  {'C06', 'C07', 'C08', 'C11', 'C14', 'C15'},
    'fack': {'C07', 'C08', 'C11', 'C14'},
    'ack':  {'C06', 'C07', 'C14', 'C15', 'C16', 'C12'},
    'cut':  {'C13'},
    'mis':  {'C13'},
    'unk':  {'C13'},
    'set':  {'C08', 'C10', 'C11', 'C12', 'C15'},
    'new':  DECODING | {'C08', 'C09', 'C10', 'C11', 'C13'},
}


def plan(profiles, models, gens, t_models=(), t_gens=(), **k):
    d = dict(profiles=profiles, quick=dict(models=models, gens=gens),
             thorough=dict(models=sorted(set(MODELS)) if t_models == 'all' else models + list(t_models),
                           gens=gens + list(t_gens)))
    d.update(k)
    return d


DEC_T = dict(t_models=['ordered5', 'unordered5', 'dependent5'], t_gens=['ordered5', 'repairs5'])
COMMON = ['packets are the ones emitted by the peer, possibly lost, duplicated, reordered, cut, or followed by other '
          'bytes; forged packets are not considered',
          'sizes of data are multiples of the word of the field']

PLAN = {
    'C01': plan([('mix', 2), ('loss', 5), ('singular', 4), ('late', 3), ('payload', 8), ('high', 2), ('matrix', 1)],
                ['ordered', 'dependent'], ['ordered', 'repairs', 'repairs2'], **DEC_T),
    'C02': plan([('mix', 2), ('loss', 4), ('singular', 4), ('late', 12), ('high', 2)],
                ['ordered', 'unordered'], ['ordered', 'unordered', 'repairs'], **DEC_T),
    'C03': plan([('mix', 2), ('loss', 6), ('singular', 4), ('late', 10), ('high', 1)],
                ['ordered', 'dependent2'], ['ordered', 'ordered16', 'repairs'], **DEC_T),
    'C04': plan([('mix', 2), ('loss', 6), ('singular', 4), ('late', 10), ('high', 1)],
                ['ordered', 'unordered'], ['ordered', 'unordered', 'repairs'], **DEC_T),
    'C05': plan([('mix', 2), ('loss', 8), ('singular', 10), ('late', 2), ('matrix', 1)],
                ['dependent', 'dependent2', 'ordered'], ['ordered', 'repairs', 'repairs2'], **DEC_T),
    'C06': plan([('mix', 2), ('loss', 8), ('singular', 10), ('matrix', 1), ('late', 3)],
                ['dependent', 'dependent2', 'modes'], ['modes', 'repairs'], **DEC_T),
    'C07': plan([('acks', 6), ('mix', 3), ('late', 6), ('runs', 2), ('gap', 1)],
                ['unordered', 'modes', 'autoack'], ['modes', 'unordered'],
                t_models=['ordered5', 'autoack3'], t_gens=['ordered5']),
    'C08': plan([('mix', 3), ('late', 6), ('acks', 4), ('runs', 1), ('gap', 1), ('ratio', 4)],
                ['unordered', 'modes'], ['modes', 'unordered'], t_models=['ordered5', 'unordered5'], t_gens=['ordered5']),
    'C09': plan([('mix', 3), ('payload', 10), ('runs', 1), ('high', 3), ('gap', 1), ('loss', 4)],
                ['modes', 'unordered'], ['modes', 'repairs'], t_models=['ordered5'], t_gens=['repairs5']),
    'C10': plan([('mix', 4), ('acks', 5), ('high', 2), ('late', 4), ('ratio', 4), ('loss', 4)],
                ['modes', 'unordered'], ['modes', 'unordered'], t_models=['ordered5'], t_gens=['ordered5']),
    'C11': plan([('acks', 8), ('ratio', 40), ('count', 6), ('mix', 2)],
                ['autoack', 'modes'], ['adaptive', 'modes'], t_models=['autoack3'], t_gens=[]),
    'C12': plan([('acks', 18), ('cset', 1), ('mix', 3), ('late', 3)],
                ['autoack'], ['modes'], t_models=['autoack3'], t_gens=['ordered5']),
    'C13': plan([('bad', 8), ('cuts', 4), ('mix', 2), ('capi', 2)], ['ordered'], ['ordered'], t_models=['ordered5'], t_gens=[]),
    'C14': plan([('runs', 4), ('gap', 1), ('payload', 8), ('high', 2), ('mix', 2), ('capi', 2)],
                ['modes'], ['modes', 'repairs'], t_models=['ordered5'], t_gens=['repairs5']),
    'C15': plan([('capi', 14), ('cset', 4), ('payload', 10)], ['ordered'], ['modes/c', 'unordered/c', 'adaptive/c'],
                t_models=['ordered5'], t_gens=['ordered/c', 'repairs/c', 'ordered5/c']),
    'C16': plan([('long', 1), ('mix', 3), ('loss', 5), ('singular', 8), ('late', 6), ('acks', 4)],
                ['dependent', 'ordered'], ['ordered', 'unordered', 'repairs'], **DEC_T),
    'C17': plan([('late', 18), ('singular', 6), ('mix', 2), ('loss', 2)],
                ['ordered', 'unordered'], ['ordered', 'unordered', 'ordered16'], **DEC_T),
    'C18': plan([('payload', 12), ('loss', 6), ('capi', 4), ('mix', 2), ('high', 1), ('late', 3)],
                ['ordered'], ['ordered', 'repairs'], t_models=['ordered5'], t_gens=['repairs5']),
    'C19': dict(quick=dict(gens=['packets', 'datas', 'cpackets'], shards=8, sessions=150, parts=3),
                thorough=dict(gens=['packets6', 'datas6', 'cpackets'], shards=40, sessions=300, parts=8)),
    'C20': dict(quick=dict(shards=8, sessions=120), thorough=dict(shards=40, sessions=600)),
    'C21': dict(quick=dict(models=['ordered'], shards=6, sessions=4, threads=8, thread_shards=3,
                           profiles='mix:1,loss:1,late:1,acks:1,singular:1,payload:1,capi:1',
                           thread_profiles='mix:1,loss:1,singular:1,capi:1'),
                thorough=dict(models=['ordered', 'modes'], shards=60, thread_shards=30)),
    'C22': dict(quick=dict(models=['relay'], gen='relay', shards=6, sessions=6, datagrams=12000,
                           random=[('uniform', 30, 5), ('uniform', 2, 60), ('uniform', 95, 50),
                                   ('burst', 90, 50, 70, 20), ('burst', 99, 90, 50, 50), ('burst', 30, 30, 95, 5)]),
                thorough=dict(models=['relay', 'relay6'], gen='relay3', shards=24, sessions=30, datagrams=60000,
                              random=[('uniform', p, 100 - p) for p in (1, 3, 10, 25, 40, 49)]
                              + [('burst', g, b, b, g) for g, b in ((95, 5), (99, 99), (60, 80), (2, 50))]),
                assumptions=['datagrams are sent over the loopback, at a pace such that the kernel drops none',
                             'proportions of random losses: up to 1 per cent plus 6 standard deviations']),
    'C23': dict(quick=dict(shards=6, sessions=40), thorough=dict(shards=24, sessions=300),
                assumptions=['datagrams are sent over the loopback, at a pace such that the kernel drops none']),
    'C24': dict(quick=dict(models=['faults'], shards=8, sessions=30),
                thorough=dict(models=['faults', 'faults5'], shards=80, sessions=120),
                assumptions=['handlers do not fail',
                             'the tables of a field are allocated by another library: this fails as a whole',
                             'what has been prepared but not sent when a lack of memory is reported is thrown away',
                             'a decoder which reported a lack of memory is only deleted']),
}
for v in PLAN.values():
    v.setdefault('assumptions', COMMON)
