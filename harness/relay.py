"""Drives the real lossy proxy and forwarder of sources, over the loopback, and records what goes in
and out. The traces are checked against spec/TraceRelay.tla.

Nothing depends on durations: a datagram which should be forwarded is waited for (at most PATIENCE
seconds), and a datagram which should be dropped is followed by one that isn't."""
import json, os, random, re, socket, subprocess, time

PATIENCE = 20
PACE = 20  # datagrams at once, far fewer than what the queues of the kernel hold


class Unusable(Exception):
    pass


class Failed(Exception):
    """The trace can't be a behaviour of the specification: no need to go on."""


def sock():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
    s.bind(('127.0.0.1', 0))
    return s


def free_port():
    s = sock()
    p = s.getsockname()[1]
    s.close()
    return p


def kernel(port):
    """(bytes waiting, dropped datagrams) of the socket bound to this port, or None."""
    with open('/proc/net/udp') as f:
        for l in f.readlines()[1:]:
            w = l.split()
            if int(w[1].split(':')[1], 16) == port:
                return int(w[4].split(':')[1], 16), int(w[-1])
    return None


class Tool:
    """A running tool, and the trace of what goes through it."""
    def __init__(self, trace, exe, args, scratch, start):
        self.trace = trace
        self.b = sock()
        self.a = [sock(), sock()]
        self.port = free_port()
        self.out = open(os.path.join(scratch, 'tool-%d.out' % self.port), 'w+')
        self.p = subprocess.Popen([exe, str(self.port), '127.0.0.1', str(self.b.getsockname()[1])] + args,
                                  stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT)
        self.content = {}
        self.n = 0
        self.back = None   # address of the proxy, seen from b
        self.given = {'ab': 0, 'ba': 0}
        self.lines = {'ab': start.get('la', []), 'ba': start.get('lb', [])}
        self.ev(op='start', **start)
        end = time.time() + PATIENCE
        while kernel(self.port) is None:
            if self.p.poll() is not None:
                self.failed(op='dead')
            if time.time() > end:
                raise Unusable('the tool does not listen')
            time.sleep(0.005)

    def ev(self, **k):
        self.trace.write(json.dumps(k) + '\n')

    def failed(self, **k):
        self.ev(**k)
        self.close()
        raise Failed()

    def dead(self):
        return self.p.poll() is not None

    def note(self, payload):
        self.n += 1
        self.content[payload] = self.n
        return self.n

    def in_(self, d, payload, client=0):
        """Gives a datagram to the tool."""
        x = self.note(payload) if payload else 0
        self.given[d] += len(payload) > 0
        self.ev(op='in', d=d, x=x, n=len(payload), **{'from': client})
        if d == 'ab':
            self.a[client].sendto(payload, ('127.0.0.1', self.port))
        else:
            self.b.sendto(payload, self.back)

    def receive(self, d, timeout):
        """Waits for a datagram, on any socket. False if there is none."""
        import select
        socks = [self.b] if d == 'ab' else self.a
        r, _, _ = select.select(socks, [], [], timeout)
        if not r:
            return False
        payload, addr = r[0].recvfrom(70000)
        if d == 'ab' and self.back is None:
            self.back = addr
        self.ev(op='out', d=d, x=self.content.get(payload, 0), to=0 if d == 'ab' else self.a.index(r[0]))
        return True

    def expect(self, d, n):
        """Waits for n datagrams."""
        for _ in range(n):
            end = time.time() + PATIENCE
            while not self.receive(d, 0.2):
                if self.dead():
                    self.failed(op='dead')
                if time.time() > end:
                    self.failed(op='sync', d=d)
        return True

    def drain(self, d):
        while self.receive(d, 0):
            pass

    def report(self, total):
        """Waits for a report on all datagrams."""
        end = time.time() + PATIENCE
        last = None
        while time.time() < end and not self.dead():
            self.out.flush()
            with open(self.out.name) as f:
                m = re.findall(r'losses (\d+) , (\d+) \|\| total (\d+) , (\d+) \|\|', f.read())
            if m:
                last = [int(v) for v in m[-1]]
                if last[2] == total[0] and last[3] == total[1]:
                    break
            time.sleep(0.1)
        if self.dead():
            self.failed(op='dead')
        elif last is None:
            raise Unusable('no report')
        else:
            self.ev(op='report', la=last[0], lb=last[1], ta=last[2], tb=last[3])

    def close(self):
        self.p.kill()
        self.p.wait()
        self.out.close()
        for s in self.a + [self.b]:
            s.close()


def payload(r, k, size):
    """Unique if there is enough room for it."""
    b = r.randbytes(size)
    t = b'%x' % k
    return (t + b)[:size] if size > len(t) + 4 else b


def distinct(t, r, k, size):
    for i in range(200):
        p = payload(r, k, size + (i // 20))
        if p not in t.content:
            return p
    raise Unusable('no distinct payload')


def write_file(path, lines, r):
    words = {0: ['0', '0', '0 ', '01', '0x'], 1: ['1', '1', '10', '1 0', '2', 'loss', '-']}
    text = '\n'.join(r.choice(words[v]) for v in lines)
    if lines and r.random() < 0.7:
        text += '\n'
    with open(path, 'w') as f:
        f.write(text)


def file_tool(trace, exe, la, lb, r, scratch, tag):
    fa, fb = os.path.join(scratch, tag + '.a'), os.path.join(scratch, tag + '.b')
    write_file(fa, la, r)
    write_file(fb, lb, r)
    return Tool(trace, exe, ['file', fa, fb], scratch, dict(model='file', la=la, lb=lb))


def final(t, r, client=0):
    """Nothing more is expected: what comes now, before these last datagrams, was not to be forwarded."""
    for d in ('ab', 'ba'):
        while t.given[d] < len(t.lines[d]):
            t.in_(d, distinct(t, r, t.n, 30), client)
            if t.lines[d][t.given[d] - 1] == 0 and not t.expect(d, 1):
                return False
        t.in_(d, distinct(t, r, t.n, 12), client)
        if not t.expect(d, 1):
            return False
        t.drain(d)
    return True


def generated(trace, exe, tests, seed, scratch, tag):
    """Tests given by GenRelay: lines of a file, lines of the other, then what is sent (a or b) and
    whether it goes through (+ or -)."""
    r = random.Random(seed)
    for i, test in enumerate(tests):
        la, lb, steps = test.split()
        la, lb = ([int(c) for c in x] if x != 'x' else [] for x in (la, lb))
        t = file_tool(trace, exe, la, lb, r, scratch, '%s-%d' % (tag, i))
        try:
            ok = not t.dead()
            todo = [steps[j:j + 2] for j in range(0, len(steps), 2)]
            for c, fate in todo:
                if not ok:
                    break
                d = 'ab' if c == 'a' else 'ba'
                if d == 'ba' and t.back is None:
                    break  # b doesn't know the proxy yet
                t.in_(d, distinct(t, r, t.n, r.choice([1, 5, 30])))
                if fate == '+':
                    ok = t.expect(d, 1)
            ok = ok and final(t, r)
        finally:
            t.close()


SIZES = [1, 2, 15, 100, 576, 1400, 1472, 1500, 4095, 4096, 4097, 8191, 9000, 32767, 32768, 65000, 65506, 65507]


def sessions(trace, exe, seed, n, scratch, tag, report=True):
    """Longer sessions with losses read in files: sizes, bursts, clients, and the report."""
    r = random.Random(seed)
    for i in range(n):
        k = r.choice([0, 5, 40, 120])
        la = [int(r.random() < 0.4) for _ in range(k)]
        lb = [int(r.random() < 0.4) for _ in range(r.choice([0, 3, 60]))]
        t = file_tool(trace, exe, la, lb, r, scratch, '%s-%d' % (tag, i))
        client = 0

        def goes(d):
            """Will the next one go through?"""
            return t.given[d] >= len(t.lines[d]) or t.lines[d][t.given[d]] == 0

        try:
            ok = not t.dead()
            for _ in range(r.choice([30, 80])):
                if not ok:
                    break
                d = 'ab' if t.back is None or r.random() < 0.6 else 'ba'
                if r.random() < 0.05 and d == 'ab':
                    t.in_(d, b'', client)
                    continue
                if d == 'ab' and t.back is not None and r.random() < 0.15 and goes('ab') and goes('ba'):
                    client = 1 - client
                    batch = 1
                else:
                    batch = r.choice([1, 1, 1, 5, PACE])
                exp = 0
                for _ in range(batch):
                    size = r.choice(SIZES) if batch == 1 else r.choice([1, 40, 300, 1400])
                    exp += goes(d)
                    t.in_(d, distinct(t, r, t.n, min(size, 65000) if size < 65506 else size), client)
                ok = t.expect(d, exp)
            if ok and final(t, r, client) and report and i == 0:
                t.report((t.given['ab'], t.given['ba']))
        finally:
            t.close()


def settle(t, port, n):
    """Waits until the proxy has read everything."""
    end = time.time() + PATIENCE
    while time.time() < end:
        k = kernel(port)
        if k is None:
            return
        if k[1]:
            raise Unusable('the kernel dropped datagrams')
        if k[0] == 0:
            return
        time.sleep(0.001)
    raise Unusable('the proxy does not read')


def random_model(trace, exe, args, params, n, seed, scratch):
    """Random losses: datagrams are counted."""
    r = random.Random(seed)
    t = Tool(trace, exe, args, scratch, dict(model=args[0], p=params))
    try:
        if t.dead():
            return
        for d in ('ab', 'ba'):
            if d == 'ba' and t.back is None:
                break  # everything was lost
            port = t.port if d == 'ab' else t.back[1]
            i = 0
            while i < n:
                k = min(PACE, n - i)
                for _ in range(k):
                    t.in_(d, b'%d:' % t.n + r.randbytes(4))
                i += k
                settle(t, port, n)
                t.drain(d)
                if t.dead():
                    t.failed(op='dead')
            # The last ones
            settle(t, port, n)
            while t.receive(d, 0.5):
                pass
            t.ev(op='sync', d=d)
        t.report((t.given['ab'], t.given['ba']))
        t.ev(op='stat')
    finally:
        t.close()


# ------------------------------------------------------------------------------- forwarder

def source(i, data):
    return b'\x02' + i.to_bytes(4, 'big') + len(data).to_bytes(2, 'big') + data


def repair(r, i):
    n = r.choice([1, 16, 100])
    k = r.randint(1, 5)
    ids = (b'\x00\x01' + i.to_bytes(4, 'big')) if k == 1 else \
        (b'\x00\x02' + i.to_bytes(4, 'big') + bytes([k - 1]) + b'\x00\x01')
    return b'\x01' + i.to_bytes(4, 'big') + n.to_bytes(2, 'big') + r.randbytes(n) + ids + r.randbytes(4)


def ack(r, i):
    return b'\x00' + r.randbytes(2) + b'\x00\x01' + i.to_bytes(4, 'big')


def forwarder(trace, exe, seed, n, scratch):
    r = random.Random(seed)
    for _ in range(n):
        t = Tool(trace, exe, [], scratch, dict(model='forward'))
        sid = r.choice([0, 100, 70000, 1 << 31])
        try:
            ok = not t.dead()
            for _ in range(r.choice([20, 60])):
                if not ok:
                    break
                exp = 0
                for _ in range(r.choice([1, 1, 4])):
                    v = r.random()
                    if v < 0.65:
                        size = r.choice([1, 2, 16, 17, 500, 1400, 4088, 4089, 4090, 9000, 65500]) if r.random() < 0.5 \
                            else r.randint(4, 2000)
                        data = distinct(t, r, t.n, min(size, 65500))[:65500]
                        x = t.note(data)
                        pkt, src = source(sid, data), 1
                        if r.random() < 0.1 and len(pkt) < 60000:
                            pkt += r.randbytes(r.randint(1, 20))  # followed by something else
                        sid += 1
                    elif v < 0.75:
                        x, pkt, src = 0, repair(r, sid), 0
                    elif v < 0.85:
                        x, pkt, src = 0, ack(r, sid), 0
                    elif v < 0.92:
                        x, pkt, src = 0, bytes([r.randint(3, 255)]) + r.randbytes(r.randint(0, 20)), 0
                    elif v < 0.97:
                        # Truncated
                        p = source(sid, r.randbytes(r.randint(10, 100)))
                        x, pkt, src = 0, p[:r.randint(1, len(p) - 1)], 0
                    else:
                        x, pkt, src = 0, b'', 0
                    t.ev(op='pkt', x=x, src=src, n=len(pkt))
                    t.a[0].sendto(pkt, ('127.0.0.1', t.port))
                    exp += src
                ok = t.expect('ab', exp)
            if ok:
                data = distinct(t, r, t.n, 12)
                t.ev(op='pkt', x=t.note(data), src=1, n=12)
                t.a[0].sendto(source(sid, data), ('127.0.0.1', t.port))
                t.expect('ab', 1)
                t.drain('ab')
        finally:
            t.close()


def main():
    """relay.py OUT JSON: {"job": name of a function, "args": [...]}; 4: couldn't be done."""
    import sys
    job = json.loads(sys.argv[2])
    try:
        with open(sys.argv[1], 'w') as f:
            {'generated': generated, 'sessions': sessions, 'random_model': random_model,
             'forwarder': forwarder}[job['job']](f, *job['args'])
    except Failed:
        pass
    except Unusable as e:
        print(e)
        sys.exit(4)


if __name__ == '__main__':
    main()
