"""C27: priority queue, timer, numbers written as text (rainbow/util/heap.py, timer.py, parse_string.py, V3/Q.from_string)"""
from pv.check import contract
H = 'rainbow.util.heap.'


# ---- priority queue --------------------------------------------------------------------------------------
class Finder:
    """the live entries: an arbitrary map from entry to (value, entry)"""
    def __init__(self, c):
        self.c, self.known, self.version = c, [], 0

    def look(self, i):
        for x in self.known:
            if x['key'] is i or self.c.eq(x['key'], i):
                return x
        x = dict(key=i, live=self.c.fresh('live') > 0, item=(self.c.fresh('value'), i))
        self.known.append(x)
        return x

    def __contains__(self, i):
        return bool(self.look(i)['live'])

    def __getitem__(self, i):
        x = self.look(i)
        if not x['live']:
            raise KeyError(i)
        return x['item']

    def get(self, i, d=None):
        x = self.look(i)
        return x['item'] if x['live'] else d

    def __setitem__(self, i, v):
        self.look(i).update(live=True, item=v)
        self.version += 1

    def __delitem__(self, i):
        x = self.look(i)
        if not x['live']:
            raise KeyError(i)
        x.update(live=False)
        self.version += 1

    def pop(self, i):
        r = self[i]
        del self[i]
        return r

    def __len__(self):
        n = self.c.fresh_int('entries')
        self.c.requires(n >= 0)
        for x in self.known:
            if x['live']:
                self.c.requires(n >= 1)
        return 1 if n >= 1 else 0

    def __iter__(self):
        from pv.terms import Unsupported
        raise Unsupported('iteration over the live entries')

    def __pv_state__(self):
        return self.version


class Store:
    """contents of the binary heap (contract of heapq, trusted: an item is returned only if no other item is smaller), seen
    from one live entry: is its current item in the heap"""
    def __init__(self, c, finder, e):
        self.c, self.finder, self.e = c, finder, e
        self.has, self.pops, self.pushed, self.ask = None, 0, [], None

    def __bool__(self):
        if self.has:
            return True
        self.ask = self.c.fresh('more') > 0
        return bool(self.ask)

    def __len__(self):
        return 1 if bool(self) else 0

    def __pv_state__(self):
        return (self.pops, len(self.pushed))

    def heappop(self):
        c = self.c
        if not self.has and not self.ask:
            raise IndexError('pop from an empty heap')
        self.pops += 1
        mine = self.finder.look(self.e)
        if self.has and c.boolean('the item of the entry comes first'):
            self.has = False
            return mine['item']
        i = self.e if c.boolean('an old item of the entry') else c.fresh_int('i')
        x = self.finder.look(i)
        v = x['item'][0] if c.boolean('the current value') else c.fresh('v')
        if self.has:
            c.requires(v <= mine['item'][0])
        return v, i


def queue(c):
    h = c.fn(H + 'Heap')()
    e = c.fresh_int('e')
    f = h._finder = Finder(c)
    s = h._heap = Store(c, f, e)
    live = f.look(e)['live']
    # class invariant: the current item of every live entry is in the heap
    s.has = bool(live)
    c.replace(H + 'heappop', lambda x: x.heappop())
    c.replace(H + 'heappush', lambda x, item: x.pushed.append(item))
    return h, e, f, s, dict(f.look(e))


@contract('C27', loops=True)
def queue_pop(c):
    """with any contents: a live entry of smallest value is returned and removed, nothing else changes; None if and only if
    there is no live entry"""
    if not c.unbounded_sizes:
        return history(c)
    h, e, f, s, was = queue(c)

    def havoc(env, k):
        s.pops, s.ask = 0, None
        s.has = bool(was['live'])

    def inv(env, k):
        if c.phase == 'preserved':
            return [f.version == 0, s.pops >= 1, not s.pushed, c.implies(was['live'], s.has)]
        return [f.version == 0, not s.pushed, c.implies(was['live'], s.has)]
    c.invariant(H + 'Heap.pop', 1, inv, havoc, modifies=('self',))
    before = {id(x): dict(x) for x in f.known}
    r = c.call(h.pop)
    c.targets.add(H + 'Heap.pop')
    if r is None:
        c.prove('nothing is returned only if nothing is left', [c.not_(was['live']), f.version == 0])
        return
    x = f.look(r)
    c.prove('the entry returned was live and is removed', [f.version == 1, c.not_(x['live'])])
    c.prove('no live entry has a smaller value', c.implies(was['live'], x['item'][0] <= was['item'][0]))
    now = f.look(e)
    c.prove('other entries stay, with their items in the heap',
            c.or_(c.eq(r, e), c.and_(c.iff(now['live'], was['live']), c.eq(now['item'][0], was['item'][0]), c.implies(was['live'], s.has))))


@contract('C27', loops=True)
def queue_push(c):
    """pushing (or updating) makes the entry live with the given value, its item is in the heap; other entries are as before"""
    if not c.unbounded_sizes:
        return history(c)
    h, e, f, s, was = queue(c)
    i, v = c.integer('i', 0, 5, bounded=False), c.real('v')
    m = c.choice('m', ['push', 'update'])
    c.call(getattr(h, m), i, v)
    c.targets.add(H + 'Heap.' + m)
    x = f.look(i)
    c.prove('live with the given value', [x['live'], c.eq(x['item'][0], v), c.eq(x['item'][1], i)])
    c.prove('its item is in the heap', c.or_(*[c.and_(p[0] is x['item'][0], c.eq(p[1], i)) for p in s.pushed]))
    now = f.look(e)
    c.prove('other entries stay', c.or_(c.eq(i, e), c.and_(c.iff(now['live'], was['live']), now['item'] is was['item'], s.pops == 0)))


@contract('C27', loops=True)
def queue_empty(c):
    """a queue is true as long as it has a live entry"""
    if not c.unbounded_sizes:
        return history(c)
    h, e, f, s, was = queue(c)
    c.targets |= {H + 'Heap.__bool__', H + 'Heap.__init__'}
    r = bool(h)
    c.prove('true as long as there is a live entry', c.implies(was['live'], r))
    c.prove('nothing changes', [f.version == 0, s.pops == 0, not s.pushed])
    g = c.fn(H + 'Heap')()
    c.prove('empty at first', [not g, g.pop() is None])


def history(c):
    """sequences of operations against a table of current values"""
    h = c.fn(H + 'Heap')()
    now = {}
    for t in range(c.choice('length', [1, 3, 8, 20, 40])):
        op = c.choice('op%d' % t, [0, 1, 1, 2, 2, 3])
        i, v = c.choice('i%d' % t, [0, 1, 2, 3, 4]), c.choice('v%d' % t, [0, 1, 2, 3.5, -1, 1e9, 0.25, 1.0])
        if op == 0:
            r = h.pop()
            if not now:
                c.prove('nothing is returned only if nothing is left', r is None)
            else:
                c.prove('the entry returned was live and is removed', r in now)
                c.prove('no live entry has a smaller value', now[r] == min(now.values()))
                del now[r]
        elif op == 3 and now:
            h.update(sorted(now)[v == 1 and -1 or 0], v)
            now[sorted(now)[v == 1 and -1 or 0]] = v
        else:
            (h.push if i not in now else h.update)(i, v)
            now[i] = v
        c.prove('not empty', bool(h) == bool(now))
    while now:
        r = h.pop()
        c.prove('the entry returned was live and is removed', r in now)
        c.prove('no live entry has a smaller value', now[r] == min(now.values()))
        del now[r]
    c.prove('nothing is returned only if nothing is left', [h.pop() is None, not h])


# ---- timer ---------------------------------------------------------------------------------------------
TM = 'rainbow.util.timer.'


class Clock:
    """time.perf_counter: any non-decreasing readings"""
    def __init__(self, c, start=0):
        self.c, self.now, self.n = c, start, 0

    def perf_counter(self):
        self.n += 1
        d = self.c.abs(self.c.real('tick%d' % self.n, 0, 2))
        self.now = self.now + d
        return self.now

    time = monotonic = perf_counter


@contract('C27')
def timer(c):
    """any history of start and end: the total is the sum of the completed intervals, elapsed is the last one"""
    T = c.fn(TM + 'Timer')
    t = T('t')
    g = T.start.__globals__
    old, clock = g['time'], Clock(c)
    g['time'] = clock
    try:
        total, last, started = 0, 0, None
        # an arbitrary earlier history
        if c.boolean('earlier'):
            total, last = c.real('total', 0, 5), c.real('last', 0, 5)
            if c.sym:
                t.accumulated, t.value = total, last
            else:
                total = last = 0
        for k in range(c.choice('length', [0, 1, 2, 3, 4])):
            if c.choice('op%d' % k, ['start', 'end']) == 'start':
                c.call(t.start)
                started = clock.now
            elif started is None:
                c.expect_raise('end without start', t.end, exc=RuntimeError)
            else:
                c.call(t.end)
                last, total, started = clock.now - started, total + (clock.now - started), None
            c.prove('elapsed is the last completed interval', c.eq(t.elapsed, last))
            c.prove('total is the sum of the completed intervals', c.eq(t.total, total))
        c.targets |= {TM + 'Timer.start', TM + 'Timer.end'}
        if not c.sym:
            c.prove('text', isinstance(str(t), str) and '%.8f' % float(t.total) in str(t))
    finally:
        g['time'] = old


# ---- text -----------------------------------------------------------------------------------------------
V, Q, S = 'rainbow.math.vector3.', 'rainbow.math.quaternion.', 'rainbow.util.parse_string.'


def number(c, n):
    s = c.choice(n + 's', ['', '-'])
    w = c.choice(n + 'w', ['0', '1', '7', '10', '45', '90', '120', '203'])
    f = c.choice(n + 'f', ['', '.0', '.5', '.25', '.05', '.001', '.10', '.00', '.75', '.125'])
    e = c.choice(n + 'e', ['', '', '', 'e+1', 'e-2', 'E-1'])
    return s + w + f + e


def spaced(c, n, parts, sep):
    gap = c.choice(n + 'gap', ['', ' '])
    return (gap + sep + gap).join(parts)


@contract('C27', bounded='numbers with sign, up to three digits before and after the point and an exponent; one text per run', concrete=400)
def text_vectors(c):
    """a vector written as text is parsed to the numbers written"""
    if c.sym:
        c.requires(False)
    k = c.choice('k', [3, 4, 5, 2, 1])
    xs = [number(c, 'n%d' % i) for i in range(k)]
    s = '[' + spaced(c, 's', xs, ',') + ']'
    want = [float(x) for x in xs]
    if k >= 3:
        r = c.call(V + 'from_string', s)
        c.prove('vector', [len(r) == 3] + [float(r[i]) == want[i] for i in range(3)])
    else:
        c.expect_raise('too few numbers', c.fn(V + 'from_string'), s)
    if k >= 4:
        r = c.call(Q + 'from_string', s)
        c.prove('quaternion', [len(r) == 4] + [float(r[i]) == want[i] for i in range(4)])
    else:
        c.expect_raise('too few numbers', c.fn(Q + 'from_string'), s)
    c.prove('accepted as an array', c.call(S + 'parse_string_to_array_check', s.lower()))


@contract('C27', bounded='one text per run', concrete=60)
def text_names(c):
    if c.sym:
        c.requires(False)
    n, want = c.choice('n', [('ones', [1, 1, 1]), ('zero', [0, 0, 0]), ('i', [1, 0, 0]), ('j', [0, 1, 0]), ('k', [0, 0, 1])])
    if c.choice('upper', [0, 1]):
        n = n.upper()
    r = c.call(V + 'from_string', n)
    c.prove('named vector', [float(a) == b for a, b in zip(r, want)] + [len(r) == 3])
    r = c.call(Q + 'from_string', c.choice('id', ['identity', 'Identity', 'IDENTITY']))
    c.prove('identity', [float(a) == b for a, b in zip(r, [1, 0, 0, 0])] + [len(r) == 4])
    a, b = number(c, 'a'), number(c, 'b')
    for x in range(3):
        r = c.call(V + 'from_string', 'rand:%s:%s' % (a, b))
        lo, hi = sorted([float(a), float(b)])
        c.prove('random vector within the bounds', [lo <= float(y) <= hi for y in r] + [len(r) == 3])
    bad = c.choice('bad', ['', 'one', 'l', '[1,2,3', '1,2,3', '[1,,2,3]', '[a,b,c]', '[1,2,3]x', 'rand:1', 'rand:a:b', '[1 2 3]', '[1,2,3--1]', '[01,2,3]', '[1.,2,3]',
                           '[.5,2,3]', '[1,2,3]]', 'rand:1:2:3', '[1e5e5,2,3]'])
    c.expect_raise('not a vector: %s' % bad, c.fn(V + 'from_string'), bad)


@contract('C27', bounded='one text per run', concrete=300)
def text_rotations(c):
    """angles are in degrees; the rotation is the one about the axis written"""
    if c.sym:
        c.requires(False)
    import math
    deg = number(c, 'deg')
    if abs(float(deg)) > 1e4:
        return
    kind = c.choice('kind', ['rx', 'ry', 'rz', 'ru', 'RX', 'Ru'])
    axis = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}.get(kind[1].lower())
    s = kind + ':' + c.choice('space', ['', ' ']) + deg
    if axis is None:
        ax = [number(c, 'ax%d' % i) for i in range(3)]
        axis = [float(x) for x in ax]
        if not any(axis):
            return
        s += ':' + '[' + spaced(c, 'ax', ax, ',') + ']'
    r = c.call(Q + 'from_string', s)
    h = math.radians(float(deg)) / 2
    n = math.sqrt(sum(x * x for x in axis))
    want = [math.cos(h)] + [math.sin(h) * x / n for x in axis]
    c.prove('rotation by the angle about the axis', [len(r) == 4] + [abs(float(a) - b) < 1e-9 for a, b in zip(r, want)])
    if kind[1] in 'xyz':
        c.prove('accepted as a rotation', c.call(S + 'parse_string_to_rotation_check', s.lower()))
    bad = c.choice('bad', ['', 'rx', 'rx:', 'rx:a', 'rq:10', 'rx:10:20', 'ru:10', 'ru:10:[1,2]', 'ident', 'rx:1.2e--3', 'rx:10]', '[1,2,3]', 'rx:[1,2,3]', 'xrx:10', 'rx:010',
                           'ru:[1,0,0]:10'])
    c.expect_raise('not a rotation: %s' % bad, c.fn(Q + 'from_string'), bad)
