"""The value of accrual, proved on the body of models::farmer::eligible_harvest_until for every number of windows and ranges.

A history is a sequence of ranges with a rate each; E(x) is what it emits in slots 0..x.  What a window adds to the record of a mint is
floor(share * (E(last) - E(first - 1))), its share being the floor of staked / total to 18 decimals."""
from val import *
from mir import Unsupported
from prove import Fn, Call
from cut import Cut, Ghost, live, changed
from lib import WAD, some, ok, result, option, NONE
import re

I = z3.IntSort()
U64M = (1 << 64) - 1
FREE = 'models::farmer::eligible_harvest_until'


class Abs:
    """an abstract tps history: ranges lo(k)..hi(k) of rate tp(k), k < n, the latest last, ending at or after slot `until`"""

    def __init__(s, T, i, until):
        s.T, s.i, s.until = T, i, until
        s.lo, s.hi, s.tp, s.E = [z3.Function('%s_%d' % (n, i), I, I) for n in ('lo', 'hi', 'tp', 'E')]
        s.F = z3.Function('credited_%d' % i, I, I)
        s.N = T.fresh('ranges', 0, U64M)

    def known(s, k):
        """what the contract of tps_history says of range k and its neighbour"""
        lo, hi, tp = s.lo(k), s.hi(k), s.tp(k)
        return [Implies(And(k >= 0, k < s.N), And(0 <= lo, lo <= hi, hi <= U64M, 0 <= tp, tp <= U64M)),
                Implies(And(k >= 0, k + 1 < s.N), And(hi + 1 == s.lo(k + 1), s.lo(k + 1) <= s.hi(k + 1), s.hi(k + 1) <= U64M)),
                Implies(And(k >= 0, k + 1 == s.N), hi >= s.until)]

    def emits(s, k, x, y, share):
        """within a range, the emission is the rate times the slots; also multiplied by a share"""
        c = And(k >= 0, k < s.N, s.lo(k) <= x, x <= y + 1, y <= s.hi(k))
        d = s.tp(k) * (y - x + 1)
        return [Implies(c, s.E(y) - s.E(x - 1) == d), Implies(c, share * s.E(y) - share * s.E(x - 1) == share * d)]

    def before(s, *xs):
        """nothing is emitted before the first range, or ever if there is none"""
        return [Implies(Or(s.N == 0, x < s.lo(0)), s.E(x) == 0) for x in xs]

    def elem(s, k):
        return VS('', [VS('RangeInclusive', [VS('Slot', [s.lo(k)]), VS('Slot', [s.hi(k)])]), VS('TokenAmount', [s.tp(k)])])


class Windows:
    """an abstract sequence of snapshots, newest first"""

    def __init__(s, T, since, until):
        s.T, s.since, s.until = T, since, until
        s.start, s.staked = z3.Function('start', I, I), z3.Function('total', I, I)
        s.N = T.fresh('windows', 0, U64M)

    def known(s, w):
        a, b = s.start(w), s.start(w - 1)
        return [Implies(And(w >= 0, w < s.N), And(0 <= a, a <= U64M, 0 <= s.staked(w), s.staked(w) <= U64M)),
                Implies(And(w == 0, w < s.N), a <= s.until),
                Implies(And(w > 0, w < s.N), And(b > s.since, a < b, b <= U64M)),
                Implies(And(w > 0, w <= s.N), b >= 0)]

    def elem(s, w):
        return VS('Snapshot', [VS('TokenAmount', [s.staked(w)]), VS('Slot', [s.start(w)])])


def build(W, ex, st, case):
    """each mint has one history satisfying the contract of tps_history, the snapshots satisfy the contract of the window sequence (both obligations of Farmer::eligible_harvest_until and Harvest::tps_history, F05)"""
    T = W.T
    n = case['mints']
    since, until, staked = [T.fresh(x, 0, U64M) for x in ('since', 'until', 'staked')]
    ws = Windows(T, since, until)
    W.lib.windows = ws
    W.lib.histories = hs = []
    fh, rec = [], []
    for i in range(n + (1 if case.get('empty') else 0)):
        m = T.fresh('mint', 1) if i < n else T.fresh('no_mint', 0, 0)
        DISTINCT[m.get_id()] = (0, m)
        h = W.types.sym('Harvest', 'harvest%d' % i)
        h.f[0] = m
        fh.append((True, m, VRef(ex.new_cell(st, h))))
        hs.append(Abs(T, i, until))
        old = T.fresh('record', 0, U64M)
        rec.append((True, m, VS('TokenAmount', [old])))
    W.lib.cells = [x[2].c for x in fh]
    maps = VRef(ex.new_cell(st, VMap(fh))), VRef(ex.new_cell(st, VMap(rec)))
    args = [maps[0], VS('AbsIter', [0]), maps[1], VS('', [VS('Slot', [since]), VS('Slot', [until])]), VS('TokenAmount', [staked])]
    return Call(args, [since <= until], ws=ws, hs=hs, maps=maps, staked=staked, olds=[x[2].f[0] for x in rec], mints=[x[1] for x in rec], W=W, n=n)


def post(c, ex, st, v):
    m = ex.load(st, c.maps[1])
    now = {}
    for g, k, x in m.i:
        if g is not True:
            raise Unsupported('conditional record')
        now[zi(k).get_id()] = x.f[0]
    out = [('one record per mint', len(now) == len(c.olds))]
    for i, (k, old) in enumerate(zip(c.mints, c.olds)):
        r = now[zi(k).get_id()]
        if i >= c.n:
            out.append(('an empty record stays', eqt(r, old)))
            continue
        out.append(('nothing accrues without stake (mint %d)' % i, Implies(c.staked == 0, eqt(r, old))))
        out.append(('the record grows by the sum over the windows (mint %d)' % i, Implies(c.staked > 0, r == old + c.hs[i].F(c.ws.N))))
    return out


class WindowsCut(Cut):
    """one pass per snapshot"""

    def __init__(s, c):
        Cut.__init__(s, 'windows')
        s.c = c

    def look(s, ex, body, fr, h, st):
        it = s.one(body, h, st, fr, r'std::iter::Filter<impl Iterator.*|impl Iterator.*')
        o = s.one(body, h, st, fr, r'models::Slot')
        hist = s.one(body, h, st, fr, r'.*BTreeMap<.*Vec<.*RangeInclusive.*')
        v = st.cells[it]
        base = v.a[0] if isinstance(v, VIter) else v
        m = st.cells[hist]
        if not (isinstance(base, VS) and base.n == 'AbsIter') or any(g is not True or x.n != 'AbsVec' for g, _, x in m.i):
            raise Unsupported('windows: another shape')
        rec = st.cells[s.c.maps[1].c]
        return it, o, hist, base.f[0], st.cells[o].f[0], [x.f[1] for _, _, x in m.i], rec

    def inv(s, w, o, ns, rec):
        c, ws = s.c, s.c.ws
        out = [('the place in the sequence', And(w >= 0, w <= ws.N)),
               ('where the window ends', Implies(w < ws.N, And(o == s.end(w), o >= 0, o <= ws.until + 1)))]
        for i, h in enumerate(c.hs):
            n, (g, k, x) = ns[i], rec.i[i]
            if g is not True or not eqt(k, c.mints[i]) is True:
                raise Unsupported('windows: the records are rearranged')
            if i >= c.n:
                out.append(('empty record', eqt(x.f[0], c.olds[i])))
                continue
            out.append(('ranges left (mint %d)' % i, And(n >= 0, n <= h.N, Implies(w < ws.N, Or(n == h.N, h.lo(n) >= o)))))
            out.append(('credited so far (mint %d)' % i, x.f[0] == c.olds[i] + h.F(w)))
        return out

    def end(s, w):
        return z3.If(zi(w) == 0, s.c.ws.until + 1, s.c.ws.start(w - 1)) if not isinstance(w, int) else (s.c.ws.until + 1 if w == 0 else s.c.ws.start(w - 1))

    def enter(s, ex, body, fr, h, st):
        c, ws, T, lib = s.c, s.c.ws, s.c.W.T, s.c.W.lib
        it, o, hist, w, ov, ns, rec = s.look(ex, body, fr, h, st)
        for x in c.hs:
            st.assume(x.F(0) == 0)
        for n, f in s.inv(w, ov, ns, rec):
            s.oblige(ex, st, n + ', at first', f)
        w, ov = T.fresh('w', 0, U64M), T.fresh('o', 0, U64M)
        ns = [T.fresh('n', 0, U64M) for _ in c.hs]
        v = st.cells[it]
        st.cells[it] = VIter(v.k, VS('AbsIter', [w]), *v.a[1:]) if isinstance(v, VIter) else VS('AbsIter', [w])
        st.cells[o] = VS('Slot', [ov])
        st.cells[hist] = VMap([(g, k, VS('AbsVec', [x.f[0], n])) for (g, k, x), n in zip(st.cells[hist].i, ns)])
        rec = VMap([(g, k, VS('TokenAmount', [T.fresh('r', 0, U64M)])) for g, k, x in rec.i])
        st.cells[c.maps[1].c] = rec
        for n, f in s.inv(w, ov, ns, rec):
            st.assume(f)
        for f in ws.known(w) + ws.known(w + 1):
            st.assume(f)
        share = lib.floordiv(c.staked * WAD, ws.staked(w))
        a, e = T.fresh('a', 0, U64M), ov - 1
        st.assume(a == z3.If(ws.start(w) > ws.since, ws.start(w), ws.since))
        for x in c.hs[:c.n]:
            q = lib.floordiv(share * x.E(e) - share * x.E(a - 1), WAD)
            st.assume(Implies(w < ws.N, x.F(w + 1) == x.F(w) + z3.If(z3.Or(ws.start(w) == 0, ws.staked(w) == 0), 0, q)))
        g = Ghost(cells=[it, o, hist, c.maps[1].c], w=w, o=ov, a=a, e=e, share=share)
        c.window = g
        return g

    def back(s, ex, body, fr, h, st, g):
        it, o, hist, w, ov, ns, rec = s.look(ex, body, fr, h, st)
        for n, f in s.inv(w, ov, ns, rec):
            s.oblige(ex, st, n + ', kept', f)


class RangesCut(Cut):
    """one pass per range of a mint's history"""

    def __init__(s, c):
        Cut.__init__(s, 'ranges')
        s.c = c

    def look(s, ex, body, fr, h, st):
        cv = s.one(body, h, st, fr, r'u64')
        el = s.one(body, h, st, fr, r'decimal::Decimal')
        refs = set()
        for l in live(body, h):
            x = st.cells.get((fr, l))
            if isinstance(x, VSel) and len(x.alts) == 1:
                x = x.alts[0][1]
            if isinstance(x, VRef):
                y = ex.load(st, x)
                if isinstance(y, VS) and y.n == 'AbsVec':
                    refs.add((x.c, tuple(x.p), y.f[0]))
        if len(refs) != 1:
            raise Unsupported('ranges: %d histories' % len(refs))
        cell, p, i = refs.pop()
        r = VRef(cell, p)
        return cv, el, r, i, ex.load(st, r).f[1], st.cells[cv], s.c.W.lib.raw(ex, st, st.cells[el])

    def inv(s, i, n, cc, el):
        w, h = s.c.window, s.c.hs[i]
        return [('ranges left', And(n >= 0, n <= h.N)),
                ('what is left of the window', And(w.a - 1 <= cc, cc <= w.e)),
                ('credited so far', el == w.share * h.E(w.e) - w.share * h.E(cc)),
                ('the next range', And(Or(n == h.N, And(h.lo(n) > cc, Or(cc == w.e, cc + 1 == h.lo(n)))), Implies(n == h.N, cc == w.e)))]

    def enter(s, ex, body, fr, h, st):
        T, lib, w = s.c.W.T, s.c.W.lib, s.c.window
        cv, el, r, i, n, cc, e = s.look(ex, body, fr, h, st)
        for k, f in s.inv(i, n, cc, e):
            s.oblige(ex, st, '%s (mint %d), at first' % (k, i), f)
        n, cc, e = T.fresh('n', 0, U64M), T.fresh('c', -1, U64M), T.fresh('el', 0)
        st.cells[cv] = cc
        st.cells[el] = lib.dec(e)
        ex.store(st, r, VS('AbsVec', [i, n]))
        for _, f in s.inv(i, n, cc, e):
            st.assume(f)
        H = s.c.hs[i]
        for f in H.known(n - 1) + H.emits(n - 1, H.lo(n - 1), cc, w.share) + H.emits(n - 1, w.a, cc, w.share) + H.before(cc, w.a - 1, w.e):
            st.assume(f)
        return Ghost(cells=[cv, el, r.c], i=i, n=n)

    def back(s, ex, body, fr, h, st, g):
        cv, el, r, i, n, cc, e = s.look(ex, body, fr, h, st)
        for k, f in s.inv(i, n, cc, e):
            s.oblige(ex, st, '%s (mint %d), kept' % (k, i), f)

    def exit(s, ex, body, fr, h, st, g):
        cv, el, r, i, n, cc, e = s.look(ex, body, fr, h, st)
        w, H = s.c.window, s.c.hs[i]
        want = w.share * H.E(w.e) - w.share * H.E(w.a - 1)
        s.oblige(ex, st, 'the emission of the window times the share (mint %d)' % i, e == want)
        rest = And(n >= 0, n <= H.N, Or(n == H.N, H.lo(n) >= w.a))
        s.oblige(ex, st, 'what the older windows need is left (mint %d)' % i, rest)
        st.assume(e == want)
        st.assume(rest)
        st.cells[el] = s.c.W.lib.dec(want)


def loops(c):
    made = {}

    def cut(body, h):
        if (h,) not in made:
            d = body.loops[h].index(h)
            made[(h,)] = WindowsCut(c) if d == 0 else RangesCut(c) if d == 2 else None
        return made[(h,)]
    return {FREE: cut}


def stubs(W):
    def history(ex, st, vals):
        r = vals[0]
        while isinstance(r, VSel):
            r = r.alts[0][1]
        while isinstance(r, VRef) and isinstance(ex.load(st, r), VRef):
            r = ex.load(st, r)
        for i, c in enumerate(W.lib.cells):
            if r.c == c:
                return [(st, VS('AbsVec', [i, W.lib.histories[i].N]))]
        raise Unsupported('history of what')
    return {'models::farm::Harvest::tps_history': history}


ACCRUAL_FN = [Fn(FREE, build, post, internal=True, contracts=stubs, loops=loops, cases=[{'name': '%d mints%s' % (n, ' and an empty entry' if e else ''), 'mints': n, 'empty': e} for n in range(1, 11) for e in ((0, 1) if n < 10 else (0,))])]


# --- the history of a mint ----------------------------------------------------------------------------------

HISTORY = 'models::farm::Harvest::tps_history'
NP = 10


def well_formed(W, h):
    """what new_harvest_period establishes and keeps (F02): periods newest first and disjoint, unused ones last and zero"""
    out, ps = [], []
    for j in range(NP):
        p = W.types.get(h, 'periods[%d]' % j)
        s, e, t = W.types.get(p, 'starts_at.slot'), W.types.get(p, 'ends_at.slot'), W.types.get(p, 'tps.amount')
        ps.append((s, e, t))
        out += [s <= e, Implies(eqt(e, 0), eqt(t, 0)), Implies(e > 0, s > 0)]
        if j:
            out += [Or(eqt(e, 0), e < ps[j - 1][0]), Implies(eqt(ps[j - 1][1], 0), eqt(e, 0))]
    return out, ps


def build_history(W, ex, st, case):
    """the schedule is well formed: newest first, disjoint, unused periods last and zero (F02)"""
    h = W.types.sym('Harvest', 'harvest')
    now = W.types.sym('Slot', 'current')
    pre, ps = well_formed(W, h)
    return Call([VRef(ex.new_cell(st, h)), now], pre, ps=ps, now=now.f[0], W=W)


def post_history(c, ex, st, v):
    T, g = c.W.T, lambda x, p: c.W.types.get(x, p)
    v = v if isinstance(v, VVec) else ex.load(st, v)
    R = [(zb(a), zi(x.f[0].f[0].f[0]), zi(x.f[0].f[1].f[0]), zi(x.f[1].f[0])) for a, x in v.i]
    x = T.fresh('slot', 0, U64M)

    def rate(x):
        r = z3.IntVal(0)
        for s, e, t in c.ps:
            r = z3.If(And(s <= x, x <= e), zi(t), r)
        return r
    out = []
    some = z3.BoolVal(False)
    n = len(R)
    last = [And(R[k][0], *[z3.Not(R[j][0]) for j in range(k + 1, n)]) for k in range(n)]
    for k, (a, lo, hi, tp) in enumerate(R):
        out.append(('a range is not empty (%d)' % k, Implies(a, lo <= hi)))
        nxt = []
        for j in range(k + 1, n):
            b = And(a, R[j][0], *[z3.Not(R[i][0]) for i in range(k + 1, j)])
            nxt.append(Implies(b, hi + 1 == R[j][1]))
        out.append(('the next range follows at once (%d)' % k, And(*nxt)))
        out.append(('the last range reaches the slot asked for (%d)' % k, Implies(last[k], hi >= c.now)))
        out.append(('the rate of a range is that of its slots (%d)' % k, Implies(And(a, lo <= x, x <= hi), tp == rate(x))))
        first = And(a, *[z3.Not(R[j][0]) for j in range(k)])
        out.append(('nothing is emitted before the first range (%d)' % k, Implies(And(first, x < lo), rate(x) == 0)))
        some = z3.Or(some, a)
    out.append(('without ranges nothing is emitted', Implies(z3.Not(some), And(rate(x) == 0, c.now == 0))))
    return out


HISTORY_FN = [Fn(HISTORY, build_history, post_history, internal=True)]


# --- what one farmer accrues --------------------------------------------------------------------------------

METHOD = 'models::farmer::Farmer::eligible_harvest_until'
NM, RING = 10, 1000


def age(tip, ring, a):
    return ring.get(z3.If(a <= tip, tip - a, tip - a + RING))


def started(x):
    return zi(x.f[1].f[0])


def same_value(a, b):
    if isinstance(a, VS):
        return And(*[same_value(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VA):
        return And(*[same_value(x, y) for x, y in zip(a.e, b.e)])
    return eqt(a, b)


def in_order(x, y):
    """a snapshot and an older one: strictly ordered once taken, the blank ones are the oldest (F01)"""
    return z3.Or(x > y, z3.And(x == 0, y == 0))


def build_method(W, ex, st, case):
    """the ring position is within the ring, snapshots are in strict order of time (F01), mints differ (F04), records differ and blank ones hold nothing (F05, F11), the slots asked for are not in the past (checked at the callers)"""
    T, g = W.T, W.types.get
    me, fm, until = W.types.sym('Farmer', 'farmer'), W.types.sym('Farm', 'farm'), W.types.sym('Slot', 'until')
    tip, ring = g(fm, 'snapshots.ring_buffer_tip'), g(fm, 'snapshots.ring_buffer')
    mints = [g(fm, 'harvests[%d].mint' % i) for i in range(NM)]
    recs = [(g(me, 'harvests[%d].mint' % i), g(me, 'harvests[%d].tokens.amount' % i)) for i in range(NM)]
    since, staked = g(me, 'calculate_next_harvest_from.slot'), g(me, 'staked.amount')
    a, b = z3.Int('age!a'), z3.Int('age!b')
    pre = [tip < RING, since <= until.f[0], z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < RING), in_order(started(age(tip, ring, a)), started(age(tip, ring, b)))))]
    pre += [Or(eqt(mints[i], 0), Not(eqt(mints[i], mints[j]))) for i in range(NM) for j in range(i)]
    pre += [Or(eqt(recs[i][0], 0), Not(eqt(recs[i][0], recs[j][0]))) for i in range(NM) for j in range(i)]
    pre += [Implies(eqt(m, 0), eqt(t, 0)) for m, t in recs]
    c = Call([VRef(ex.new_cell(st, me)), VRef(ex.new_cell(st, fm)), until], pre, W=W, me=me, fm=fm, until=until.f[0], since=since, staked=staked, mints=mints, recs=recs,
             tip=tip, ring=ring, acc=z3.Function('accrual_of', I, I))
    W.lib.accrual = c
    return c


def method_stubs(W):
    def accrue(ex, st, vals):
        c, lib, T = W.lib.accrual, W.lib, W.T
        fh, snaps, rec, period, staked = vals
        who = 'the loop is asked for'

        def need(n, f):
            ex.obls.append(('%s %s' % (who, n), list(st.pc), f))
        need('the slots since the last accrual', eqt(period.f[0].f[0], c.since))
        need('the slots up to the one named', eqt(period.f[1].f[0], c.until))
        need("the farmer's stake", eqt(staked.f[0], c.staked))
        F, R = ex.load(st, fh), ex.load(st, rec)
        hs = [W.types.get(c.fm, 'harvests[%d]' % j) for j in range(NM)]
        for i, (g, k, r) in enumerate(F.i):
            h = lib.deref(ex, st, r)
            need("the farm's mints with their schedules (%d)" % i, Implies(g, Or(*[And(eqt(k, c.mints[j]), same_value(h, hs[j])) for j in range(NM)])))
        for j in range(NM):
            need("all of the farm's mints (%d)" % j, Or(*[And(g, eqt(k, c.mints[j])) for g, k, _ in F.i]))
        for i, (g, k, _) in enumerate(R.i):
            need('records of these mints only (%d)' % i, Implies(g, Or(*[And(a, eqt(b, k)) for a, b, _ in F.i])))
        for i, (g, k, _) in enumerate(F.i):
            need('a record of each mint (%d)' % i, Implies(g, Or(*[And(a, eqt(b, k)) for a, b, _ in R.i])))
        # the snapshots
        if not (isinstance(snaps, VIter) and snaps.k == 'ringf' and not isinstance(snaps.a[0], VIter) and snaps.a[1][0] == 'skip_while'):
            raise Unsupported('snapshots of another shape')
        base, clo = snaps.a[0], snaps.a[1][1]
        n = zi(base.n)
        # what the contract of get_window_snapshots_eligible_to_harvest says (F05) is proved again of the sequence at hand
        k = T.fresh('anywhere', 0, RING - 1)
        item = base.elem(ex, st, k)
        T.inst += [k, k - 1, n - 1]
        at = started(age(c.tip, c.ring, k))
        need('snapshots, newest first', Implies(k < n, same_value(ex.load(st, item), age(c.tip, c.ring, k))))
        need('at least the newest, at most all snapshots', And(n >= 1, n <= RING))
        need('all but the oldest of them after the last accrual', Implies(k < n - 1, at > c.since))
        need('the oldest of them not, or all', Or(n >= RING, started(age(c.tip, c.ring, n - 1)) <= c.since))
        s2 = st.fork()
        s2.assume(k < n)
        skip = lib.under(ex, s2, True, clo, [VRef(ex.new_cell(s2, item))])
        ex.obls.append((who + ' exactly those that did not start later', list(s2.pc), eqt(skip, at > c.until)))
        # a window and the one before it in the sequence handed over; the first is the newest that started by then
        prev = started(age(c.tip, c.ring, k - 1))
        need('windows in order', Implies(And(k >= 1, k < n), And(prev > c.since, at < prev)))
        ok = T.freshb('loop_ok')
        out = []
        for g, m, x in R.i:
            t = T.fresh('credited', 0, U64M)
            st.assume(z3.Implies(ok, zi(t) == zi(x.f[0]) + z3.If(zb(eqt(m, 0)), z3.IntVal(0), c.acc(zi(m)))))
            out.append((g, m, VS('TokenAmount', [t])))
        ex.store(st, rec, VMap(out))
        return [(st, result(ok, UNIT))]
    return {FREE: accrue}


def post_method(c, ex, st, v):
    if not isinstance(v, VMap):
        v = ex.load(st, v)

    def had(m):
        t = 0
        for k, x in c.recs:
            t = t + ite(eqt(k, m), x, 0)
        return t
    out = []
    for j, m in enumerate(c.mints):
        want = ite(eqt(m, 0), 0, had(m) + c.acc(zi(m)))
        out.append(('a mint of the farm is recorded with what it had and what it accrued (%d)' % j, Or(*[And(g, eqt(k, m), eqt(x.f[0], want)) for g, k, x in v.i])))
    for i, (g, k, x) in enumerate(v.i):
        out.append(('only mints of the farm are recorded (%d)' % i, Implies(g, Or(*[eqt(k, m) for m in c.mints]))))
        out.append(('each once (%d)' % i, And(*[Implies(And(g, v.i[j][0]), Not(eqt(k, v.i[j][1]))) for j in range(i)])))
    return out


METHOD_FN = [Fn(METHOD, build_method, post_method, internal=True, contracts=method_stubs, name='Farmer::eligible_harvest_until', budget=400)]
