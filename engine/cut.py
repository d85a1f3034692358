"""Loops cut by an invariant.  At the head of a loop under contract the invariant is an obligation for the states that enter, everything
the loop may change is forgotten, the invariant is assumed, one pass through the body is executed, and the invariant is an obligation again
for the states that come back.  Whatever a pass changes without being named by the contract makes the loop unsupported."""
from val import *
from mir import Unsupported


def places(x, out):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
        out.add(x[0])
        for e in x[1]:
            if isinstance(e, tuple) and e[0] in ('i', 'idx', 'index'):
                for y in e[1:]:
                    if isinstance(y, int):
                        out.add(y)
        return
    if isinstance(x, (tuple, list)):
        for y in x:
            places(y, out)


def usedef(stmts):
    """locals read before they are written, locals written as a whole"""
    use, df = set(), set()
    for t in stmts:
        if t[0] == 'assign':
            r = set()
            places(t[2], r)
            if t[1][1]:
                places(t[1], r)
            use |= r - df
            if not t[1][1]:
                df.add(t[1][0])
        elif t[0] == 'call':
            r = set()
            places(t[3], r)
            if t[1][1]:
                places(t[1], r)
            use |= r - df
            if not t[1][1]:
                df.add(t[1][0])
        elif t[0] == 'drop':
            pass
        else:
            r = set()
            places(t, r)
            use |= r - df
    return use, df


def succs_of(body, b):
    t = body.blocks[b][-1]
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'switch':
        return [to for _, to in t[2]] + ([t[3]] if t[3] is not None else [])
    if t[0] == 'assert':
        return [t[3]]
    if t[0] == 'call':
        return [t[4]] if t[4] is not None else []
    if t[0] == 'drop':
        return [t[2]]
    return []


LIVE = {}


def live(body, h):
    """locals whose value at the start of a block is still needed"""
    if id(body) not in LIVE:
        ud = {b: usedef(body.blocks[b]) for b in body.rpo}
        inn = {b: set() for b in body.rpo}
        again = True
        while again:
            again = False
            for b in reversed(body.rpo):
                o = set()
                for s in succs_of(body, b):
                    if s in inn:
                        o |= inn[s]
                n = ud[b][0] | (o - ud[b][1])
                if n != inn[b]:
                    inn[b], again = n, True
        LIVE[id(body)] = (body, inn)
    return LIVE[id(body)][1][h]


def changed(body, h):
    """locals the loop may write: assigned, or borrowed mutably"""
    out = set()
    for b in body.src[h]:
        for t in body.blocks[b]:
            if t[0] in ('assign', 'call'):
                out.add(t[1][0])
            if t[0] == 'assign' and t[2][0] in ('ref', 'addr') and 'mut' in str(t[2][2]):
                r = set()
                places(t[2], r)
                out |= r
    return out


class Ghost:
    """what is known of one arbitrary pass through a loop"""

    def __init__(s, **kw):
        s.__dict__.update(kw)


class Cut:
    """contract of a loop; subclasses say what it is about"""

    def __init__(s, name):
        s.name = name

    def carried(s, body, h, st, fr, ty):
        """the variables of this type that one pass hands to the next"""
        ls = [l for l in sorted(changed(body, h) & live(body, h)) if re_ty(body.locals.get(l, ''), ty) and (fr, l) in st.cells]
        return [(fr, l) for l in ls]

    def one(s, body, h, st, fr, ty):
        ls = s.carried(body, h, st, fr, ty)
        if len(ls) != 1:
            raise Unsupported('%s: %d variables of type %s' % (s.name, len(ls), ty))
        return ls[0]

    def arrive(s, ex, body, fr, h, st):
        key = ('cut', fr, h)
        g = st.w.get(key)
        if g is None or st.iters.get(h, 0) == 0:
            g = s.enter(ex, body, fr, h, st)            # obligations, forget, assume; returns a Ghost with .cells = what was forgotten
            keep = {c for c in g.cells}
            lv = live(body, h)
            for l in changed(body, h):
                if (fr, l) in st.cells and (fr, l) not in keep:
                    if l in lv:
                        raise Unsupported('%s: a pass also changes local %d' % (s.name, l))
                    del st.cells[(fr, l)]
            g.snap = dict(st.cells)
            g.world = {k: v for k, v in st.w.items()}
            g.base = len(st.pc)
            st.w = dict(st.w)
            st.w[key] = g
            return st
        for k, v in g.snap.items():
            if k in g.cells or k == '$ret':
                continue
            if k[0] == fr and k[1] not in live(body, h):
                continue
            w = st.cells.get(k)
            if w is not v and not same(v, w):
                raise Unsupported('%s: a pass changes %r' % (s.name, k))
        for k, v in g.world.items():
            if st.w.get(k) is not v:
                raise Unsupported('%s: a pass has effects' % s.name)
        s.back(ex, body, fr, h, st, g)
        return None

    def leave(s, ex, body, fr, h, st, to):
        key = ('cut', fr, h)
        g = st.w.get(key)
        if g is None:
            return
        if all(x in body.loops[to] for x in body.loops[h] if x != h):        # not an early return from the loops around
            s.exit(ex, body, fr, h, st, g)
        st.w = dict(st.w)
        del st.w[key]

    def exit(s, ex, body, fr, h, st, g):
        pass

    def oblige(s, ex, st, name, f):
        ex.obls.append(('%s: %s' % (s.name, name), list(st.pc), f))


def re_ty(have, want):
    import re
    return re.fullmatch(want, have) is not None


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isz(a):
        return a.eq(b)
    if isinstance(a, VS):
        return a.n == b.n and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VE):
        return same(a.d, b.d) and a.p.keys() == b.p.keys() and all(len(a.p[k]) == len(b.p[k]) and all(same(x, y) for x, y in zip(a.p[k], b.p[k])) for k in a.p)
    if isinstance(a, VA):
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, VVec):
        return len(a.i) == len(b.i) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.i, b.i))
    if isinstance(a, VMap):
        return len(a.i) == len(b.i) and all(all(same(p, q) for p, q in zip(x, y)) for x, y in zip(a.i, b.i))
    if isinstance(a, VRef):
        return repr(a) == repr(b)
    if isinstance(a, VLimbs):
        return same(a.raw, b.raw)
    if isinstance(a, VBig):
        return all(x.eq(y) for x, y in zip(a.arrs, b.arrs))
    if isinstance(a, (int, bool, str, tuple)):
        return a == b
    return False
