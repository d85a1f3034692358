"""Symbolic values, merging, and the solver interface."""
import z3, itertools, time, os, re
from mir import Unsupported

z3.set_param('memory_max_size', 6000)
U64 = 1 << 64


class VS:            # struct, tuple, unit, opaque
    __slots__ = ('n', 'f')

    def __init__(s, n, f):
        s.n, s.f = n, list(f)

    def __repr__(s):
        return '%s%r' % (s.n, s.f)


class VE:            # enum: discriminant + payload per variant index
    __slots__ = ('n', 'd', 'p')

    def __init__(s, n, d, p):
        s.n, s.d, s.p = n, d, p

    def __repr__(s):
        return '%s#%r%r' % (s.n, s.d, s.p)


class VA:            # array of known length
    __slots__ = ('e',)

    def __init__(s, e):
        s.e = list(e)


class VBig:          # long array as one z3 array per leaf
    __slots__ = ('n', 'mk', 'leaves', 'arrs')

    def __init__(s, n, mk, leaves, arrs):
        s.n, s.mk, s.leaves, s.arrs = n, mk, leaves, arrs

    def get(s, i):
        if not isinstance(i, int) and not z3.is_expr(i):
            raise Unsupported('index')
        return s.mk([z3.Select(a, i) for a in s.arrs])

    def set(s, i, v):
        ls = s.leaves(v)
        return VBig(s.n, s.mk, s.leaves, [z3.Store(a, i, l) for a, l in zip(s.arrs, ls)])


class VLimbs:        # [u64; 3] seen as one 192 bit integer
    __slots__ = ('raw',)

    def __init__(s, raw):
        s.raw = raw


class VRef:
    __slots__ = ('c', 'p')

    def __init__(s, c, p=()):
        s.c, s.p = c, tuple(p)

    def __repr__(s):
        return '&%r%r' % (s.c, s.p)


class VSel:          # guarded choice of references; guards are exclusive
    __slots__ = ('alts',)

    def __init__(s, alts):
        s.alts = alts


class VSlice:        # base reference to an array, start, length
    __slots__ = ('b', 's', 'n')

    def __init__(s, b, st, n):
        s.b, s.s, s.n = b, st, n


class VVec:          # guarded list [(guard, value)]
    __slots__ = ('i',)

    def __init__(s, i):
        s.i = list(i)


class VMap:          # guarded association list [(guard, key, value)]; alive keys are distinct
    __slots__ = ('i',)

    def __init__(s, i):
        s.i = list(i)


class VClo:
    __slots__ = ('loc', 'caps')

    def __init__(s, loc, caps):
        s.loc, s.caps = loc, caps


class VFn:
    __slots__ = ('path',)

    def __init__(s, path):
        s.path = path


class VOp:           # opaque token (strings, errors, ...)
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __repr__(s):
        return '?%s' % (s.t,)


class VBytes:        # byte slice as the list of its pieces (terms)
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = list(t)


class VIter:
    __slots__ = ('k', 'a')

    def __init__(s, k, *a):
        s.k, s.a = k, a


UNIT = VS('', [])


def isz(x):
    return isinstance(x, z3.ExprRef)


def eqt(a, b):
    """equality of scalar terms, simplified when concrete"""
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return zb(a) == zb(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    if isinstance(b, int) and isz(a):
        r = eq_ite(a, b, 4)
        if r is not None:
            return r
    elif isinstance(a, int) and isz(b):
        r = eq_ite(b, a, 4)
        if r is not None:
            return r
    if DISTINCT and isz(a) and isz(b):
        x, y = DISTINCT.get(a.get_id()), DISTINCT.get(b.get_id())
        nx, ny = x is None, y is None
        x, y = x or DISTINCT.get(a.decl().name()), y or DISTINCT.get(b.decl().name())
        if x is not None and y is not None and x[0] == y[0] and not (nx and ny and not (a.num_args() == 1 and b.num_args() == 1 and a.arg(0).eq(b.arg(0)))):
            return False
    return a == b


# fields known (by a hypothesis of the contract at hand) to be pairwise different within one account: name -> family
DISTINCT = {}


def eq_ite(a, k, depth):
    """a == k for a tree of conditionals over constants"""
    if z3.is_int_value(a):
        return a.as_long() == k
    if depth and z3.is_app_of(a, z3.Z3_OP_ITE):
        l = eq_ite(a.arg(1), k, depth - 1)
        if l is None:
            return None
        r = eq_ite(a.arg(2), k, depth - 1)
        if r is None:
            return None
        c = a.arg(0)
        return Or(And(c, l), And(Not(c), r)) if not (isinstance(l, bool) and isinstance(r, bool)) else (
            l if l == r else (c if l else Not(c)))
    return None


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isz(x):
            if z3.is_true(x):
                continue
            if z3.is_false(x):
                return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if isz(x):
            if z3.is_false(x):
                continue
            if z3.is_true(x):
                return True
        if any(x is o or (isz(o) and x.eq(o)) for o in out[-3:]):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    if isinstance(a, (int,)) and isinstance(b, (int,)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b:
            return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))


class NoMerge(Exception):
    pass


def isscalar(x):
    return isinstance(x, (int, bool)) or isz(x)


def vmerge(c, a, b):
    """value that is a if c else b"""
    if a is b:
        return a
    if isscalar(a) and isscalar(b):
        return ite(c, a, b)
    t = type(a)
    if a is None or b is None:
        return None          # moved-out / uninitialised on one side: dead
    if t is not type(b):
        if isinstance(a, (VRef, VSel)) and isinstance(b, (VRef, VSel)):
            pass
        elif isinstance(a, VOp) or isinstance(b, VOp):
            return VOp('merged')
        else:
            raise NoMerge('%s/%s' % (t.__name__, type(b).__name__))
    if t is VS:
        if len(a.f) != len(b.f):
            raise NoMerge('struct')
        return VS(a.n, [vmerge(c, x, y) for x, y in zip(a.f, b.f)])
    if t is VE:
        p = {}
        for k in set(a.p) | set(b.p):
            if k not in a.p:
                p[k] = b.p[k]
            elif k not in b.p:
                p[k] = a.p[k]
            else:
                p[k] = [vmerge(c, x, y) for x, y in zip(a.p[k], b.p[k])]
        return VE(a.n, ite(c, a.d, b.d), p)
    if t is VA:
        if len(a.e) != len(b.e):
            raise NoMerge('array')
        return VA([vmerge(c, x, y) for x, y in zip(a.e, b.e)])
    if t is VBig:
        return VBig(a.n, a.mk, a.leaves, [x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.arrs, b.arrs)])
    if t is VLimbs:
        return VLimbs(ite(c, a.raw, b.raw))
    if isinstance(a, (VRef, VSel)):
        if isinstance(a, VRef) and isinstance(b, VRef) and a.c == b.c and samepath(a.p, b.p):
            return a
        if isinstance(a, VRef) and isinstance(b, VRef) and a.c == b.c and len(a.p) == len(b.p):
            # same shape, one symbolic/concrete index differs
            diff = [i for i in range(len(a.p)) if not samepath((a.p[i],), (b.p[i],))]
            if len(diff) == 1:
                x, y = a.p[diff[0]], b.p[diff[0]]
                if x[0] == y[0] == 'i' and (isz(x[1]) or isz(y[1])):
                    i = diff[0]
                    return VRef(a.c, a.p[:i] + (('i', ite(c, x[1], y[1])),) + a.p[i + 1:])
        al = [(And(c, g), r) for g, r in alts_of(a)] + [(And(Not(c), g), r) for g, r in alts_of(b)]
        return VSel(norm_alts(al))
    if t is VSlice:
        return VSlice(vmerge(c, a.b, b.b), ite(c, a.s, b.s), ite(c, a.n, b.n))
    if t is VVec:
        if len(a.i) == len(b.i):
            return VVec([(ite(c, x[0], y[0]), vmerge(c, x[1], y[1])) for x, y in zip(a.i, b.i)])
        # common prefix is merged; the longer tail is guarded
        n = min(len(a.i), len(b.i))
        out = [(ite(c, x[0], y[0]), vmerge(c, x[1], y[1])) for x, y in zip(a.i[:n], b.i[:n])]
        out += [(And(c, g), v) for g, v in a.i[n:]] + [(And(Not(c), g), v) for g, v in b.i[n:]]
        return VVec(out)
    if t is VMap:
        n = min(len(a.i), len(b.i))
        out = []
        for x, y in zip(a.i[:n], b.i[:n]):
            out.append((ite(c, x[0], y[0]), ite(c, x[1], y[1]) if isscalar(x[1]) else vmerge(c, x[1], y[1]), vmerge(c, x[2], y[2])))
        out += [(And(c, g), k, v) for g, k, v in a.i[n:]] + [(And(Not(c), g), k, v) for g, k, v in b.i[n:]]
        return VMap(out)
    if t is VOp:
        return a if a.t == b.t else VOp('merged')
    if t is VBytes:
        if len(a.t) == len(b.t):
            return VBytes([ite(c, x, y) for x, y in zip(a.t, b.t)])
        raise NoMerge('bytes')
    if t is VClo:
        if a.loc == b.loc:
            return VClo(a.loc, [vmerge(c, x, y) for x, y in zip(a.caps, b.caps)])
        raise NoMerge('closure')
    if t is VFn:
        if a.path == b.path:
            return a
        raise NoMerge('fn')
    if t is VIter:
        if a.k == b.k and len(a.a) == len(b.a):
            return VIter(a.k, *[iter_merge(c, x, y) for x, y in zip(a.a, b.a)])
        raise NoMerge('iter')
    raise NoMerge(t.__name__)


def iter_merge(c, x, y):
    if isinstance(x, list) and isinstance(y, list):
        v = vmerge(c, VVec(x), VVec(y))
        return v.i
    if x is y:
        return x
    if type(x) is int and type(y) is int:
        if x == y:
            return x
        raise NoMerge('iter pos')
    return vmerge(c, x, y)


def samepath(p, q):
    if p is q:
        return True
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if len(x) != len(y):
            return False
        for u, v in zip(x, y):
            if u is v:
                continue
            if isz(u) or isz(v):
                if not (isz(u) and isz(v) and u.eq(v)):
                    return False
            elif u != v:
                return False
    return True


def alts_of(r):
    return r.alts if isinstance(r, VSel) else [(True, r)]


def norm_alts(al):
    out = []
    for g, r in al:
        if g is False:
            continue
        for i, (h, q) in enumerate(out):
            if isinstance(r, VRef) and isinstance(q, VRef) and q.c == r.c and samepath(q.p, r.p):
                out[i] = (Or(h, g), q)
                break
        else:
            out.append((g, r))
    return out


# ------------------------------------------------------------------ terms with facts
class Terms:
    """Fresh terms with the facts that define them.  A fact is used in a query exactly
    when its term occurs there."""

    def __init__(s):
        s.n = itertools.count()
        s.facts = {}       # term ast id -> [facts]
        s.keep = []
        s.cache = {}
        s.names, s.defs, s.quots, s.heavy, s.inst = {}, set(), {}, set(), []

    def fresh(s, name, lo=None, hi=None, sort=None):
        v = z3.Const('%s!%d' % (name, next(s.n)), sort or z3.IntSort())
        s.bound(v, lo, hi)
        return v

    def freshb(s, name):
        return z3.Bool('%s!%d' % (name, next(s.n)))

    def bound(s, v, lo, hi):
        if lo is not None:
            s.fact(v, v >= lo)
        if hi is not None:
            s.fact(v, v <= hi)

    def fact(s, v, f):
        s.keep.append(v)
        s.facts.setdefault(v.get_id(), [])
        l = s.facts[v.get_id()]
        if not any(f.eq(x) for x in l):
            l.append(f)

    def leaves(s, e):
        """ids of all subterms of e that carry facts"""
        r = s.cache.get(e.get_id())
        if r is not None:
            return r[1]
        seen, out, st = set(), set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = s.cache.get(i)
            if c is not None:
                out |= c[1]
                continue
            if i in s.facts:
                out.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
            else:
                st.extend(x.children())
        s.cache[e.get_id()] = (e, out)
        return out

    def name(s, t, hint='let'):
        """a fresh unknown defined to be this term; a proof may leave the definition out"""
        if isinstance(t, int) or not isz(t) or not z3.is_int(t) or t.num_args() == 0 or t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
            return t
        k = ('name', t.get_id())
        if k not in s.names:
            x = s.fresh(hint)
            if s.nonneg(t):
                s.fact(x, x >= 0)
            for b in s.minimum(t):
                s.fact(x, x <= b)
            f = x == t
            s.fact(x, f)
            s.defs.add(f.get_id())
            if len(s.closure([t], s.defs)) > 14:
                s.heavy.add(f.get_id())
            s.keep += [t, f]
            s.names[k] = x
        return s.names[k]

    def minimum(s, t):
        """simple numbers this term is the minimum with"""
        if not z3.is_app_of(t, z3.Z3_OP_ITE):
            return []
        c, a, b = t.children()
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
            a, b = b, a
        if not (z3.is_le(c) or z3.is_lt(c) or z3.is_gt(c) or z3.is_ge(c)):
            return []
        x, y = c.children()
        if z3.is_gt(c) or z3.is_ge(c):
            x, y = y, x
        # c: x <= y (or x < y)
        if a.eq(x) and b.eq(y):
            return [z for z in (a, b) if z.num_args() == 0]
        return []

    def order(s, x):
        m = re.match(r'.*!(\d+)$', x.decl().name())
        return int(m.group(1)) if m else 0

    def nonneg(s, t, d=12):
        if z3.is_int_value(t):
            return t.as_long() >= 0
        if d == 0:
            return False
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return s.nonneg(t.arg(1), d - 1) and s.nonneg(t.arg(2), d - 1)
        if z3.is_add(t) or z3.is_mul(t):
            return all(s.nonneg(x, d - 1) for x in t.children())
        for f in s.facts.get(t.get_id(), ()):
            if z3.is_ge(f) and f.arg(0).eq(t) and z3.is_int_value(f.arg(1)) and f.arg(1).as_long() >= 0:
                return True
        return False

    def closure(s, fs, skip=()):
        done, todo, out = set(), set(), []
        for f in fs:
            if isz(f):
                todo |= s.leaves(f)
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            for f in s.facts[i]:
                if f.get_id() in skip:
                    continue
                out.append(f)
                todo |= s.leaves(f) - done
        return out


class Stats:
    def __init__(s):
        s.queries = 0
        s.time = 0.0
        s.by = {}


STATS = Stats()


def instances(fs, terms):
    """universally quantified formulas replaced by their instances: a weaker set of hypotheses without quantifiers"""
    memo, some = {}, [False]

    def go(f, pol):
        k = (f.get_id(), pol)
        if k not in memo:
            memo[k] = (f, go1(f, pol))
        return memo[k][1]

    def go1(f, pol):
        if z3.is_quantifier(f):
            if not (f.is_forall() and pol) or f.num_vars() > 2:
                return z3.BoolVal(True) if pol else None
            some[0] = True
            out, n = [], f.num_vars()
            for a in terms:
                for b in (terms if n == 2 else [None]):
                    out.append(z3.substitute_vars(f.body(), *([b, a] if n == 2 else [a])))
            return z3.And(*out) if out else z3.BoolVal(True)
        if not z3.is_bool(f) or not z3.is_app(f):
            return f
        if z3.is_and(f) or z3.is_or(f):
            ch = [go(c, pol) for c in f.children()]
            if any(c is None for c in ch):
                return None
            return z3.And(*ch) if z3.is_and(f) else z3.Or(*ch)
        if z3.is_implies(f):
            a, b = go(f.arg(0), not pol), go(f.arg(1), pol)
            return None if a is None or b is None else z3.Implies(a, b)
        if z3.is_not(f):
            a = go(f.arg(0), not pol)
            return None if a is None else z3.Not(a)
        return f
    out = []
    for f in fs:
        g = go(zb(f), True)
        out.append(z3.BoolVal(True) if g is None else g)
    return out if some[0] else None


def check(T, fs, timeout=2000, want_model=False, tactic=None, seed=0):
    """'sat' / 'unsat' / 'unknown' (and model) for the conjunction with facts"""
    fs = [zb(f) for f in fs if f is not True]
    t0 = time.time()
    s = z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set('timeout', timeout)
    if seed:
        s.set('random_seed', seed)
    for f in fs:
        s.add(f)
    for f in T.closure(fs):
        s.add(f)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS.queries += 1
    STATS.time += time.time() - t0
    if want_model:
        return r, (s.model() if r == 'sat' else None)
    return r
