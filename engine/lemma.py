"""Products: an obligation with products of unknowns is decided by replacing every product by a fresh unknown and adding instances of
   a <= b, c >= 0  =>  c*a <= c*b      and      a < b, c >= 0  =>  c*a + c <= c*b      and      a, b >= 0  =>  a*b >= 0,
which are valid for all integers.  Unsatisfiability of the result is unsatisfiability of the original."""
import z3, itertools
from val import zb, zi, isz, STATS
import time, os


class Abs:
    """polynomial normal form over non-arithmetic terms; every product becomes an unknown"""

    def __init__(s):
        s.cache = {}
        s.mono = {}         # tuple of factor ids -> fresh unknown
        s.fac = {}          # factor id -> rewritten factor (not itself a sum or product)
        s.inv = {}          # id of an unknown -> tuple of factor ids
        s.pol = {}          # id of a rewritten term -> polynomial
        s.n = 0
        s.keep = []

    def flat(s, t):
        """constant and factors of a product"""
        c, fs = 1, []
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_mul(x):
                todo += x.children()
            elif z3.is_int_value(x):
                c *= x.as_long()
            else:
                fs.append(x)
        return c, fs

    def var(s, k):
        if not k:
            return z3.IntVal(1)
        if len(k) == 1:
            return s.fac[k[0]]
        if k not in s.mono:
            s.n += 1
            v = z3.Int('prod!%d' % s.n)
            s.mono[k] = v
            s.inv[v.get_id()] = k
        return s.mono[k]

    def term(s, p):
        """polynomial -> linear term over unknowns"""
        l = [c if not k else (s.var(k) if c == 1 else c * s.var(k)) for k, c in sorted(p.items()) if c]
        if not l:
            return z3.IntVal(0)
        r = zi(l[0]) if len(l) == 1 else z3.Sum([zi(x) for x in l])
        s.pol[r.get_id()] = p
        s.keep.append(r)
        return r

    def poly(s, t):
        """polynomial of a rewritten term"""
        i = t.get_id()
        if i in s.pol:
            return s.pol[i]
        if z3.is_int_value(t):
            return {(): t.as_long()} if t.as_long() else {}
        if i in s.inv:
            return {s.inv[i]: 1}
        s.fac[i] = t
        return {(i,): 1}

    def add(s, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + k * c
        return {m: c for m, c in r.items() if c}

    def mul(s, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c}

    def rw(s, t):
        i = t.get_id()
        if i in s.cache:
            return s.cache[i][1]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in s.cache:
                stack.pop()
                continue
            ch = x.children() if z3.is_app(x) else []
            todo = [c for c in ch if c.get_id() not in s.cache]
            if todo:
                stack += todo
                continue
            stack.pop()
            new = [s.cache[c.get_id()][1] for c in ch]
            if z3.is_int(x) and (z3.is_mul(x) or z3.is_add(x) or z3.is_sub(x) or x.decl().kind() == z3.Z3_OP_UMINUS):
                ps = [s.poly(y) for y in new]
                if z3.is_mul(x):
                    size = 1
                    for p in ps:
                        size *= max(1, len(p))
                    r = {(): 1}
                    if size <= 64:
                        for p in ps:
                            r = s.mul(r, p)
                    else:
                        for p, y in zip(ps, new):
                            if len(p) > 1:
                                s.fac[y.get_id()] = y
                                p = {(y.get_id(),): 1}
                            r = s.mul(r, p)
                elif z3.is_add(x):
                    r = {}
                    for p in ps:
                        r = s.add(r, p)
                elif z3.is_sub(x):
                    r = ps[0]
                    for p in ps[1:]:
                        r = s.add(r, p, -1)
                else:
                    r = s.add({}, ps[0], -1)
                r = s.term(r)
            elif z3.is_select(x) and z3.is_store(new[0]) and new[0].arg(1).eq(new[1]):
                r = new[0].arg(2)
            elif any(a.get_id() != b.get_id() for a, b in zip(ch, new)):
                r = z3.And(*new) if z3.is_and(x) else z3.Or(*new) if z3.is_or(x) else x.decl()(*new)
            else:
                r = x
            s.cache[x.get_id()] = (x, r)
            s.keep.append(r)
        return s.cache[i][1]

    def times(s, c, t):
        """rewritten product of two rewritten terms"""
        return s.term(s.mul(s.poly(c), s.poly(t)))

    def scaled(s, every, goal, limit=400, rounds=3):
        """c * (q*b) <= c*a  and  c*a + c <= c*(q*b + b) for quotients q = floor(a/b) and c >= 0, where c*q occurs in the goal
        (or in a fact added so), or c is another divisor of which a part occurs with q"""
        ms = {}
        todo = [s.rw(goal)]
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in s.inv:
                ms[s.inv[x.get_id()]] = 1
            todo += x.children()
        divs, big = [], {}
        for f in every:
            if not (z3.is_implies(f) and z3.is_and(f.arg(1)) and f.arg(1).num_args() == 2 and z3.is_le(f.arg(1).arg(0))):
                continue
            le, lt = f.arg(1).arg(0), f.arg(1).arg(1)
            if not z3.is_lt(lt) or lt.arg(0).get_id() != le.arg(1).get_id() or not z3.is_gt(f.arg(0)):
                continue
            b = s.rw(f.arg(0).arg(0))
            q = le.arg(0)
            while z3.is_mul(q):
                q = q.arg(0)
            divs.append((s.rw(f.arg(0)), s.rw(le.arg(0)), s.rw(le.arg(1)), s.rw(lt.arg(1)), b, q.get_id()))
            if len(s.poly(b)) > 1 or any(len(k) > 1 for k in s.poly(b)):
                big[b.get_id()] = b
        out, done = [], set()
        new = dict(ms)
        for rd in range(rounds):
            cur, new = new, {}
            for g, qb, a, qbb, b, q in divs:
                cs = {}
                for k in cur:
                    if q in k and len(k) > 1:
                        r = list(k)
                        r.remove(q)
                        r = tuple(r)
                        cs[('m',) + r] = (s.var(r), [s.fac[i] >= 0 for i in r])
                        for i, t in big.items():
                            if i != b.get_id() and r in s.poly(t):
                                cs[('p', i)] = (t, [t >= 0])
                for key, (c, pos) in cs.items():
                    if (q, key) in done or len(out) >= limit or c.get_id() == b.get_id():
                        continue
                    done.add((q, key))
                    x, y, z = s.times(c, qb), s.times(c, a), s.times(c, qbb)
                    out.append(z3.Implies(z3.And([g] + pos), z3.And(x <= y, y + c <= z)))
                    for t in (x, y, z):
                        for m in s.poly(t):
                            if len(m) > 1 and m not in ms:
                                ms[m] = new[m] = 1
        return out

    def instances(s, limit=4000, signs=False):
        ms = [(k, v) for k, v in s.mono.items()]
        out = []
        for k, v in ms:
            fs = [s.fac[i] for i in k]
            out.append(z3.Implies(z3.And([f >= 0 for f in fs]), v >= 0))
            out.append(z3.Implies(z3.Or([f == 0 for f in fs]), v == 0))
            if signs:
                continue
            # against one of its parts: the rest is at least one
            for j in range(len(k)):
                rest = [s.fac[i] for i in k[:j] + k[j + 1:]]
                x = s.fac[k[j]]
                c = s.lookup(rest)
                if c is not None:
                    pos = z3.And([f >= 0 for f in rest])
                    out.append(z3.Implies(z3.And(pos, x >= 1), v >= c))
                    out.append(z3.Implies(z3.And(pos, x <= 1), v <= c))
        if signs:
            return out
        for (k1, v1), (k2, v2) in itertools.combinations(ms, 2):
            a, b = list(k1), list(k2)
            com = []
            for i in list(a):
                if i in b:
                    a.remove(i)
                    b.remove(i)
                    com.append(i)
            if not com or not a or not b:
                continue
            if len(com) > 1 and len(a) == 1 and len(b) == 1:
                pass
            c = s.lookup([s.fac[i] for i in com])
            x = s.lookup([s.fac[i] for i in a])
            y = s.lookup([s.fac[i] for i in b])
            if c is None or x is None or y is None:
                continue
            g = z3.And([s.fac[i] >= 0 for i in com])
            out += [z3.Implies(z3.And(g, x <= y), v1 <= v2), z3.Implies(z3.And(g, y <= x), v2 <= v1),
                    z3.Implies(z3.And(g, x < y), v1 + c <= v2), z3.Implies(z3.And(g, y < x), v2 + c <= v1)]
            if len(out) > limit:
                break
        return out

    def violated(s, m, limit=60, value=None):
        """valid facts about products that a model of the abstraction breaks"""
        vals = {}

        def ev(t):
            i = t.get_id()
            if i not in vals:
                if value:
                    vals[i] = value(m, t)
                else:
                    x = m.eval(t, model_completion=True)
                    vals[i] = x.as_long() if z3.is_int_value(x) else None
            return vals[i]
        bad, out, out2 = [], [], []
        for k, v in list(s.mono.items()):
            fs = [s.fac[i] for i in k]
            xs = [ev(f) for f in fs]
            vv = ev(v)
            if vv is None or any(x is None for x in xs):
                return None
            pr = 1
            for x in xs:
                pr *= x
            if vv == pr:
                continue
            bad.append(k)
            if all(x >= 0 for x in xs) and vv < 0:
                out.append(z3.Implies(z3.And([f >= 0 for f in fs]), v >= 0))
            elif any(x == 0 for x in xs):
                out.append(z3.Implies(z3.Or([f == 0 for f in fs]), v == 0))
            for j in range(len(k)):
                rest = s.lookup([s.fac[i] for i in k[:j] + k[j + 1:]])
                if rest is None:
                    continue
                x, c, xv, cv = s.fac[k[j]], rest, xs[j], ev(rest)
                if cv is None:
                    return None
                # tangent near the model's point
                xv, cv = int(xv // 1), int(cv // 1)
                if vv < xv * cv:
                    out2 += [z3.Implies(z3.And(x >= xv, c >= cv), v >= cv * x + xv * c - xv * cv), z3.Implies(z3.And(x <= xv, c <= cv), v >= cv * x + xv * c - xv * cv)]
                elif vv > xv * cv:
                    out2 += [z3.Implies(z3.And(x >= xv, c <= cv), v <= cv * x + xv * c - xv * cv), z3.Implies(z3.And(x <= xv, c >= cv), v <= cv * x + xv * c - xv * cv)]
        if not bad:
            return []
        badset = set(bad)
        ms = list(s.mono.items())
        byf = {}
        for k, v in ms:
            for i in set(k):
                byf.setdefault(i, []).append((k, v))
        done = set()
        for k1 in bad:
            v1 = s.mono[k1]
            for i in set(k1):
                for k2, v2 in byf[i]:
                    if k2 == k1 or (k1, k2) in done or (k2, k1) in done:
                        continue
                    done.add((k1, k2))
                    a, b, com = list(k1), list(k2), []
                    for q in list(a):
                        if q in b:
                            a.remove(q)
                            b.remove(q)
                            com.append(q)
                    if not a or not b:
                        continue
                    cfs = [s.fac[q] for q in com]
                    c, x, y = s.lookup(cfs), s.lookup([s.fac[q] for q in a]), s.lookup([s.fac[q] for q in b])
                    if c is None or x is None or y is None:
                        continue
                    cs, xv, yv, cv, w1, w2 = [ev(q) for q in cfs], ev(x), ev(y), ev(c), ev(v1), ev(v2)
                    if any(q is None or q < 0 for q in cs) or None in (xv, yv, cv, w1, w2):
                        continue
                    g = z3.And([q >= 0 for q in cfs])
                    if xv <= yv and w1 > w2:
                        out.append(z3.Implies(z3.And(g, x <= y), v1 <= v2))
                    elif yv <= xv and w2 > w1:
                        out.append(z3.Implies(z3.And(g, y <= x), v2 <= v1))
                    elif xv < yv and w1 + cv > w2:
                        out.append(z3.Implies(z3.And(g, x < y), v1 + c <= v2))
                    elif yv < xv and w2 + cv > w1:
                        out.append(z3.Implies(z3.And(g, y < x), v2 + c <= v1))
                    if len(out) >= limit:
                        return out + out2[:limit]
        return out + out2[:limit]

    def lookup(s, fs):
        k = tuple(sorted(x.get_id() for x in fs))
        if len(k) == 1:
            return s.fac[k[0]]
        return s.mono.get(k)


class Relax:
    """the same formulas over the reals: every integer model is a model, so no real model means no integer model.
    Integrality is kept where it is cheap: a comparison or its opposite by at least one."""

    def __init__(s):
        s.m = {}
        s.side = []
        s.keep = []
        s.n = 0

    def num(s, t):
        """real term of an integer term"""
        return s.go(t)

    def go(s, t):
        i = t.get_id()
        if i in s.m:
            return s.m[i]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in s.m:
                stack.pop()
                continue
            ch = s.parts(x)
            todo = [c for c in ch if c.get_id() not in s.m]
            if todo:
                stack += todo
                continue
            stack.pop()
            s.keep.append(x)
            s.m[x.get_id()] = s.build(x, [s.m[c.get_id()] for c in ch])
        return s.m[i]

    def parts(s, x):
        if not z3.is_app(x):
            return []
        if z3.is_int(x):
            if z3.is_int_value(x):
                return []
            k = x.decl().kind()
            return x.children() if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE) or k == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in x.children()) <= 1 else []
        if z3.is_bool(x):
            if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x) or z3.is_app_of(x, z3.Z3_OP_ITE):
                return x.children()
            if x.num_args() and all(z3.is_int(c) or z3.is_bool(c) for c in x.children()) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return x.children()
        return []

    def build(s, x, ch):
        if z3.is_int(x):
            if z3.is_int_value(x):
                return z3.RealVal(x.as_long())
            k = x.decl().kind()
            if ch:
                if k == z3.Z3_OP_ADD:
                    return z3.Sum(ch)
                if k == z3.Z3_OP_SUB:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r - c
                    return r
                if k == z3.Z3_OP_UMINUS:
                    return -ch[0]
                if k == z3.Z3_OP_ITE:
                    return z3.If(ch[0], ch[1], ch[2])
                return z3.Product(ch)
            s.n += 1
            return z3.Real('r!%d' % s.n)
        if not z3.is_bool(x):
            return x
        if not ch:
            if x.num_args() == 0:
                return x
            s.n += 1
            return z3.Bool('o!%d' % s.n)
        if z3.is_and(x):
            return z3.And(ch)
        if z3.is_or(x):
            return z3.Or(ch)
        if z3.is_not(x):
            return z3.Not(ch[0])
        if z3.is_implies(x):
            return z3.Implies(*ch)
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return z3.If(*ch)
        if z3.is_eq(x):
            if z3.is_real(ch[0]):
                s.side.append(z3.Or(ch[0] == ch[1], ch[0] <= ch[1] - 1, ch[0] >= ch[1] + 1))
            return ch[0] == ch[1]
        if z3.is_distinct(x):
            if len(ch) == 2:
                return ch[0] != ch[1]
            return z3.Distinct(*ch)
        a, b = ch
        if z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x):
            if z3.is_ge(x) or z3.is_gt(x):
                a, b = b, a
            if z3.is_lt(x) or z3.is_gt(x):
                s.side.append(z3.Or(a + 1 <= b, b <= a))
                return a + 1 <= b
            s.side.append(z3.Or(a <= b, b + 1 <= a))
            return a <= b
        s.n += 1
        return z3.Bool('o!%d' % s.n)

    def value(s, m, t):
        x = m.eval(s.go(t), model_completion=True)
        if z3.is_rational_value(x):
            return x.as_fraction()
        return None

    def flush(s, so):
        for f in s.side:
            so.add(f)
        s.side = []


def check_products(T, fs, timeout, hints=(), goal=None, skip=()):
    fs = [zb(f) for f in fs if f is not True]
    t0 = time.time()
    if skip and goal is not None:
        every = near(T, fs, zb(goal), skip)
    else:
        every = fs + list(T.closure(fs, skip))
    if os.environ.get('DUMP'):
        so = z3.Solver()
        so.add(*every)
        STATS.dumped = getattr(STATS, 'dumped', 0) + 1
        open('%s/%d.%d.smt2' % (os.environ['DUMP'], os.getpid(), STATS.dumped), 'w').write(so.to_smt2() + '\n; goal %s' % (zb(goal).sexpr().replace('\n', ' ') if goal is not None else ''))
    return split(T, fs, every, goal, timeout, hints, t0)


def split(T, fs, every, goal, timeout, hints=(), t0=0, lits=(), depth=10):
    """few choices between numbers: one problem for each way they can be made"""
    from val import check
    if goal is None:
        return products(every, goal, timeout, hints, t0)
    cs = choices(every)
    if not cs or len(cs) > depth:
        return products(every, goal, timeout, hints, t0)
    c = max(cs, key=lambda c: sum(1 for d in cs if any(x.eq(c) for x in subterms(d))))
    for b in (True, False):
        l = c if b else z3.Not(c)
        if impossible(T, fs + list(lits) + [l]):
            continue
        m = {}
        ev = [fold(z3.substitute(f, (c, z3.BoolVal(b))), m) for f in every]
        if any(z3.is_false(f) for f in ev):
            continue
        g = fold(z3.substitute(zb(goal), (c, z3.BoolVal(b))), m)
        ev = [f for f in ev if not z3.is_true(f)] + [l]
        if split(T, fs, ev, g, timeout, hints, time.time(), tuple(lits) + (l,), depth - 1) != 'unsat':
            return 'unknown'
    return 'unsat'


def subterms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        todo += x.children()
    return out


def impossible(T, fs, timeout=1500):
    """the formulas contradict each other whatever the products are"""
    so = z3.Solver()
    so.set('timeout', timeout)
    A = Abs()
    for f in fs:
        so.add(A.rw(zb(f)))
    return so.check() == z3.unsat


def choices(fs):
    out, todo, seen = {}, list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            c = x.arg(0)
            if z3.is_not(c):
                c = c.arg(0)
            out[c.get_id()] = c
        todo += x.children()
    return list(out.values())


def fold(t, memo):
    """constants of boolean structure disappear"""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    ch = [fold(c, memo) for c in t.children()]
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        r = ch[1] if z3.is_true(ch[0]) else ch[2] if z3.is_false(ch[0]) else z3.If(*ch)
    elif z3.is_and(t):
        l = [c for c in ch if not z3.is_true(c)]
        r = z3.BoolVal(False) if any(z3.is_false(c) for c in l) else z3.BoolVal(True) if not l else l[0] if len(l) == 1 else z3.And(l)
    elif z3.is_or(t):
        l = [c for c in ch if not z3.is_false(c)]
        r = z3.BoolVal(True) if any(z3.is_true(c) for c in l) else z3.BoolVal(False) if not l else l[0] if len(l) == 1 else z3.Or(l)
    elif z3.is_not(t):
        r = z3.BoolVal(z3.is_false(ch[0])) if z3.is_true(ch[0]) or z3.is_false(ch[0]) else z3.Not(ch[0])
    elif z3.is_implies(t) and (z3.is_true(ch[0]) or z3.is_false(ch[0]) or z3.is_true(ch[1])):
        r = ch[1] if z3.is_true(ch[0]) else z3.BoolVal(True)
    elif any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())):
        r = t.decl()(*ch)
    else:
        r = t
    memo[i] = (t, r)
    return r


def near(T, fs, goal, skip):
    """the goal, what defines its terms up to the skipped definitions, and the hypotheses about nothing else"""
    cl = [goal] + list(T.closure([goal], skip))
    known = set()
    for f in cl:
        known |= atoms(f)
    fl = []
    for f in fs:
        fl += flat_and(f)
    return cl + [f for f in fl if f is not goal and atoms(f) <= known]


def flat_and(f):
    if z3.is_and(f):
        return [y for x in f.children() for y in flat_and(x)]
    if z3.is_not(f) and z3.is_or(f.arg(0)):
        return [y for x in f.arg(0).children() for y in flat_and(z3.Not(x))]
    if z3.is_not(f) and z3.is_not(f.arg(0)):
        return flat_and(f.arg(0).arg(0))
    return [f]


def atoms(f):
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if z3.is_int(x) or z3.is_bool(x):
                out.add(x.sexpr())
        todo += x.children()
    return out


def products(every, goal, timeout, hints=(), t0=0):
    A = Abs()
    fs = [A.rw(f) for f in every]
    for h in hints:
        if z3.is_bool(h):
            fs.append(A.rw(h))
        else:
            A.rw(zi(h))
    if not A.mono:
        return 'unknown'
    if goal is not None:
        fs += A.scaled(every, goal)
    fs += A.instances(signs=True)
    STATS.queries += 1
    r = 'unknown'
    try:
        r = refine(A, fs, timeout * 2 // 3, True)
        if r != 'unsat':
            r = refine(A, fs, timeout // 3, False)
    except z3.Z3Exception as e:
        if os.environ.get('DUMP'):
            print('products', e)
    STATS.time += time.time() - t0
    return r if r == 'unsat' else 'unknown'


def refine(A, fs, timeout, real):
    """facts about products are added until what is left is impossible or no fact is broken"""
    t0 = time.time()
    so = z3.Solver()
    R = Relax() if real else None

    def add(f):
        if real:
            so.add(R.go(f))
            R.flush(so)
        else:
            so.add(f)
    for f in fs:
        add(f)
    end = time.time() + timeout / 1000
    n, r = 0, 'unknown'
    while time.time() < end:
        so.set('timeout', int(max(300, (end - time.time()) * 1000)))
        r = str(so.check())
        n += 1
        if r != 'sat':
            break
        new = A.violated(so.model(), value=R.value if real else None)
        if not new:
            break
        for f in new:
            add(f)
    if os.environ.get('DUMP'):
        print('products', 'real' if real else 'int', 'rounds', n, len(fs), len(A.mono), len(so.assertions()), r, '%.1f' % (time.time() - t0), timeout)
    return r


def pins(T, fs, m):
    """the model's values of all factors of products"""
    A = Abs()
    fs = [zb(f) for f in fs if f is not True]
    out = {}
    todo = list(fs) + list(T.closure(fs))
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_mul(x):
            c, ff = A.flat(x)
            if len(ff) > 1:
                for f in ff:
                    v = m.eval(f, model_completion=True)
                    if z3.is_int_value(v):
                        out[f.get_id()] = f == v
        todo += x.children()
    return list(out.values())


def numerator(T, q):
    for f in T.facts[q.get_id()]:
        if z3.is_implies(f) and z3.is_and(f.arg(1)):
            return f.arg(1).arg(0).arg(1)
    return q


def equal_quotients(T, hyp, goal, budget=6000):
    """goal with the quotients of the specification replaced by equal quotients of the code, each equality proved first"""
    leaves = {}

    def consts(f):
        out, todo, seen = {}, [f], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            todo += x.children()
        return out
    goal = zb(goal)
    mine = {n: x for n, x in consts(goal).items() if n.startswith('spec!')}
    if not mine:
        return goal
    every = {}
    for f in [goal] + list(T.closure([goal])):
        every.update(consts(f))
    qs = T.quots
    cand = [x for n, x in every.items() if x.get_id() in qs and not n.startswith('spec!')]
    for n, x in mine.items():
        for y in sorted(cand, key=lambda y: T.order(y)):
            if atoms(numerator(T, x)) != atoms(numerator(T, y)):
                continue
            k = ('eq', n, y.decl().name())
            if k not in T.names:
                g = z3.Not(x == y)
                T.names[k] = check_products(T, hyp + [g], budget, goal=g, skip=T.defs or {0}) == 'unsat'
            if T.names[k]:
                goal = z3.substitute(goal, (x, y))
                break
    return goal


def compare(T, hyp, goal, limit=40):
    """which quotients are at most a quotient the claim multiplies: linear arithmetic with rounding, decided separately"""
    inn = {i: T.quots[i] for i in (x.get_id() for x in subterms(goal)) if i in T.quots}
    big = {}
    for x in subterms(goal):
        if z3.is_mul(x):
            for y in x.children():
                if y.get_id() in inn:
                    big[y.get_id()] = y
    if not big:
        return []
    ids = set()
    for f in list(hyp) + T.closure(list(hyp)):
        if isz(f):
            ids |= {i for i in T.leaves(zb(f)) if i in T.quots}
    out = []
    for Q in big.values():
        for i in sorted(ids, key=lambda i: T.order(T.quots[i])):
            q = T.quots[i]
            if i in inn or limit <= 0:
                continue
            cl = T.closure([q == Q])
            if len(cl) > 60:
                continue
            limit -= 1
            so = z3.Solver()
            so.set('timeout', 700)
            A = Abs()
            for f in cl + [q > Q]:
                so.add(A.rw(f))
            if so.check() == z3.unsat:
                out.append(q <= Q)
    return out
