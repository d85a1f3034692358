"""Symbolic executor for MIR bodies.  Calls are inlined, replaced by a contract, or given by
the library contracts in lib.py.  States reaching the same block in the same loop iteration
are merged, so the cost is linear in the code, not in the number of paths."""
import re, heapq, time
import z3
from val import *
from mir import Unsupported, Crate, strip_generics, short, split_top, close_angle

VARIANTS = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1,
            'Less': -1, 'Equal': 0, 'Greater': 1}
INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
DISJOINT = {'Result', 'ControlFlow'}


class State:
    __slots__ = ('cells', 'pc', 'w', 'iters')

    def __init__(s):
        s.cells, s.pc, s.w, s.iters = {}, [], {}, {}

    def fork(s):
        n = State()
        n.cells = dict(s.cells)
        n.pc = list(s.pc)
        n.w = dict(s.w)
        n.iters = dict(s.iters)
        return n

    def assume(s, c):
        if c is True:
            return s
        s.pc.append(c)
        return s


def wmerge(c, a, b):
    """ghost state: tuples of events are kept as common prefix + guarded tails"""
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple):
        n = 0
        while n < len(a) and n < len(b) and (a[n] is b[n]):
            n += 1
        return a[:n] + tuple(e.guarded(c) for e in a[n:]) + tuple(e.guarded(Not(c)) for e in b[n:])
    return vmerge(c, a, b)


def merge_states(a, b):
    """None if the two cannot be merged"""
    n = 0
    while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or (isz(a.pc[n]) and isz(b.pc[n]) and a.pc[n].eq(b.pc[n]))):
        n += 1
    ca, cb = And(*a.pc[n:]), And(*b.pc[n:])
    g = ca
    # prefer the shorter guard
    gn = False
    if isz(cb) and isz(ca) and len(b.pc) - n < len(a.pc) - n:
        g, gn = Not(cb), True
    m = State()
    m.pc = a.pc[:n]
    d = Or(ca, cb)
    if d is not True and not (isz(ca) and isz(cb) and Not(ca).eq(cb)) and not (isz(cb) and isz(ca) and Not(cb).eq(ca)):
        m.pc.append(d)
    try:
        keys = a.cells.keys() | b.cells.keys()
        for k in keys:
            x, y = a.cells.get(k), b.cells.get(k)
            if x is y:
                m.cells[k] = x
            elif x is None or y is None:
                if k not in a.cells or k not in b.cells:
                    m.cells[k] = x if y is None else y
                else:
                    m.cells[k] = None
            else:
                if isinstance(x, VE) and isinstance(y, VE) and x.n in DISJOINT and isinstance(x.d, int) and isinstance(y.d, int) and x.d != y.d:
                    return None
                m.cells[k] = vmerge(g, x, y)
        for k in a.w.keys() | b.w.keys():
            m.w[k] = wmerge(g, a.w.get(k, ()), b.w.get(k, ()))
    except NoMerge:
        return None
    m.iters = dict(a.iters)
    return m


def merge_vals(outs):
    """[(state, value)] -> fewest; Ok/Err kept apart, everything else merged where possible"""
    res = []
    for st, v in outs:
        for i, (s2, v2) in enumerate(res):
            if isinstance(v, VE) and isinstance(v2, VE) and v.n in DISJOINT and isinstance(v.d, int) and isinstance(v2.d, int) and v.d != v2.d:
                continue
            s2.cells['$ret'] = v2
            st.cells['$ret'] = v
            m = merge_states(s2, st)
            s2.cells.pop('$ret', None)
            st.cells.pop('$ret', None)
            if m is not None:
                r = m.cells.pop('$ret')
                res[i] = (m, r)
                break
        else:
            res.append((st, v))
    return res


DERIVED = {t: ('Accounts',) for t in ('AccountsExit', 'ToAccountInfos', 'ToAccountMetas', 'Accounts')}


class Skip(Exception):
    pass


class Exec:
    MAXITER = 64
    qtimeout = 300

    def __init__(s, crate, lib, T, contracts=None, loops=None, deadline=None):
        s.c, s.lib, s.T = crate, lib, T
        s.contracts = contracts or {}
        s.loops = loops or {}
        s.obls = []
        s.globals = {}
        s.fid = 0
        s.hid = 0
        s.deadline = deadline
        s.panics = []          # (where, pc)
        s.inlined = {}
        s.assumed = set()
        s.variants = crate.variants
        s.prune = True
        s.depth = 0
        s.localpanic = None

    # ---------------- cells and places
    def load_cell(s, st, c):
        if c in st.cells:
            return st.cells[c]
        if c in s.globals:
            return s.globals[c]
        raise Unsupported('read of unset cell %r' % (c,))

    def new_cell(s, st, v):
        s.hid += 1
        k = ('h', s.hid)
        st.cells[k] = v
        return k

    def get1(s, v, e, st=None):
        k = e[0]
        if k == 'f':
            if isinstance(v, VS):
                if e[1] >= len(v.f):
                    raise Unsupported('field %d of %s' % (e[1], v.n))
                return v.f[e[1]]
            if isinstance(v, (VRef, VSel, VSlice)):   # Box internals
                return v
            if isinstance(v, VClo):
                return v.caps[e[1]]
            if isinstance(v, VE):
                # field of the only variant (struct like enum access should come with 'p')
                raise Unsupported('field of enum without variant')
            if isinstance(v, VOp):
                return VOp(v.t + '.%d' % e[1])
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'p':
            if isinstance(v, VOp):
                return VOp(v.t)
            if not isinstance(v, VE):
                raise Unsupported('variant of %s' % type(v).__name__)
            if e[1] not in v.p:
                raise Unsupported('payload of absent variant %s' % (e[1],))
            return v.p[e[1]][e[2]]
        if k == 'i':
            i = e[1]
            if isinstance(v, VBig):
                return v.get(i)
            if isinstance(v, VVec):
                if isinstance(i, int):
                    return v.i[i][1]
                return s.iteidx(i, [x for _, x in v.i])
            if isinstance(v, VLimbs):
                if isinstance(i, int):
                    if isinstance(v.raw, int):
                        return (v.raw >> (64 * i)) % U64
                    return (v.raw / (1 << 64 * i)) % U64
            if not isinstance(v, VA):
                raise Unsupported('index of %s' % type(v).__name__)
            if isinstance(i, int):
                return v.e[i]
            return s.iteidx(i, v.e)
        if k == 'e':
            return v.i[e[1]][1]
        if k == 'm':
            return v.i[e[1]][2]
        if k == 'k':
            return v.i[e[1]][1]
        raise Unsupported('proj %s' % k)

    def iteidx(s, i, l):
        r = l[-1]
        for j in range(len(l) - 2, -1, -1):
            r = vmerge(eqt(i, j), l[j], r)
        return r

    def set1(s, v, e, x):
        k = e[0]
        if k == 'f':
            if v is None:
                raise Unsupported('field write to unset value')
            f = list(v.f)
            f[e[1]] = x
            return VS(v.n, f)
        if k == 'p':
            p = dict(v.p)
            l = list(p[e[1]])
            l[e[2]] = x
            p[e[1]] = l
            return VE(v.n, v.d, p)
        if k == 'i':
            i = e[1]
            if isinstance(v, VBig):
                return v.set(i, x)
            if isinstance(v, VVec):
                if isinstance(i, int):
                    l = list(v.i)
                    l[i] = (l[i][0], x)
                    return VVec(l)
                return VVec([(g, vmerge(eqt(i, j), x, y)) for j, (g, y) in enumerate(v.i)])
            if isinstance(i, int):
                l = list(v.e)
                l[i] = x
                return VA(l)
            return VA([vmerge(eqt(i, j), x, y) for j, y in enumerate(v.e)])
        if k == 'e':
            l = list(v.i)
            l[e[1]] = (l[e[1]][0], x)
            return VVec(l)
        if k == 'm':
            l = list(v.i)
            l[e[1]] = (l[e[1]][0], l[e[1]][1], x)
            return VMap(l)
        raise Unsupported('write proj %s' % k)

    def get_path(s, v, path):
        for e in path:
            v = s.get1(v, e)
        return v

    def set_path(s, v, path, x):
        if not path:
            return x
        return s.set1(v, path[0], s.set_path(s.get1(v, path[0]), path[1:], x))

    def load(s, st, r):
        """value behind a reference"""
        if isinstance(r, VRef):
            return s.get_path(s.load_cell(st, r.c), r.p)
        if isinstance(r, VSel):
            out = None
            for g, q in r.alts:
                v = s.load(st, q)
                out = v if out is None else vmerge(g, v, out)
            return out
        if isinstance(r, VSlice):
            n = r.n
            if not isinstance(n, int):
                raise Unsupported('load of symbolic slice')
            base = s.load(st, r.b)
            return VA([s.get1(base, ('i', r.s + k if isinstance(r.s, int) else r.s + k)) for k in range(n)])
        if isinstance(r, (VOp, VBytes)):
            return r
        raise Unsupported('deref of %s' % type(r).__name__)

    def store(s, st, r, x, g=True):
        if isinstance(r, VRef):
            if r.c not in st.cells:
                raise Unsupported('write to %r' % (r.c,))
            old = st.cells[r.c]
            if g is not True:
                x = vmerge(g, x, s.get_path(old, r.p))
            st.cells[r.c] = s.set_path(old, r.p, x)
            return
        if isinstance(r, VSel):
            for h, q in r.alts:
                s.store(st, q, x, And(g, h))
            return
        raise Unsupported('store through %s' % type(r).__name__)

    def ext(s, r, e):
        """reference to a part of what r points to"""
        if isinstance(r, VRef):
            return VRef(r.c, r.p + (e,))
        if isinstance(r, VSel):
            return VSel([(g, s.ext(q, e)) for g, q in r.alts])
        if isinstance(r, VSlice):
            if e[0] == 'i':
                i = e[1]
                return s.ext(r.b, ('i', s.add(r.s, i)))
            raise Unsupported('slice projection')
        if isinstance(r, VOp):
            return r
        raise Unsupported('project %s' % type(r).__name__)

    @staticmethod
    def add(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        return a + b

    def resolve(s, st, fr, place):
        """place -> reference value"""
        loc, projs = place
        r = VRef((fr, loc))
        pend = None
        for p in projs:
            k = p[0]
            if k == '*':
                r = s.load(st, r)
                if isinstance(r, (VS, VE)) and False:
                    pass
            elif k == 'f':
                if pend is not None:
                    r = s.ext(r, ('p', pend, p[1]))
                    pend = None
                else:
                    # Box<T> internals: (box.0).0 is the pointer itself
                    if re.match(r'std::ptr::(Unique|NonNull)<|\*const |\*mut ', p[2]):
                        continue
                    r = s.ext(r, ('f', p[1]))
            elif k == 'v':
                pend = s.variant(p[1])
            elif k == 'i':
                r = s.ext(r, ('i', st.cells[(fr, p[1])]))
            elif k == 'c':
                if p[2]:
                    n = s.length(st, r)
                    r = s.ext(r, ('i', n - p[1]))
                else:
                    r = s.ext(r, ('i', p[1]))
            elif k == 's':
                raise Unsupported('subslice pattern')
        return r

    def variant(s, name):
        if name in VARIANTS:
            return VARIANTS[name]
        m = re.match(r'variant#(\d+)$', name)
        if m:
            return int(m.group(1))
        if name in s.variants:
            return s.variants[name]
        raise Unsupported('variant ' + name)

    def length(s, st, r):
        if isinstance(r, VSlice):
            return r.n
        v = s.load(st, r)
        if isinstance(v, (VRef, VSel, VSlice)):
            return s.length(st, v)
        if isinstance(v, VA):
            return len(v.e)
        if isinstance(v, VBig):
            return v.n
        if isinstance(v, VVec):
            if all(g is True for g, _ in v.i):
                return len(v.i)
            return z3.Sum([z3.If(zb(g), 1, 0) for g, _ in v.i]) if v.i else 0
        if isinstance(v, VLimbs):
            return 3
        raise Unsupported('len of %s' % type(v).__name__)

    # ---------------- operands, rvalues
    def operand(s, st, fr, o, body):
        if o[0] == 'copy':
            loc, projs = o[1]
            if not projs:
                v = st.cells.get((fr, loc))
                if v is None:
                    raise Unsupported('use of unset local _%d in %s' % (loc, body.name))
                return v
            return s.load(st, s.resolve(st, fr, o[1]))
        if o[0] == 'fn':
            return VFn(o[1])
        return s.const(st, o[1], o[2], body)

    def const(s, st, t, lit, body):
        m = re.match(r'(-?\d+)_([iu]\w+)$', t)
        if m:
            return int(m.group(1))
        if t == 'true':
            return True
        if t == 'false':
            return False
        if t == '()':
            return UNIT
        if t.startswith('{alloc') and lit:
            m = re.search(r'Scalar\((alloc\d+)\)', lit)
            p = s.c.static_of(body, m.group(1)) if m else None
            if p:
                v = s.lib.const_value(s, p, None)
                if v is not None:
                    c = ('static', p)
                    s.globals[c] = v
                    return VRef(c)
        if t.startswith('UNKNOWN:'):
            raise Unsupported('constant ' + t)
        if t.startswith('SRC:'):
            t = t[4:]
            m = re.match(r'([iu]\w+)::(MAX|MIN|BITS)$', t)
            if m and m.group(1) in INTW:
                t = 'core::num::<impl %s>::%s' % m.groups()
            lit = None
        m = re.match(r'std::option::Option::<.*>::None$', t)
        if m:
            return VE('Option', 0, {0: []})
        if t.startswith('"'):
            return VOp('str:' + t[1:-1])
        if t.startswith('b"'):
            return VBytes([s.lib.bytes_term(t)])
        if t.startswith('ZeroSized: '):
            u = t[11:]
            if u.startswith('[closure@'):
                return VClo(u[9:-1], [])
            m = re.match(r'std::iter::RepeatWith<\[closure@(.*)\]>$', u)
            if m:
                from val import VIter
                return VIter('repeat_with', VClo(m.group(1), []))
            if u.startswith('std::iter::Empty<'):
                from val import VIter
                return VIter('seq', [], 0)
            return UNIT
        m = re.match(r'core::num::<impl (\w+)>::(MAX|MIN|BITS)$', t)
        if m:
            w = INTW[m.group(1)]
            return {'MAX': (1 << w) - 1, 'MIN': 0, 'BITS': w}[m.group(2)]
        if lit:
            m = re.search(r'val: Unevaluated\((.*), \[.*?\], (None|Some\(promoted\[(\d+)\]\))\) \}$', lit)
            if m:
                if m.group(3) is not None:
                    return s.promoted(body.name, m.group(1), int(m.group(3)))
                return s.named_const(m.group(1))
            m = re.search(r'val: Value\((.*)\) \}$', lit)
            if m and 'ty: fn(' in lit or lit.startswith('Const { ty: for<'):
                return VFn(t)
        r = s.lib.const_value(s, t, lit)
        if r is not None:
            return r
        return s.named_const(t)

    def promoted(s, cur, path, idx):
        key = ('promoted', cur, idx)
        if key not in s.globals:
            line = s.c.promoted.get((cur, idx))
            if line is None:
                line = s.c.promoted.get((s.c.canon(path), idx))
            if line is None:
                raise Unsupported('promoted %s %d' % (path, idx))
            s.globals[key] = s.eval_const(line, cur + '#promoted%d' % idx)
        return s.globals[key]

    def named_const(s, path):
        key = ('const', path)
        if key not in s.globals:
            r = s.lib.const_value(s, path, None)
            if r is not None:
                s.globals[key] = r
                return r
            line = s.c.consts.get(path)
            if line is None:
                p = strip_generics(path).split('::')
                for n in (3, 2, 1):
                    c = [k for k in s.c.consts if k.split('::')[-n:] == p[-n:]]
                    if len(c) == 1:
                        line = s.c.consts[c[0]]
                        break
            if line is None:
                raise Unsupported('constant ' + path)
            s.globals[key] = s.eval_const(line, path)
        return s.globals[key]

    def eval_const(s, line, name):
        b = s.c.body_at(line, name)
        st = State()
        outs = s.run(b, [], st, keep=True)
        if len(outs) != 1:
            raise Unsupported('constant ' + name)
        for k, v in outs[0][0].cells.items():
            s.globals[k] = v
        return outs[0][1]

    def rng(s, ty):
        return 0, (1 << INTW[ty]) - 1

    def rvalue(s, st, fr, rv, body, dest):
        k = rv[0]
        if k == 'use':
            return s.operand(st, fr, rv[1], body)
        if k == 'ref':
            r = s.resolve(st, fr, rv[1])
            return r
        if k == 'len':
            return s.length(st, s.resolve(st, fr, rv[1]))
        if k == 'disc':
            v = s.load(st, s.resolve(st, fr, rv[1]))
            if isinstance(v, VE):
                return v.d
            if isinstance(v, VOp):
                return s.T.fresh('disc', 0)
            raise Unsupported('discriminant of %s' % type(v).__name__)
        if k == 'bin':
            return s.binop(st, rv[1], s.operand(st, fr, rv[2], body), s.operand(st, fr, rv[3], body), s.optype(body, rv[2], rv[3]))
        if k == 'un':
            v = s.operand(st, fr, rv[2], body)
            if rv[1] == 'Not':
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                    return Not(v)
            raise Unsupported('unary ' + rv[1])
        if k == 'cast':
            v = s.operand(st, fr, rv[1], body)
            return s.cast(st, v, rv[2], rv[3], body, rv[1])
        if k == 'closure':
            return VClo(rv[1], [s.operand(st, fr, o, body) for o in rv[2]])
        if k == 'array':
            l = [s.operand(st, fr, o, body) for o in rv[1]]
            return VA(l)
        if k == 'repeat':
            v = s.operand(st, fr, rv[1], body)
            n = s.constint(rv[2])
            if n > 64:
                mk, leaves = s.lib.big_shape(v)
                return VBig(n, mk, leaves, [z3.K(z3.IntSort(), zi(x)) for x in leaves(v)])
            return VA([v] * n)
        if k == 'tuple':
            return VS('', [s.operand(st, fr, o, body) for o in rv[1]])
        if k == 'agg':
            return s.aggregate(st, fr, rv, body)
        if k == 'misc' and rv[1] in ('SizeOf', 'AlignOf'):          # only handed to the allocator
            return VS('Layout', [])
        raise Unsupported('rvalue %s %s' % (k, rv[1:] if k == 'misc' else ''))

    def constint(s, t):
        m = re.match(r'(\d+)(_\w+)?$', t)
        if m:
            return int(m.group(1))
        v = s.named_const(t)
        if isinstance(v, int):
            return v
        raise Unsupported('array length ' + t)

    def aggregate(s, st, fr, rv, body):
        path = strip_generics(rv[1])
        vals = [s.operand(st, fr, o, body) for o in rv[2]]
        parts = path.split('::')
        nm = parts[-1]
        en = parts[-2] if len(parts) > 1 else ''
        full = '::'.join(parts[-2:])
        if en in ('Option', 'COption', 'Result', 'ControlFlow', 'Ordering', 'Bound') and nm in VARIANTS:
            d = VARIANTS[nm]
            return VE(en, d, {d: vals})
        if en in s.c.enums and nm in s.c.enums[en]:
            d = s.c.enums[en][nm]
            return VE(en, d, {d: vals})
        if nm == 'U192' and len(vals) == 1 and isinstance(vals[0], VA):
            vals = [s.lib.limbs(vals[0])]
        if en in ('Source', 'ErrorOrigin', 'ComparedValues', 'ErrorCode', 'AnchorError') or nm in ('AnchorError', 'Source'):
            return VOp(full)
        return VS(nm, vals)

    def optype(s, body, a, b):
        for o in (a, b):
            if o[0] == 'const':
                m = re.match(r'-?\d+_([iu]\w+)$', o[1])
                if m:
                    return m.group(1)
            elif o[0] == 'copy':
                loc, pr = o[1]
                if not pr:
                    t = body.locals.get(loc)
                    if t in INTW:
                        return t
                elif pr[-1][0] == 'f' and pr[-1][2] in INTW:
                    return pr[-1][2]
        return None

    def wrap(s, ty, v):
        m = 1 << INTW[ty]
        if isinstance(v, int):
            return v % m
        return v % m

    def binop(s, st, op, a, b, ty):
        if isinstance(a, (VOp,)) or isinstance(b, VOp):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return s.T.freshb('opq')
            raise Unsupported('binop on opaque')
        if isinstance(a, VS) or isinstance(b, VS):
            raise Unsupported('binop on struct')
        if op == 'Eq':
            return eqt(a, b)
        if op == 'Ne':
            return Not(eqt(a, b))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        isb = isinstance(a, bool) or (isz(a) and z3.is_bool(a))
        if op in ('BitAnd', 'BitOr', 'BitXor') and isb:
            return {'BitAnd': And, 'BitOr': Or, 'BitXor': lambda x, y: Not(eqt(x, y))}[op](a, b)
        if op in ('CheckedAdd', 'CheckedSub', 'CheckedMul'):
            r = {'CheckedAdd': lambda: a + b, 'CheckedSub': lambda: a - b, 'CheckedMul': lambda: a * b}[op]()
            if ty is None:
                ty = 'u64'
            hi = (1 << INTW[ty]) - 1
            if op == 'CheckedSub':
                ov = r < 0
            else:
                ov = r > hi
            return VS('', [r, ov])
        if op in ('Add', 'Sub', 'Mul'):
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op]()
            if isinstance(r, int):
                return s.wrap(ty or 'u64', r)
            # wrapping arithmetic only appears where the compiler proved it cannot overflow
            return s.wrap(ty or 'u64', r)
        if op in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int):
                return a // b if op == 'Div' else a % b
            if isinstance(b, int) and b > 0:
                return zi(a) / b if op == 'Div' else zi(a) % b
            q = s.T.fresh('quo', 0)
            r = s.T.fresh('rem', 0)
            # defining facts for a >= 0, b > 0
            f = Implies(b > 0, And(q * b + r == a, r < b))
            s.T.fact(q, f)
            s.T.fact(r, f)
            return q if op == 'Div' else r
        raise Unsupported('binop ' + op)

    def cast(s, st, v, ty, kind, body, op):
        if kind.startswith('IntToInt'):
            if isinstance(v, (bool,)):
                return int(v)
            if isz(v) and z3.is_bool(v):
                return z3.If(v, 1, 0)
            if ty in INTW:
                src = s.optype(body, op, op)
                if src in INTW and INTW[src] <= INTW[ty]:
                    return v
                if isinstance(v, VOp):
                    return v
                return s.wrap(ty, v)
            return v
        if kind.startswith('Pointer(Unsize') or kind.startswith('PointerCoercion(Unsize') or 'Unsize' in kind:
            return s.unsize(st, v, ty)
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            return v
        if kind.startswith(('PtrToPtr', 'Transmute', 'Pointer', 'Misc')):
            return v
        raise Unsupported('cast %s' % kind)

    def unsize(s, st, v, ty):
        if '[' in ty and isinstance(v, (VRef, VSel)):
            t = s.load(st, v)
            if isinstance(t, (VA, VBig, VVec, VLimbs)):
                return VSlice(v, 0, s.length(st, v))
            if isinstance(t, VBytes):
                return t
        return v

    # ---------------- running
    def feasible(s, st, c, quick=True):
        if c is True:
            return True
        if c is False:
            return False
        if not s.prune:
            return True
        nq = s.lib.noquery
        if c.get_id() in nq or (z3.is_not(c) and c.arg(0).get_id() in nq):
            return True
        r = check(s.T, st.pc + [c], timeout=s.qtimeout)
        return r != 'unsat'

    def note(s, name, kind):
        s.inlined[name] = kind

    def run(s, body, args, st, keep=False):
        """returns [(state, value)] for normal returns"""
        s.depth += 1
        if s.depth > 60:
            raise Unsupported('call depth')
        try:
            return s._run(body, args, st, keep)
        finally:
            s.depth -= 1

    def _run(s, body, args, st, keep):
        s.fid += 1
        fr = s.fid
        if len(args) != len(body.params):
            raise Unsupported('arity of ' + body.name)
        for p, a in zip(body.params, args):
            st.cells[(fr, p)] = a
        outer = st.iters
        st.iters = {}
        pend = {}     # key -> (block, [states])
        heap = []

        def key(b, it):
            k = []
            for h in body.loops[b]:
                k += [body.rpoidx[h], it.get(h, 0)]
            k.append(body.rpoidx[b])
            return tuple(k)

        def push(b, stt):
            k = key(b, stt.iters)
            if k in pend:
                pend[k][1].append(stt)
            else:
                pend[k] = (b, [stt])
                heapq.heappush(heap, k)

        def go(frm, to, stt):
            ls_to = body.loops[to]
            it = {h: stt.iters.get(h, 0) for h in ls_to}
            if s.loops and body.name in s.loops:
                for h in reversed(body.loops[frm]):
                    if h not in ls_to:
                        hook = s.loops[body.name](body, h)
                        if hook is not None:
                            hook.leave(s, body, fr, h, stt, to)
            if to in body.src and frm in body.src[to]:
                it[to] += 1
                lim = s.MAXITER
                if it[to] > lim:
                    raise Unsupported('loop bound in ' + body.name)
            elif to in body.src:
                it[to] = 0
            stt.iters = it
            push(to, stt)

        rets = []
        push(0, st)
        while heap:
            if s.deadline and time.time() > s.deadline:
                raise Unsupported('time budget')
            k = heapq.heappop(heap)
            b, sts = pend.pop(k)
            if len(sts) > 1:
                sts = s.merge_all(sts)
                if len(sts) > 24:
                    raise Unsupported('too many unmergeable states in ' + body.name)
            if s.loops and b in body.src and body.name in s.loops:
                hook = s.loops[body.name](body, b)
                if hook is not None:
                    sts = [x for x in (hook.arrive(s, body, fr, b, cur) for cur in sts) if x is not None]
            for cur in sts:
                s.block(body, fr, b, cur, go, rets, push)
        out = []
        for stt in rets:
            v = stt.cells.get((fr, 0), UNIT)
            if not keep:
                for l in list(stt.cells):
                    if l[0] == fr:
                        del stt.cells[l]
            stt.iters = outer
            out.append((stt, v))
        return merge_vals(out)

    def merge_all(s, sts):
        res = []
        for st in sts:
            for i, r in enumerate(res):
                m = merge_states(r, st)
                if m is not None:
                    res[i] = m
                    break
            else:
                res.append(st)
        return res

    def block(s, body, fr, b, st, go, rets, push):
        try:
            return s._block(body, fr, b, st, go, rets, push)
        except Unsupported as u:
            if not getattr(u, 'at', None):
                u.at = '%s bb%d' % (body.name, b)
                u.args = ('%s (in %s)' % (u.args[0] if u.args else '', u.at),)
            raise

    def _block(s, body, fr, b, st, go, rets, push):
        stmts = body.blocks[b]
        for i, t in enumerate(stmts):
            k = t[0]
            if k == 'assign':
                v = s.rvalue(st, fr, t[2], body, t[1])
                s.assign(st, fr, t[1], v)
            elif k == 'nop':
                pass
            elif k == 'setdisc':
                raise Unsupported('set discriminant')
            elif k == 'goto':
                go(b, t[1], st)
                return
            elif k == 'return':
                rets.append(st)
                return
            elif k == 'unreachable':
                return
            elif k == 'abort':
                return
            elif k == 'drop':
                go(b, t[2], st)
                return
            elif k == 'switch':
                s.switch(st, s.operand(st, fr, t[1], body), t[2], t[3], lambda to, stt: go(b, to, stt))
                return
            elif k == 'assert':
                c = s.operand(st, fr, t[1], body)
                ok = Not(c) if t[2] else c
                if ok is False:
                    s.panics.append((body.name, list(st.pc)))
                    return
                if ok is not True:
                    s.panics.append((body.name, st.pc + [Not(ok)]))
                    st.assume(ok)
                go(b, t[3], st)
                return
            elif k == 'call':
                try:
                    outs = s.call(st, fr, t, body)
                except Skip as sk:
                    # guarded iteration: try the next element in the next iteration
                    for stt, v in sk.args[0]:
                        if v is Skip:
                            h = body.loops[b][-1] if body.loops[b] else None
                            if h is None:
                                raise Unsupported('next on a guarded sequence outside a loop')
                            stt.iters = dict(stt.iters)
                            stt.iters[h] = stt.iters.get(h, 0) + 1
                            push(b, stt)
                        else:
                            s.assign(stt, fr, t[1], v)
                            go(b, t[4], stt)
                    return
                if t[4] is None:
                    return
                for stt, v in outs:
                    s.assign(stt, fr, t[1], v)
                    go(b, t[4], stt)
                return
            else:
                raise Unsupported('terminator ' + k)
        raise Unsupported('block without terminator')

    def assign(s, st, fr, place, v):
        loc, pr = place
        if not pr:
            st.cells[(fr, loc)] = v
            return
        r = s.resolve(st, fr, place)
        s.store(st, r, v)

    def switch(s, st, v, arms, other, go):
        if isinstance(v, VOp):
            raise Unsupported('switch on opaque')
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for val, to in arms:
                if val == v or (val == 255 and v == -1):
                    return go(to, st)
            if other is not None:
                return go(other, st)
            return
        targets = {}
        neg = []
        order = []
        for val, to in arms:
            if z3.is_bool(v):
                c = Not(v) if val == 0 else v
            else:
                c = eqt(v, -1 if val == 255 else val)
            neg.append(Not(c))
            targets.setdefault(to, []).append(c)
            if to not in order:
                order.append(to)
        if other is not None:
            targets.setdefault(other, []).append(And(*neg))
            if other not in order:
                order.append(other)
        live = []
        for to in order:
            c = Or(*targets[to])
            if s.feasible(st, c):
                live.append((to, c))
        for j, (to, c) in enumerate(live):
            n = st if j == len(live) - 1 else st.fork()
            if len(live) > 1:
                n.assume(c)
            go(to, n)

    # ---------------- calls
    def call(s, st, fr, t, body):
        _, dest, fn, args, ret, lit = t
        vals = [s.operand(st, fr, a, body) for a in args]
        dty = body.locals.get(dest[0]) if not dest[1] else dest[1][-1][-1]
        if re.match(r'(move )?_\d+$', fn) or fn.startswith('move '):
            raise Unsupported('indirect call')
        return s.call_fn(st, fn, vals, dty)

    def find_local(s, fn):
        """body of a function of this crate, or None"""
        n = re.sub(r"(?:::)?<'\w+(?:, ?'\w+)*>", '', fn)
        n0 = strip_generics(n)
        m = re.match(r'<(.*) as ([^>]*(?:<.*>)?)>::(\w+)(::<.*>)?$', n)
        if m:
            ty, tr = short(m.group(1)), short(m.group(2))
            k = (ty, tr, m.group(3))
            nm = s.c.traitfns.get(k)
            if nm is None:
                k = (ty, strip_generics(tr.replace('<', '::<')), m.group(3))
                nm = s.c.traitfns.get(k)
            if nm is None and tr in ('Clone', 'PartialEq', 'PartialOrd', 'Ord', 'Default'):
                return None
            if nm is None:      # derive output: the impl's header is not in the source
                c = [v for q, v in s.c.traitfns.items() if q[0] == ty and q[2] == m.group(3) and q[1] in DERIVED.get(tr.split('<')[0], ())]
                nm = c[0] if len(c) == 1 else None
            if nm:
                return nm, s.c.fns[nm][0]
            return None
        if n0 in s.c.fns and len(s.c.fns[n0]) == 1:
            return n0, s.c.fns[n0][0]
        p = n0.split('::')
        if p[0] in ('std', 'core', 'anchor_lang', 'anchor_spl', 'alloc', 'decimal'):
            return None
        c = s.c.tail.get('::'.join(p[-2:]), [])
        if len(c) == 1:
            return c[0], s.c.fns[c[0]][0]
        return None

    def call_fn(s, st, fn, vals, dty=None):
        if fn in s.contracts:
            return s.contracts[fn](s, st, vals)
        loc = s.find_local(fn)
        if loc and loc[0] in s.contracts:
            s.note(loc[0], 'contract')
            return s.contracts[loc[0]](s, st, vals)
        if loc and not s.lib.overrides(loc[0]):
            s.note(loc[0], 'inlined')
            return s.run(s.c.body_at(loc[1], loc[0]), vals, st)
        r = s.lib.call(s, st, fn, vals, dty)
        if r is None:
            raise Unsupported('call ' + fn[:200])
        return r

    def call_value(s, st, f, args):
        """call a closure value or function item with a list of arguments"""
        if isinstance(f, VClo):
            l = s.c.closures.get(f.loc)
            if not l:
                raise Unsupported('closure ' + f.loc)
            best = None
            for nm, line in l:
                b = s.c.body_at(line, nm)
                if len(b.params) == len(args) + 1 or (len(b.params) >= 1):
                    best = (nm, b)
                    break
            nm, b = best
            ty = b.locals[b.params[0]]
            if ty.startswith('&'):
                c = s.new_cell(st, f)
                selfv = VRef(c)
            else:
                selfv = f
            n = len(b.params) - 1
            if n != len(args):
                raise Unsupported('closure arity')
            s.note(nm, 'inlined')
            return s.run(b, [selfv] + args, st)
        if isinstance(f, VFn):
            return s.call_fn(st, f.path, args)
        if isinstance(f, (VRef, VSel)):
            return s.call_value(st, s.load(st, f), args)
        raise Unsupported('call of %s' % type(f).__name__)

    def call_pure(s, st, f, args):
        """one merged outcome; the state is updated in place"""
        outs = s.call_value(st.fork(), f, args)
        outs = merge_forced(outs)
        if outs is None:
            raise Unsupported('closure outcomes cannot be merged')
        if not outs:
            return None
        n, v = outs
        st.cells, st.pc, st.w = n.cells, n.pc, n.w
        return v


def merge_forced(outs):
    """merge all outcomes into one, including Ok with Err"""
    if not outs:
        return None
    st, v = outs[0]
    for s2, v2 in outs[1:]:
        a, b = st, s2
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or (isz(a.pc[n]) and isz(b.pc[n]) and a.pc[n].eq(b.pc[n]))):
            n += 1
        g = And(*a.pc[n:])
        try:
            nv = vmerge(g, v, v2)
        except NoMerge:
            return None
        st.cells.pop('$ret', None)
        m = merge_states(a, b)
        if m is None:
            return None
        st, v = m, nv
    return st, v
