"""Contracts of everything the two programs call but do not define: std, anchor, solana, spl-token
and the decimal crate.  These are assumed contracts; every one that is used in a proof is recorded
in Exec.assumed and reported as evidence."""
import re, zlib
import z3
from val import *
from mir import Unsupported, strip_generics, short, split_top
from sym import State, merge_states, merge_forced, Skip, INTW, VARIANTS
from types_ import Types, EXTERN

WAD = 10 ** 18
U64M = (1 << 64) - 1
M192 = (1 << 192) - 1
ERR = VOp('err')


def some(x):
    return VE('Option', 1, {1: [x], 0: []})


NONE = VE('Option', 0, {0: []})


def ok(x):
    return VE('Result', 0, {0: [x]})


def err(x=ERR):
    return VE('Result', 1, {1: [x]})


def option(c, x):
    if c is True:
        return some(x)
    if c is False:
        return NONE
    return VE('Option', ite(c, 1, 0), {1: [x], 0: []})


def result(c, x):
    if c is True:
        return ok(x)
    if c is False:
        return err()
    return VE('Result', ite(c, 0, 1), {0: [x], 1: [ERR]})


CONST_NAMES = {}


def const_id(name):
    """distinct integers for named constants, above every other address;
    the system program's address is the default key, zero"""
    if not name.startswith(('b"', 'str:')):
        if 'system_program' in name or name == 'program:System':
            CONST_NAMES[0] = 'program:System'
            return 0
        if 'spl_token' in name or re.search(r'(^|::)token::ID$', name):
            name = 'program:Token'
        if name in ('ID', 'crate::ID'):
            name = 'self'
    CONST_NAMES[const_num(name)] = name
    return const_num(name)


def const_num(name):
    return (1 << 255) + zlib.crc32(name.encode()) + (len(name) << 32)


class Ev:
    """ghost event: something observable the instruction did"""
    __slots__ = ('k', 'g', 'a')

    def __init__(s, k, g, a):
        s.k, s.g, s.a = k, g, a

    def guarded(s, c):
        return Ev(s.k, And(s.g, c), s.a)

    def __getattr__(s, n):
        try:
            return s.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(s):
        return 'Ev(%s %r)' % (s.k, s.a)


class Ring:
    """sequence given by a length (None: unbounded) and an element function"""

    def __init__(s, n, elem):
        s.n, s.elem = n, elem


class Lib:
    # crate functions that only build error values
    OVERRIDE = re.compile(r'(^|::)err::(acc|arg|\w+)$|^err::')

    def __init__(s, crate, T, consts):
        s.crate = crate
        s.T = T
        s.consts = consts
        s.types = Types(crate.name, T, s.array_len)
        crate.enums = dict(s.types.enums)
        vs = {}
        for en, d in s.types.enums.items():
            for k, i in d.items():
                if k in vs and vs[k] != i:
                    vs[k] = None
                else:
                    vs.setdefault(k, i)
        crate.variants = {k: v for k, v in vs.items() if v is not None}
        s.enumvariants = vs
        s.pdafn = {}
        s.pdas = {}
        s.seen = []
        s.noquery = set()
        s.clock = z3.Int('now')
        T.bound(s.clock, 0, U64M)
        s.accs = []            # (type, info, value or cell) in try_accounts order
        s.mapkeys = None
        I = z3.IntSort()
        s.lam = z3.Function('lamports', I, I)
        s.uf_owner = z3.Function('acc_owner', I, I)
        s.trace = set()

    # -------------------------------------------------- constants
    def array_len(s, t):
        t = t.strip()
        m = re.match(r'(\d+)(_usize)?$', t)
        if m:
            return int(m.group(1))
        n = t.split('::')[-1]
        if n in s.consts:
            return s.consts[n]
        raise Unsupported('array length ' + t)

    def const_value(s, ex, t, lit):
        u = strip_generics(t)
        n = u.split('::')[-1]
        if n in ('U64_MAX',) or u in ('std::u64::MAX', 'core::u64::MAX', 'u64::MAX'):
            return U64M
        if u == 'TokenAccount::LEN':
            return 165
        if u == 'Mint::LEN':
            return 82
        if t.endswith('program_id') or n in ('ID',):
            return const_id(u)
        m = re.match(r'std::mem::SizedTypeProperties|<.* as .*>::', t)
        if u.startswith(('std::ops::RangeFull', 'RangeFull')):
            return VS('RangeFull', [])
        if lit and 'ErrorCode' in lit or 'ErrorCode' in t or 'FarmingError' in t or 'AmmError' in t:
            return VOp('err')
        if lit and re.search(r'val: (Value\(|Unevaluated)', lit) and t.startswith('b"'):
            return VBytes([s.bytes_term(t)])
        return None

    def bytes_term(s, t):
        return const_id(t)

    def limbs(s, va):
        raw = 0
        e = va.e
        if all(isinstance(x, int) for x in e):
            return VLimbs(e[0] + (e[1] << 64) + (e[2] << 128))
        # limbs of one value put together again?
        return VLimbs(zi(e[0]) + zi(e[1]) * (1 << 64) + zi(e[2]) * (1 << 128))

    def big_shape(s, v):
        if isinstance(v, VS):
            return s.types.shape(v.n)
        raise Unsupported('long array of %s' % type(v).__name__)

    def overrides(s, name):
        if re.search(r'^err::(acc|arg)$|::err::(acc|arg)$', name):
            return True
        if name in ('err::acc', 'err::arg'):
            return True
        if re.search(r'as (From|std::convert::From)<.*(FarmingError|AmmError).*>>::from$', name):
            return True
        if 'FarmingError' in name and ('From' in name or 'Into' in name or 'name' in name or 'to_string' in name or 'fmt' in name):
            return True
        if 'AmmError' in name and ('From' in name or 'Into' in name or 'name' in name or 'fmt' in name):
            return True
        if name.startswith('<instruction::') or name.startswith('<__private::__idl'):
            return True
        return False

    # -------------------------------------------------- dispatch
    def call(s, ex, st, fn, vals, dty):
        r = s._call(ex, st, fn, vals, dty)
        if r is not None:
            ex.assumed.add(s.label(fn))
        return r

    @staticmethod
    def label(fn):
        n = re.sub(r"<'\w+(?:, ?'\w+)*>", '', fn)
        m = re.match(r'<(.*) as ([^>]*(?:<.*>)?)>::(\w+)(::<.*>)?$', n)
        if m:
            return '%s::%s' % (short(m.group(2)).split('<')[0], m.group(3))
        p = strip_generics(n).split('::')
        return '::'.join([x for x in p if x][-2:])

    def _call(s, ex, st, fn, vals, dty):
        n = re.sub(r"<'\w+(?:, ?'\w+)*>", '', fn)
        m = re.match(r'<(.*) as ([^>]*(?:<.*>)?)>::(\w+)(::<.*>)?$', n)
        if m:
            ty, tr, me = m.group(1), short(m.group(2)), m.group(3)
            trn = tr.split('<')[0]
            h = getattr(s, 't_%s_%s' % (trn, me), None) or getattr(s, 't_%s' % trn, None)
            if h is None:
                return None
            return s.wrapup(st, h(ex, st, ty, me, vals, dty, fn))
        p = [x for x in strip_generics(n).split('::') if x]
        if p and p[-1].startswith('<impl'):
            return None
        # core::num::<impl u64>::checked_add / core::slice::<impl [T]>::iter
        mm = re.match(r'core::num::<impl (\w+)>::(\w+)$', n)
        if mm:
            return s.wrapup(st, s.num(ex, st, mm.group(1), mm.group(2), vals))
        mm = re.match(r'core::num::<impl (\w+)>::(\w+)::', n)
        p = [x for x in p if not x.startswith('<impl')]
        me = p[-1]
        own = p[-2] if len(p) > 1 else ''
        if me == '<impl':
            return None
        h = getattr(s, 'f_%s_%s' % (own, me), None)
        if h is None:
            h = getattr(s, 'g_' + me, None)
        if h is None:
            return None
        return s.wrapup(st, h(ex, st, fn, vals, dty))

    @staticmethod
    def wrapup(st, r):
        if r is None:
            return None
        if isinstance(r, list):
            return r
        return [(st, r)]

    def diverge(s):
        return []

    # -------------------------------------------------- helpers
    def deref(s, ex, st, v):
        while isinstance(v, (VRef, VSel, VSlice)):
            v = ex.load(st, v)
        return v

    def scalar(s, ex, st, v):
        """order key of a value: the only scalar in it"""
        v = s.deref(ex, st, v)
        while True:
            if isinstance(v, VS) and len(v.f) == 1:
                v = v.f[0]
            elif isinstance(v, VLimbs):
                return v.raw
            elif isscalar(v):
                return v
            else:
                raise Unsupported('comparison of %s' % type(v).__name__)

    def bytes_of(s, ex, st, v):
        if isinstance(v, VSlice):
            v = s.deref_slice(ex, st, v)
        if isinstance(v, (VRef, VSel)):
            v = ex.load(st, v)
            return s.bytes_of(ex, st, v)
        if isinstance(v, VBytes):
            return list(v.t)
        if isinstance(v, VA):
            return [x for x in v.e]
        if isscalar(v):
            return [v]
        raise Unsupported('bytes of %s' % type(v).__name__)

    def deref_slice(s, ex, st, v):
        b = v.b
        base = ex.load(st, b)
        if isinstance(base, VBytes):
            return base
        return ex.load(st, v)

    def seeds_of(s, ex, st, v):
        v = ex.load(st, v) if isinstance(v, (VRef, VSel, VSlice)) else v
        if isinstance(v, (VRef, VSlice)):
            return s.seeds_of(ex, st, v)
        if not isinstance(v, VA):
            raise Unsupported('seeds')
        out = []
        for e in v.e:
            out += s.bytes_of(ex, st, e)
        return out

    def pda(s, seeds):
        """program derived address of seeds without bump; injective by assumption"""
        n = len(seeds)
        I = z3.IntSort()
        if n not in s.pdafn:
            s.pdafn[n] = (z3.Function('pda%d' % n, *([I] * n + [I])), [z3.Function('pda%d_inv%d' % (n, i), I, I) for i in range(n)],
                          z3.Function('bump%d' % n, *([I] * n + [I])))
        f, inv, bf = s.pdafn[n]
        a = [zi(x) for x in seeds]
        k = f(*a)
        s.pdas[k.get_id()] = (k, a)
        ar = z3.Function('pda_arity', I, I)
        s.T.fact(k, k > 0)
        s.T.fact(k, ar(k) == n)
        for i in range(n):
            s.T.fact(k, inv[i](k) == a[i])
        b = bf(*a)
        s.T.bound(b, 0, 255)
        return k, b

    def pda_with_bump(s, seeds):
        """address signed for by seeds whose last element is the bump"""
        k, b = s.pda(seeds[:-1])
        last = zi(seeds[-1])
        if isz(last) and last.eq(b):
            return k
        other = s.T.fresh('pda_other', 1)
        return z3.If(last == b, k, other)

    # -------------------------------------------------- guarded evaluation of closures
    def under(s, ex, st, g, f, args):
        """value of f(args) evaluated only where g holds; the state is updated in place"""
        if g is False:
            return None
        n0 = st.fork()
        if g is not True:
            n0.assume(g)
        base = len(n0.pc)
        outs = ex.call_value(n0, f, args)
        o = merge_forced(outs)
        if o is None:
            if not outs:
                # the closure never returns under g
                if g is True:
                    st.assume(False)
                else:
                    st.assume(Not(g))
                return None
            raise Unsupported('closure outcomes cannot be merged')
        n, v = o
        extra = n.pc[base:]
        for k, x in n.cells.items():
            y = st.cells.get(k)
            if y is x:
                continue
            if k not in st.cells or g is True:
                st.cells[k] = x
            else:
                st.cells[k] = vmerge(g, x, y)
        for k, x in n.w.items():
            if st.w.get(k, ()) is not x:
                from sym import wmerge
                st.w[k] = x if g is True else wmerge(g, x, st.w.get(k, ()))
        for c in extra:
            st.assume(Implies(g, c))
        return v

    # -------------------------------------------------- sequences
    def items(s, ex, st, it):
        """iterator or collection value -> [(guard, value)]"""
        if isinstance(it, (VRef, VSel)):
            v = ex.load(st, it)
            if isinstance(v, (VIter, Ring)):
                return s.items(ex, st, v)
            return s.items(ex, st, s.iter_of(ex, st, it))
        if isinstance(it, VSlice):
            return s.items(ex, st, s.iter_of(ex, st, it))
        if isinstance(it, (VVec, VMap, VA)):
            return s.items(ex, st, s.into_iter(ex, st, it))
        if isinstance(it, Ring):
            raise Unsupported('materialising a long sequence')
        if isinstance(it, VE) and it.n == 'Option':
            return [(eqt(it.d, 1), it.p[1][0])] if 1 in it.p else []
        if isinstance(it, VS) and it.n in ('Range', 'RangeInclusive'):
            lo, hi = it.f[0], it.f[1]
            if isinstance(lo, int) and isinstance(hi, int):
                return [(True, i) for i in range(lo, hi + (it.n == 'RangeInclusive'))]
            if isinstance(lo, int) and not isinstance(hi, int):
                r = check(s.T, st.pc + [hi > lo + 24], timeout=500)
                if r == 'unsat':
                    return [(hi > i if it.n == 'Range' else hi >= i, i) for i in range(lo, lo + 25)]
            raise Unsupported('symbolic range')
        if not isinstance(it, VIter):
            raise Unsupported('iteration over %s' % type(it).__name__)
        k, a = it.k, it.a
        if k == 'seq':
            return a[0][a[1]:]
        if k == 'map':
            out = []
            for g, v in s.items(ex, st, a[0]):
                r = s.under(ex, st, g, a[1], [v])
                if r is not None:
                    out.append((g, r))
            return out
        if k == 'filter':
            out = []
            for g, v in s.items(ex, st, a[0]):
                c = ex.new_cell(st, v)
                r = s.under(ex, st, g, a[1], [VRef(c)])
                if r is not None:
                    out.append((And(g, r), v))
            return out
        if k == 'filter_map':
            out = []
            for g, v in s.items(ex, st, a[0]):
                r = s.under(ex, st, g, a[1], [v])
                if r is not None and 1 in r.p:
                    out.append((And(g, eqt(r.d, 1)), r.p[1][0]))
            return out
        if k == 'chain':
            return s.items(ex, st, a[0]) + s.items(ex, st, a[1])
        if k == 'rev':
            return list(reversed(s.items(ex, st, a[0])))
        if k == 'enumerate':
            out, cnt = [], 0
            for g, v in s.items(ex, st, a[0]):
                out.append((g, VS('', [cnt, v])))
                cnt = cnt + 1 if g is True and isinstance(cnt, int) else (cnt if g is False else zi(cnt) + (1 if g is True else z3.If(g, 1, 0)))
            return out
        if k == 'zip':
            x, y = s.items(ex, st, a[0]), s.items(ex, st, a[1])
            if any(g is not True for g, _ in x + y):
                raise Unsupported('zip of guarded sequences')
            return [(True, VS('', [p, q])) for (_, p), (_, q) in zip(x, y)]
        if k == 'flatten':
            out = []
            for g, v in s.items(ex, st, a[0]):
                for h, w in s.items(ex, st, v):
                    out.append((And(g, h), w))
            return out
        if k == 'copied':
            return [(g, s.deref1(ex, st, v)) for g, v in s.items(ex, st, a[0])]
        if k == 'take':
            n = a[1]
            inner = a[0]
            return s.take(ex, st, inner, n)
        if k == 'skip':
            x = s.items(ex, st, a[0])
            if isinstance(a[1], int) and all(g is True for g, _ in x[:a[1]]):
                return x[a[1]:]
            raise Unsupported('skip on guarded sequence')
        if k == 'skip_while':
            out, skipping = [], True
            for g, v in s.items(ex, st, a[0]):
                c = ex.new_cell(st, v)
                r = s.under(ex, st, g, a[1], [VRef(c)])
                skipping = And(skipping, Implies(g, r))
                out.append((And(g, Not(skipping)), v))
            return out
        if k == 'take_while':
            out, going = [], True
            for g, v in s.items(ex, st, a[0]):
                c = ex.new_cell(st, v)
                r = s.under(ex, st, And(g, going), a[1], [VRef(c)])
                going = And(going, Implies(g, r))
                out.append((And(g, going), v))
            return out
        if k in ('repeat', 'repeat_with'):
            raise Unsupported('endless sequence')
        raise Unsupported('iterator ' + k)

    def deref1(s, ex, st, v):
        return ex.load(st, v)

    def take(s, ex, st, inner, n):
        if not isinstance(n, int):
            raise Unsupported('take of symbolic length')
        head, tail = inner, None
        if isinstance(inner, VIter) and inner.k == 'repeat':
            return [(True, inner.a[0])] * n
        if isinstance(inner, VIter) and inner.k == 'repeat_with':
            v = s.under(ex, st, True, inner.a[0], [])
            return [(True, v)] * n
        if isinstance(inner, VIter) and inner.k == 'chain' and isinstance(inner.a[1], VIter) and inner.a[1].k in ('repeat', 'repeat_with'):
            head = inner.a[0]
            tail = inner.a[1].a[0] if inner.a[1].k == 'repeat' else s.under(ex, st, True, inner.a[1].a[0], [])
            l = s.items(ex, st, head)
            out = [tail] * n
            for g, v in reversed(l):
                sh = ([v] + out)[:n]
                out = sh if g is True else [vmerge(g, x, y) for x, y in zip(sh, out)]
            return [(True, v) for v in out]
        l = s.items(ex, st, head)
        if all(g is True for g, _ in l):
            return l[:n]
        # the first n present elements
        out, cnt = [], 0
        for j, (g, v) in enumerate(l):
            out.append((And(g, True if j < n else zi(cnt) < n), v))
            cnt = zi(cnt) + (1 if g is True else 0 if g is False else z3.If(g, 1, 0))
        return out

    def iter_of(s, ex, st, r, mut=False):
        """.iter() of a reference to a collection"""
        if isinstance(r, VSlice):
            base = ex.load(st, r.b)
            if isinstance(base, VBytes):
                raise Unsupported('iteration over bytes')
            if isinstance(r.n, int) and isinstance(r.s, int) and not isinstance(base, VBig):
                if isinstance(base, VVec):
                    if r.s == 0 and r.n == len(base.i):
                        return VIter('seq', [(base.i[i][0], ex.ext(r.b, ('e', i))) for i in range(r.n)], 0)
                    if any(g is not True for g, _ in base.i[:r.s + r.n]):
                        raise Unsupported('slice of guarded vector')
                return VIter('seq', [(True, ex.ext(r.b, ('i', r.s + i))) for i in range(r.n)], 0)
            if isinstance(base, (VBig,)):
                b = r
                return Ring(r.n, lambda ex, st, j: ex.ext(b, ('i', j)))
            # symbolic length over a known array
            if isinstance(r.s, int) and isinstance(base, VA):
                return VIter('seq', [(zi(r.n) > i, ex.ext(r.b, ('i', r.s + i))) for i in range(len(base.e) - r.s)], 0)
            raise Unsupported('symbolic slice')
        v = ex.load(st, r)
        if isinstance(v, (VRef, VSel, VSlice)):
            return s.iter_of(ex, st, v)
        if isinstance(v, VA):
            return VIter('seq', [(True, ex.ext(r, ('i', i))) for i in range(len(v.e))], 0)
        if isinstance(v, VVec):
            return VIter('seq', [(g, ex.ext(r, ('e', i))) for i, (g, _) in enumerate(v.i)], 0)
        if isinstance(v, VMap):
            return VIter('seq', [(g, VS('', [ex.ext(r, ('k', i)), ex.ext(r, ('m', i))])) for i, (g, _, _) in enumerate(v.i)], 0)
        if isinstance(v, VBig):
            return Ring(v.n, lambda ex, st, j: ex.ext(r, ('i', j)))
        if isinstance(v, (VIter, Ring)):
            return v
        if isinstance(v, VE) and v.n == 'Option':
            return VIter('seq', [(eqt(v.d, 1), ex.ext(r, ('p', 1, 0)))] if 1 in v.p else [], 0)
        raise Unsupported('iter of %s' % type(v).__name__)

    def into_iter(s, ex, st, v):
        if isinstance(v, (VIter, Ring)):
            return v
        if isinstance(v, (VRef, VSel, VSlice)):
            if not isinstance(v, VSlice):
                w = ex.load(st, v)
                if isinstance(w, (VIter, Ring)):
                    return v          # &mut iterator
            return s.iter_of(ex, st, v)
        if isinstance(v, VVec):
            return VIter('seq', list(v.i), 0)
        if isinstance(v, VA):
            return VIter('seq', [(True, x) for x in v.e], 0)
        if isinstance(v, VMap):
            if s.isset(v):
                return VIter('seq', [(g, k) for g, k, _ in v.i], 0)
            return VIter('seq', [(g, VS('', [k, x])) for g, k, x in v.i], 0)
        if isinstance(v, VS) and v.n in ('Range', 'RangeInclusive'):
            return v
        if isinstance(v, VE) and v.n == 'Option':
            return VIter('seq', s.items(ex, st, v), 0)
        raise Unsupported('into_iter of %r' % (v,))

    @staticmethod
    def isset(v):
        return bool(v.i) and v.i[0][2] is UNIT

    # ---- Iterator methods
    def t_IntoIterator_into_iter(s, ex, st, ty, me, a, dty, fn):
        return s.into_iter(ex, st, a[0])

    def t_Iterator(s, ex, st, ty, me, a, dty, fn):
        h = getattr(s, 'it_' + me, None)
        if h is None:
            return None
        return h(ex, st, a, dty, fn)

    t_DoubleEndedIterator = t_ExactSizeIterator = t_Iterator

    @staticmethod
    def adapt(kind):
        def f(s, ex, st, a, dty, fn):
            return VIter(kind, *a)
        return f

    def it_map(s, ex, st, a, dty, fn):
        it = a[0]
        if isinstance(it, Ring):
            f = a[1]

            def elem(ex, st, j):
                return s.under(ex, st, True, f, [it.elem(ex, st, j)])
            return Ring(it.n, elem)
        return VIter('map', *a)

    def it_filter(s, ex, st, a, dty, fn):
        if isinstance(a[0], Ring) or (isinstance(a[0], VIter) and a[0].k == 'ringf'):
            return VIter('ringf', a[0], ('filter', a[1]))
        return VIter('filter', *a)

    def it_filter_map(s, ex, st, a, dty, fn):
        return VIter('filter_map', *a)

    def it_chain(s, ex, st, a, dty, fn):
        return VIter('chain', a[0], s.into_iter(ex, st, a[1]))

    def it_zip(s, ex, st, a, dty, fn):
        return VIter('zip', a[0], s.into_iter(ex, st, a[1]))

    def it_rev(s, ex, st, a, dty, fn):
        it = a[0]
        if isinstance(it, Ring):
            n = it.n
            return Ring(n, lambda ex, st, j: it.elem(ex, st, n - 1 - j))
        return VIter('rev', it)

    def it_enumerate(s, ex, st, a, dty, fn):
        it = a[0]
        if isinstance(it, Ring):
            return Ring(it.n, lambda ex, st, j: VS('', [j, it.elem(ex, st, j)]))
        return VIter('enumerate', it)

    def it_cycle(s, ex, st, a, dty, fn):
        it = a[0]
        if isinstance(it, Ring):
            n = it.n
            # a position below 2n is reduced by one subtraction, which is what every use here needs
            def elem(ex, st, j):
                if isinstance(j, int):
                    return it.elem(ex, st, j % n)
                return it.elem(ex, st, z3.If(j < n, j, z3.If(j < 2 * n, j - n, j % n)))
            return Ring(None, elem)
        raise Unsupported('cycle')

    def it_skip(s, ex, st, a, dty, fn):
        it, k = a
        if isinstance(it, Ring):
            n = None if it.n is None else (max(0, it.n - k) if isinstance(k, int) and isinstance(it.n, int) else z3.If(zi(it.n) > k, zi(it.n) - k, 0))
            return Ring(n, lambda ex, st, j: it.elem(ex, st, ex.add(j, k)))
        return VIter('skip', it, k)

    def it_take(s, ex, st, a, dty, fn):
        it, k = a
        if isinstance(it, Ring):
            if it.n is None:
                n = k
            elif isinstance(k, int) and isinstance(it.n, int):
                n = min(k, it.n)
            else:
                n = z3.If(zi(it.n) < k, zi(it.n), zi(k))
            return Ring(n, it.elem)
        return VIter('take', it, k)

    def it_skip_while(s, ex, st, a, dty, fn):
        if isinstance(a[0], Ring) or (isinstance(a[0], VIter) and a[0].k == 'ringf'):
            return VIter('ringf', a[0], ('skip_while', a[1]))
        return VIter('skip_while', *a)

    def it_take_while(s, ex, st, a, dty, fn):
        return VIter('take_while', *a)

    def it_flatten(s, ex, st, a, dty, fn):
        return VIter('flatten', a[0])

    def it_flat_map(s, ex, st, a, dty, fn):
        return VIter('flatten', VIter('map', a[0], a[1]))

    def it_copied(s, ex, st, a, dty, fn):
        it = a[0]
        if isinstance(it, Ring):
            return Ring(it.n, lambda ex, st, j: ex.load(st, it.elem(ex, st, j)))
        return VIter('copied', it)

    it_cloned = it_copied

    def it_peekable(s, ex, st, a, dty, fn):
        return a[0]

    def it_by_ref(s, ex, st, a, dty, fn):
        return a[0]

    def it_next(s, ex, st, a, dty, fn):
        r = a[0]
        it = ex.load(st, r)
        if isinstance(it, (VRef, VSel)):
            return s.it_next(ex, st, [it], dty, fn)
        if isinstance(it, VS) and it.n in ('Range',):
            lo, hi = it.f
            if isinstance(lo, int) and isinstance(hi, int):
                if lo < hi:
                    ex.store(st, r, VS(it.n, [lo + 1, hi]))
                    return some(lo)
                return NONE
            if isinstance(lo, int):
                ex.store(st, r, VS(it.n, [lo + 1, hi]))
                return option(hi > lo, lo)
            raise Unsupported('symbolic range')
        if isinstance(it, Ring) or (isinstance(it, VIter) and it.k == 'ringf'):
            raise Unsupported('loop over a long sequence without contract')
        if isinstance(it, VS) and it.n == 'AbsIter' or isinstance(it, VIter) and it.k == 'filter' and isinstance(it.a[0], VS) and it.a[0].n == 'AbsIter':
            return s.abs_next(ex, st, r, it)
        if not (isinstance(it, VIter) and it.k == 'seq'):
            it = VIter('seq', s.items(ex, st, it), 0)
        l, p = it.a
        while p < len(l) and l[p][0] is False:
            p += 1
        if p >= len(l):
            ex.store(st, r, VIter('seq', l, p))
            return NONE
        g, v = l[p]
        ex.store(st, r, VIter('seq', l, p + 1))
        if g is True:
            return some(v)
        a1 = ex.feasible(st, g)
        a2 = ex.feasible(st, Not(g))
        if not a2:
            return some(v)
        s2 = st.fork()
        outs = []
        if a1:
            outs.append((st, some(v)))
            st.assume(g)
        s2.assume(Not(g))
        outs.append((s2, Skip))
        raise Skip(outs)

    def abs_next(s, ex, st, r, it):
        """next element of the abstract sequence of snapshots"""
        base = it.a[0] if isinstance(it, VIter) else it
        w, ws = base.f[0], s.windows
        for f in ws.known(w):
            st.assume(f)
        end = st.fork()
        end.assume(w >= ws.N)
        st.assume(w < ws.N)
        v = VRef(ex.new_cell(st, ws.elem(w)))
        nx = VS('AbsIter', [w + 1])
        keep = True if not isinstance(it, VIter) else s.under(ex, st, True, it.a[1], [VRef(ex.new_cell(st, v))])
        ex.store(st, r, VIter('filter', nx, it.a[1]) if isinstance(it, VIter) else nx)
        outs = [(end, NONE)]
        if keep is not False:
            s1 = st.fork()
            s1.assume(keep)
            outs.append((s1, some(v)))
        if keep is not True:
            st.assume(Not(keep))
            outs.append((st, Skip))
        raise Skip(outs)

    def abs_top(s, ex, st, r):
        """the last range of an abstract history"""
        v = ex.load(st, r)
        h = s.histories[v.f[0]]
        k = v.f[1] - 1
        for f in h.known(k):
            st.assume(f)
        return v, option(v.f[1] > 0, h.elem(k))

    def is_abs(s, ex, st, r):
        if isinstance(r, (VRef, VSel)):
            v = ex.load(st, r)
            return isinstance(v, VS) and v.n == 'AbsVec'
        return False

    def it_any(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0]
        out = []
        for g, v in s.items(ex, st, it):
            r = s.under(ex, st, g, a[1], [v])
            if r is not None:
                out.append(And(g, r))
        return Or(*out)

    def it_all(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0]
        out = []
        for g, v in s.items(ex, st, it):
            r = s.under(ex, st, g, a[1], [v])
            if r is not None:
                out.append(Implies(g, r))
        return And(*out)

    def first(s, ex, st, l):
        """Option of the first present item of a guarded list"""
        none = True
        alts = []
        for g, v in l:
            h = And(none, g)
            if h is not False:
                alts.append((h, v))
            none = And(none, Not(g))
        if not alts:
            return NONE
        return option(Not(none), s.select(alts))

    def select(s, alts):
        if all(isinstance(v, (VRef, VSel)) for _, v in alts):
            out = []
            for g, v in alts:
                for h, q in alts_of(v):
                    out.append((And(g, h), q))
            return out[0][1] if len(out) == 1 and False else VSel(norm_alts(out))
        r = alts[-1][1]
        for g, v in reversed(alts[:-1]):
            r = vmerge(g, v, r)
        return r

    def it_find(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0]
        if isinstance(it, Ring):
            return s.ring_find(ex, st, it, a[1])
        out = []
        for g, v in s.items(ex, st, it):
            c = ex.new_cell(st, v)
            r = s.under(ex, st, g, a[1], [VRef(c)])
            if r is not None:
                out.append((And(g, r), v))
        return s.first(ex, st, out)

    def it_position(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0]
        if isinstance(it, Ring):
            f = a[1]
            o = s.ring_find(ex, st, Ring(it.n, lambda ex, st, j: VS('', [j, it.elem(ex, st, j)])), None,
                            lambda ex, st, v: s.under(ex, st, True, f, [v.f[1]]))
            return VE('Option', o.d, {1: [o.p[1][0].f[0]] if 1 in o.p else [], 0: []})
        out, cnt = [], 0
        for g, v in s.items(ex, st, it):
            r = s.under(ex, st, g, a[1], [v])
            out.append((And(g, r), cnt))
            cnt = cnt + 1 if g is True and isinstance(cnt, int) else zi(cnt) + (1 if g is True else z3.If(g, 1, 0))
        return s.first(ex, st, out)

    def ring_find(s, ex, st, it, pred, predf=None):
        """first position of a long sequence whose element satisfies the predicate"""
        if it.n is None:
            raise Unsupported('find on an endless sequence')
        j = s.T.fresh('at', 0)
        i = z3.Int('i!%d' % next(s.T.n))
        n = zi(it.n)

        def P(k):
            t = st.fork()
            v = it.elem(ex, t, k)
            base = len(t.pc)
            if predf:
                r = predf(ex, t, v)
            else:
                c = ex.new_cell(t, v)
                r = s.under(ex, t, True, pred, [VRef(c)])
            if len(t.pc) != base:
                raise Unsupported('partial predicate')
            return zb(r)
        found = s.T.freshb('found')
        pj = P(j)
        pi = P(i)
        s.T.fact(j, z3.Implies(found, z3.And(j >= 0, j < n, pj)))
        q = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, z3.Or(z3.Not(found), i < j)), z3.Not(pi)))
        s.T.fact(found, q)
        s.T.fact(j, q)
        s.T.inst += [j, j - 1]
        v = it.elem(ex, st, j)
        return VE('Option', z3.If(found, 1, 0), {1: [v], 0: []})

    def it_find_map(s, ex, st, a, dty, fn):
        return s.first(ex, st, s.items(ex, st, VIter('filter_map', *[ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0], a[1]])))

    def it_count(s, ex, st, a, dty, fn):
        l = s.items(ex, st, a[0])
        return s.total([ite(g, 1, 0) for g, _ in l])

    @staticmethod
    def total(l):
        c = sum(x for x in l if isinstance(x, int))
        r = [x for x in l if not isinstance(x, int)]
        if not r:
            return c
        return z3.Sum(r + ([z3.IntVal(c)] if c else []))

    def best(s, ex, st, a, better):
        l = s.items(ex, st, a[0])
        if not l:
            return NONE
        alts, cur = [], None
        some_ = False
        for g, v in l:
            k = s.scalar(ex, st, v)
            take = g if cur is None else And(g, Or(Not(some_), better(k, cur)))
            alts = [(And(h, Not(take)), w) for h, w in alts] + [(take, v)]
            cur = k if cur is None else ite(take, k, cur)
            some_ = Or(some_, g)
        return option(some_, s.select([(g, v) for g, v in alts if g is not False]))

    def it_min(s, ex, st, a, dty, fn):
        return s.best(ex, st, a, lambda k, c: k < c)

    def it_max(s, ex, st, a, dty, fn):
        return s.best(ex, st, a, lambda k, c: k >= c)

    def it_min_by_key(s, ex, st, a, dty, fn):
        return None

    def it_sum(s, ex, st, a, dty, fn):
        l = s.items(ex, st, a[0])
        t = s.total([ite(g, s.scalar(ex, st, v), 0) for g, v in l])
        if not isinstance(t, int):
            st.assume(t <= U64M)
        return t

    def it_last(s, ex, st, a, dty, fn):
        return s.first(ex, st, list(reversed(s.items(ex, st, a[0]))))

    def it_nth(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0])
        l = s.items(ex, st, it)
        if isinstance(a[1], int) and all(g is True for g, _ in l):
            ex.store(st, a[0], VIter('seq', l, a[1] + 1))
            return some(l[a[1]][1]) if a[1] < len(l) else NONE
        return None

    def it_fold(s, ex, st, a, dty, fn):
        acc = a[1]
        for g, v in s.items(ex, st, a[0]):
            r = s.under(ex, st, g, a[2], [acc, v])
            acc = acc if r is None else vmerge(g, r, acc)
        return acc

    def it_try_fold(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0]
        acc = a[1]
        good = True
        for g, v in s.items(ex, st, it):
            r = s.under(ex, st, And(g, good), a[2], [acc, v])
            if r is None:
                continue
            isok = eqt(r.d, 0) if r.n == 'Result' else eqt(r.d, 1)
            pay = r.p[0 if r.n == 'Result' else 1][0] if (0 if r.n == 'Result' else 1) in r.p else None
            if pay is not None:
                acc = vmerge(g, pay, acc)
            good = And(good, Implies(g, isok))
        if 'Option<' in (dty or '')[:25]:
            return option(good, acc)
        return result(good, acc)

    def it_for_each(s, ex, st, a, dty, fn):
        for g, v in s.items(ex, st, a[0]):
            s.under(ex, st, g, a[1], [v])
        return UNIT

    def it_try_for_each(s, ex, st, a, dty, fn):
        it = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else a[0]
        good = True
        for g, v in s.items(ex, st, it):
            r = s.under(ex, st, And(g, good), a[1], [v])
            good = And(good, Implies(g, eqt(r.d, 0)))
        return result(good, UNIT)

    def it_collect(s, ex, st, a, dty, fn):
        m = re.search(r'::collect::<(.*)>$', fn)
        tgt = short(m.group(1)) if m else ''
        l = s.items(ex, st, a[0])
        m2 = re.match(r'(?:Result|Option)<(.*)$', tgt)
        if m2:
            good, out = True, []
            isres = tgt.startswith('Result')
            kk = 0 if isres else 1
            for g, v in l:
                okv = eqt(v.d, kk)
                if kk in v.p:
                    out.append((g, v.p[kk][0]))
                good = And(good, Implies(g, okv))
            inner = s.build(ex, st, m2.group(1), out)
            return result(good, inner) if isres else option(good, inner)
        return s.build(ex, st, tgt, l)

    def named(s, v):
        """numbers of a collected value, by name"""
        if isinstance(v, VS) and v.n == 'Decimal':
            return v
        if isinstance(v, VS) and len(v.f) == 1 and isz(v.f[0]) and z3.is_int(v.f[0]):
            return VS(v.n, [s.T.name(v.f[0])])
        return v

    def build(s, ex, st, tgt, l):
        if tgt.startswith('Vec<') or tgt.startswith('Box<['):
            return VVec(l)
        if tgt.startswith('BTreeMap<') or tgt.startswith('HashMap<'):
            m = VMap([])
            for g, v in l:
                m = s.map_insert(m, g, s.key(ex, st, v.f[0]) if tgt.startswith('BTreeMap<&') else v.f[0], s.named(v.f[1]))[0]
            return m
        if tgt.startswith('BTreeSet<') or tgt.startswith('HashSet<'):
            m = VMap([])
            for g, v in l:
                m = s.map_insert(m, g, s.key(ex, st, v), UNIT)[0]
            return m
        if tgt.startswith('String'):
            return VOp('string')
        raise Unsupported('collect into ' + tgt)

    # -------------------------------------------------- maps
    def keq(s, a, b):
        if isinstance(a, VOp) and isinstance(b, VOp):
            return a.t == b.t
        if isinstance(a, VRef) and isinstance(b, VRef):
            raise Unsupported('reference keys')
        return eqt(a, b)

    def key(s, ex, st, v):
        v = s.deref(ex, st, v)
        return v

    def map_insert(s, m, g, k, v):
        """-> (map, Option(old))"""
        out, seen, old = [], False, []
        for h, k2, v2 in m.i:
            same = And(h, s.keq(k2, k))
            w = And(g, same)
            if w is False:
                out.append((h, k2, v2))
                continue
            out.append((h, k2, vmerge(w, v, v2)))
            old.append((same, v2))
            seen = Or(seen, same)
        new = And(g, Not(seen))
        if new is not False:
            out.append((new, k, v))
        return VMap(out), (seen, old)

    def map_lookup(s, ex, st, mref, k):
        m = ex.load(st, mref)
        if isinstance(m, (VRef, VSel)):
            return s.map_lookup(ex, st, m, k)
        alts = []
        for i, (h, k2, v2) in enumerate(m.i):
            c = And(h, s.keq(s.key(ex, st, k2), k))
            if c is not False:
                alts.append((c, ex.ext(mref, ('m', i))))
        return alts

    def f_BTreeMap_new(s, ex, st, fn, a, dty):
        return VMap([])

    f_BTreeSet_new = f_BTreeMap_new

    def f_BTreeMap_get(s, ex, st, fn, a, dty):
        alts = s.map_lookup(ex, st, a[0], s.key(ex, st, a[1]))
        if not alts:
            return NONE
        return option(Or(*[g for g, _ in alts]), VSel(alts))

    f_BTreeMap_get_mut = f_BTreeMap_get

    def f_BTreeMap_contains_key(s, ex, st, fn, a, dty):
        return Or(*[g for g, _ in s.map_lookup(ex, st, a[0], s.key(ex, st, a[1]))])

    f_BTreeSet_contains = f_BTreeMap_contains_key

    def f_BTreeMap_insert(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        k = a[1]
        m2, (seen, old) = s.map_insert(m, True, s.key(ex, st, k), a[2])
        ex.store(st, a[0], m2)
        if not old:
            return NONE
        return option(seen, s.select(old))

    def f_BTreeSet_insert(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        m2, (seen, old) = s.map_insert(m, True, s.key(ex, st, a[1]), UNIT)
        ex.store(st, a[0], m2)
        return Not(seen)

    def f_BTreeMap_remove(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        k = s.key(ex, st, a[1])
        out, old = [], []
        for h, k2, v2 in m.i:
            same = And(h, s.keq(k2, k))
            out.append((And(h, Not(s.keq(k2, k))), k2, v2))
            if same is not False:
                old.append((same, v2))
        ex.store(st, a[0], VMap(out))
        return option(Or(*[g for g, _ in old]), s.select(old)) if old else NONE

    def f_BTreeMap_len(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        if isinstance(m, VRef):
            m = ex.load(st, m)
        return s.total([ite(s.settled(ex, st, g), 1, 0) for g, _, _ in m.i])

    def settled(s, ex, st, g):
        """a guard the path already decides"""
        if isinstance(g, bool):
            return g
        if not ex.feasible(st, z3.Not(g), False):
            return True
        return False if not ex.feasible(st, g, False) else g

    f_BTreeSet_len = f_BTreeMap_len

    def f_BTreeMap_is_empty(s, ex, st, fn, a, dty):
        return Not(Or(*[g for g, _, _ in ex.load(st, a[0]).i]))

    def f_BTreeMap_keys(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        r = a[0]
        if isinstance(m, VRef):
            r, m = m, ex.load(st, m)
        return VIter('seq', [(g, ex.ext(r, ('k', i))) for i, (g, _, _) in enumerate(m.i)], 0)

    def f_BTreeMap_values(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        r = a[0]
        if isinstance(m, VRef):
            r, m = m, ex.load(st, m)
        return VIter('seq', [(g, ex.ext(r, ('m', i))) for i, (g, _, _) in enumerate(m.i)], 0)

    f_BTreeMap_values_mut = f_BTreeMap_values

    def f_BTreeMap_into_values(s, ex, st, fn, a, dty):
        return VIter('seq', [(g, v) for g, _, v in a[0].i], 0)

    def f_BTreeMap_into_keys(s, ex, st, fn, a, dty):
        return VIter('seq', [(g, k) for g, k, _ in a[0].i], 0)

    def f_BTreeMap_iter(s, ex, st, fn, a, dty):
        return s.iter_of(ex, st, a[0])

    f_BTreeMap_iter_mut = f_BTreeSet_iter = f_BTreeMap_iter

    def f_BTreeMap_retain(s, ex, st, fn, a, dty):
        m = ex.load(st, a[0])
        out = []
        for i, (g, k, v) in enumerate(m.i):
            r = s.under(ex, st, g, a[1], [ex.ext(a[0], ('k', i)), ex.ext(a[0], ('m', i))])
            m = ex.load(st, a[0])
            out.append((And(g, r if r is not None else False), k, m.i[i][2]))
        ex.store(st, a[0], VMap(out))
        return UNIT

    def f_BTreeMap_entry(s, ex, st, fn, a, dty):
        return VS('Entry', [a[0], s.key(ex, st, a[1])])

    def f_Entry_or_insert(s, ex, st, fn, a, dty, default=None):
        r, k = a[0].f
        m = ex.load(st, r)
        alts = []
        for i, (h, k2, v2) in enumerate(m.i):
            c = And(h, s.keq(k2, k))
            if c is not False:
                alts.append((c, ex.ext(r, ('m', i))))
        absent = Not(Or(*[g for g, _ in alts]))
        if absent is not False and s.T is not None and not isinstance(absent, bool):
            if check(s.T, st.pc + [absent], timeout=300) == 'unsat':
                absent = False
        if absent is not False:
            ex.store(st, r, VMap(m.i + [(absent, k, default if default is not None else a[1])]))
            alts.append((absent, ex.ext(r, ('m', len(m.i)))))
        return VSel(alts)

    def f_Entry_or_default(s, ex, st, fn, a, dty):
        m = re.search(r'Entry::<.*?,\s*([\w:<>]+)>::or_default', re.sub(r"'[a-z_]+, ", '', fn))
        ty = short(m.group(1)) if m else 'u64'
        return s.f_Entry_or_insert(ex, st, fn, a, dty, s.zero(ty))

    def f_Entry_or_insert_with(s, ex, st, fn, a, dty):
        v = s.under(ex, st, True, a[1], [])
        return s.f_Entry_or_insert(ex, st, fn, a, dty, v)

    def zeroC(s, ty):
        """zero as plain lists"""
        ty = short(ty)
        m = re.match(r'\[(.*); (.*)\]$', ty)
        if m and not (m.group(1) == 'u64' and s.array_len(m.group(2)) == 3):
            return VA([s.zeroC(m.group(1))] * s.array_len(m.group(2)))
        if ty in s.types.structs and ty not in ('Decimal',):
            return VS(ty, [s.zeroC(t) for f, t in s.types.structs[ty]])
        return s.zero(ty)

    def zero(s, ty):
        """default / zeroed value of a type"""
        ty = short(ty)
        if ty in ('u64', 'u8', 'usize', 'u128', 'u32', 'Pubkey'):
            return 0
        if ty == 'bool':
            return False
        m = re.match(r'\[(.*); (.*)\]$', ty)
        if m:
            n = s.array_len(m.group(2))
            if m.group(1) == 'u64' and n == 3:
                return VLimbs(0)
            v = s.zero(m.group(1))
            if n > 64:
                mk, leaves = s.types.shape(m.group(1))
                return VBig(n, mk, leaves, [z3.K(z3.IntSort(), zi(x)) for x in leaves(v)])
            return VA([v] * n)
        if ty == 'Decimal':
            return VS('Decimal', [VS('U192', [VLimbs(0)])])
        if ty.startswith(('BTreeMap', 'BTreeSet')):
            return VMap([])
        if ty.startswith('Vec'):
            return VVec([])
        if ty.startswith('Option'):
            return NONE
        if ty in s.types.structs:
            return VS(ty, [s.zero(t) for _, t in s.types.structs[ty]])
        if ty in s.types.enums:
            return VE(ty, 0, {0: [s.zero(t) for _, t in s.types.epay[ty].get(0, [])]})
        raise Unsupported('default of ' + ty)

    def t_Default_default(s, ex, st, ty, me, a, dty, fn):
        return s.zero(ty)

    # -------------------------------------------------- vectors, slices
    def f_Vec_new(s, ex, st, fn, a, dty):
        return VVec([])

    def f_Vec_with_capacity(s, ex, st, fn, a, dty):
        return VVec([])

    def f_Vec_push(s, ex, st, fn, a, dty):
        v = ex.load(st, a[0])
        ex.store(st, a[0], VVec(v.i + [(True, a[1])]))
        return UNIT

    def f_Vec_pop(s, ex, st, fn, a, dty):
        if s.is_abs(ex, st, a[0]):
            v, o = s.abs_top(ex, st, a[0])
            ex.store(st, a[0], VS('AbsVec', [v.f[0], ite(v.f[1] > 0, v.f[1] - 1, v.f[1])]))
            return o
        v = ex.load(st, a[0])
        none, out, alts = True, [], []
        for i in range(len(v.i) - 1, -1, -1):
            g, x = v.i[i]
            h = And(none, g)
            if h is not False:
                alts.append((h, x))
            out.append((And(g, Not(none)), x))
            none = And(none, Not(g))
        out.reverse()
        while out and out[-1][0] is False:
            out.pop()
        ex.store(st, a[0], VVec(out))
        if not alts:
            return NONE
        return option(Not(none), s.select(alts))

    def f_Vec_len(s, ex, st, fn, a, dty):
        return ex.length(st, a[0])

    def g_len(s, ex, st, fn, a, dty):
        if isinstance(a[0], (VRef, VSel, VSlice)):
            v = ex.load(st, a[0]) if not isinstance(a[0], VSlice) else None
            if isinstance(v, VMap):
                return s.f_BTreeMap_len(ex, st, fn, a, dty)
            return ex.length(st, a[0])
        return None

    def g_is_empty(s, ex, st, fn, a, dty):
        v = ex.load(st, a[0]) if isinstance(a[0], (VRef, VSel)) else None
        if isinstance(v, VMap):
            return s.f_BTreeMap_is_empty(ex, st, fn, a, dty)
        return eqt(ex.length(st, a[0]), 0)

    def f_Vec_append(s, ex, st, fn, a, dty):
        v, w = ex.load(st, a[0]), ex.load(st, a[1])
        ex.store(st, a[0], VVec(v.i + w.i))
        ex.store(st, a[1], VVec([]))
        return UNIT

    def t_Extend_extend(s, ex, st, ty, me, a, dty, fn):
        v = ex.load(st, a[0])
        if isinstance(v, VVec):
            ex.store(st, a[0], VVec(v.i + s.items(ex, st, s.into_iter(ex, st, a[1]))))
            return UNIT
        if isinstance(v, VMap):
            for g, x in s.items(ex, st, s.into_iter(ex, st, a[1])):
                v = s.map_insert(v, g, x.f[0], x.f[1])[0]
            ex.store(st, a[0], v)
            return UNIT
        return None

    def g_to_vec(s, ex, st, fn, a, dty):
        v = ex.load(st, a[0])
        if isinstance(v, VA):
            return VVec([(True, x) for x in v.e])
        return v

    def g_into_vec(s, ex, st, fn, a, dty):
        v = s.deref(ex, st, a[0])
        if isinstance(v, VA):
            return VVec([(True, x) for x in v.e])
        return v

    def g_exchange_malloc(s, ex, st, fn, a, dty):
        c = ex.new_cell(st, None)
        return VRef(c)

    def f_Box_new(s, ex, st, fn, a, dty):
        return VRef(ex.new_cell(st, a[0]))

    def g_iter(s, ex, st, fn, a, dty):
        return s.iter_of(ex, st, a[0])

    g_iter_mut = g_iter

    def ends(s, ex, st, r, last):
        if last and s.is_abs(ex, st, r):
            v, o = s.abs_top(ex, st, r)
            return VE('Option', o.d, {0: [], 1: [VRef(ex.new_cell(st, o.p[1][0]))]})
        if isinstance(r, VSlice) and isinstance(r.n, int) and isinstance(r.s, int):
            base = ex.load(st, r.b)
            if not isinstance(base, VVec):
                return some(ex.ext(r, ('i', r.n - 1 if last else 0))) if r.n else NONE
        l = s.items(ex, st, s.iter_of(ex, st, r))
        return s.first(ex, st, list(reversed(l)) if last else l)

    def g_last(s, ex, st, fn, a, dty):
        return s.ends(ex, st, a[0], True)

    def g_first(s, ex, st, fn, a, dty):
        return s.ends(ex, st, a[0], False)

    g_last_mut, g_first_mut = g_last, g_first

    def g_get(s, ex, st, fn, a, dty):
        n = ex.length(st, a[0])
        i = a[1]
        if not isscalar(i):
            return None
        return option(i < n if not (isinstance(i, int) and isinstance(n, int)) else i < n, ex.ext(a[0], ('i', i)))

    g_get_mut = g_get

    def g_windows(s, ex, st, fn, a, dty):
        r, k = a
        n = ex.length(st, r)
        b, o = (r.b, r.s) if isinstance(r, VSlice) else (r, 0)
        return VIter('seq', [(True, VSlice(b, o + i, k)) for i in range(n - k + 1)], 0)

    def g_chunks(s, ex, st, fn, a, dty):
        r, k = a
        n = ex.length(st, r)
        b, o = (r.b, r.s) if isinstance(r, VSlice) else (r, 0)
        if isinstance(n, int):
            return VIter('seq', [(True, VSlice(b, o + i, min(k, n - i))) for i in range(0, n, k)], 0)
        if isinstance(o, int):
            base = ex.load(st, b)
            cap = len(base.e) - o
            st.assume(n <= cap)
            # chunks are complete when the length is a multiple; a shorter last chunk is not modelled
            if check(s.T, st.pc + [n % k != 0], timeout=1000) == 'unsat':
                return VIter('seq', [(zi(n) > i, VSlice(b, o + i, k)) for i in range(0, cap, k)], 0)
        raise Unsupported('chunks of symbolic slice')

    g_chunks_exact = g_chunks

    def g_rotate_right(s, ex, st, fn, a, dty):
        r, k = a
        if isinstance(r, VSlice):
            if not (isinstance(r.s, int) and isinstance(r.n, int)):
                return None
            base = ex.load(st, r.b)
            if not isinstance(base, VA):
                return None
            l = base.e[r.s:r.s + r.n]
            k %= len(l)
            e = list(base.e)
            e[r.s:r.s + r.n] = l[-k:] + l[:-k] if k else l
            ex.store(st, r.b, VA(e))
            return UNIT
        v = ex.load(st, r)
        l = v.e
        ex.store(st, r, VA(l[-k:] + l[:-k] if k else l))
        return UNIT

    def g_rotate_left(s, ex, st, fn, a, dty):
        r = a[0]
        n = ex.length(st, r)
        return s.g_rotate_right(ex, st, fn, [r, (n - a[1]) % n], dty)

    def g_swap(s, ex, st, fn, a, dty):
        if len(a) != 3:
            if len(a) == 2 and 'mem' in fn:
                x, y = ex.load(st, a[0]), ex.load(st, a[1])
                ex.store(st, a[0], y)
                ex.store(st, a[1], x)
                return UNIT
            return None
        p, q = ex.ext(a[0], ('i', a[1])), ex.ext(a[0], ('i', a[2]))
        x, y = ex.load(st, p), ex.load(st, q)
        ex.store(st, p, y)
        ex.store(st, q, x)
        return UNIT

    def f_mem_replace(s, ex, st, fn, a, dty):
        x = ex.load(st, a[0])
        ex.store(st, a[0], a[1])
        return x

    def f_mem_take(s, ex, st, fn, a, dty):
        x = ex.load(st, a[0])
        m = re.search(r'take::<(.*)>$', fn)
        ex.store(st, a[0], s.zero(m.group(1)))
        return x

    def f_mem_drop(s, ex, st, fn, a, dty):
        return UNIT

    def f_mem_size_of(s, ex, st, fn, a, dty):
        return s.T.fresh('size', 0, 1 << 20)

    def g_as_slice(s, ex, st, fn, a, dty):
        return VSlice(a[0], 0, ex.length(st, a[0]))

    def g_copy_from_slice(s, ex, st, fn, a, dty):
        return UNIT

    def f_array_map(s, ex, st, fn, a, dty):
        return VA([s.under(ex, st, True, a[1], [x]) for x in a[0].e])

    def t_TryInto_try_into(s, ex, st, ty, me, a, dty, fn):
        v = a[0]
        if isinstance(v, VVec):
            m = re.search(r'\[(.*); (\d+|[\w:]+)\]', fn)
            n = s.array_len(m.group(2)) if m else None
            if n is None:
                return None
            if all(g is True for g, _ in v.i):
                if len(v.i) == n:
                    return ok(VA([x for _, x in v.i]))
                return err()
            return None
        if isscalar(v):
            m = re.search(r'TryInto<(\w+)>', fn)
            if m and m.group(1) in INTW:
                hi = (1 << INTW[m.group(1)]) - 1
                return result(v <= hi if not isinstance(v, int) else v <= hi, v)
        return None

    t_TryFrom_try_from = t_TryInto_try_into

    def index(s, ex, st, r, i, ty):
        if isinstance(i, VS):
            kind = i.n
            n = ex.length(st, r) if not s.isbytes(ex, st, r) else None
            if n is None:
                return r
            b, o = (r.b, r.s) if isinstance(r, VSlice) else (r, 0)
            if not isinstance(r, VSlice):
                v = ex.load(st, r)
                if isinstance(v, (VRef, VSlice)):
                    return s.index(ex, st, v, i, ty)
            if kind == 'RangeFull':
                return VSlice(b, o, n)
            if kind == 'RangeTo':
                if not isinstance(i.f[0], int) or i.f[0] > n:
                    st.assume(zi(i.f[0]) <= n)
                return VSlice(b, o, i.f[0])
            if kind == 'RangeFrom':
                return VSlice(b, ex.add(o, i.f[0]), n - i.f[0])
            if kind == 'Range':
                return VSlice(b, ex.add(o, i.f[0]), i.f[1] - i.f[0])
            if kind == 'RangeInclusive':
                return VSlice(b, ex.add(o, i.f[0]), i.f[1] - i.f[0] + 1)
            raise Unsupported('index by ' + kind)
        n = ex.length(st, r)
        if not (isinstance(i, int) and isinstance(n, int) and i < n):
            c = zi(i) < zi(n)
            ex.panics.append(('index', st.pc + [Not(c)]))
            st.assume(c)
        return ex.ext(r, ('i', i))

    def isbytes(s, ex, st, r):
        if isinstance(r, VBytes):
            return True
        if isinstance(r, VSlice):
            return isinstance(ex.load(st, r.b), VBytes)
        v = ex.load(st, r)
        return isinstance(v, (VBytes, VOp)) or isscalar(v)

    def t_Index_index(s, ex, st, ty, me, a, dty, fn):
        if isinstance(a[0], (VOp, VBytes)):
            return a[0]
        if short(ty).startswith('BTreeMap'):
            o = s.f_BTreeMap_get(ex, st, fn, a, dty)
            if isinstance(o.d, int) and o.d == 0:
                return []
            st.assume(eqt(o.d, 1))
            return o.p[1][0]
        r = a[0]
        if isinstance(r, (VRef, VSel)):
            v = s.deref(ex, st, r)
            if isinstance(v, VOp):
                return v
            if isinstance(v, VS) and v.n == 'AccData':
                return VOp('bytes')
        if isinstance(r, VS) and r.n == 'AccData':
            return VOp('bytes')
        return s.index(ex, st, r, a[1], ty)

    t_IndexMut_index_mut = t_Index_index

    # -------------------------------------------------- Option / Result
    def pay(s, v, k):
        return v.p[k][0] if k in v.p and v.p[k] else None

    def okk(s, v):
        return 0 if v.n == 'Result' else 1

    def t_Try_branch(s, ex, st, ty, me, a, dty, fn):
        v = a[0]
        k = s.okk(v)
        x = s.pay(v, k)
        res = VE(v.n, 1 - k, {1 - k: [] if v.n == 'Option' else [ERR]})
        p = {1: [res]}
        if x is not None:
            p[0] = [x]
        elif k in v.p:
            p[0] = [UNIT]
        c = eqt(v.d, k)
        d = ite(c, 0, 1)
        if isz(d) and isz(v.d) and v.d.get_id() in s.noquery:
            s.noquery.add(d.get_id())
        return VE('ControlFlow', d, p)

    def t_Try_from_output(s, ex, st, ty, me, a, dty, fn):
        return ok(a[0]) if 'Result' in ty else some(a[0])

    def t_FromResidual_from_residual(s, ex, st, ty, me, a, dty, fn):
        if short(ty).startswith('Option'):
            return NONE
        return err()

    def split(s, v):
        k = s.okk(v)
        return eqt(v.d, k), s.pay(v, k), k

    def g_map(s, ex, st, fn, a, dty):
        v = a[0]
        if not isinstance(v, VE):
            return None
        c, x, k = s.split(v)
        if x is None:
            return v if k == 1 else err()
        y = s.under(ex, st, c, a[1], [x])
        if y is None:
            return NONE if k == 1 else err()
        return option(c, y) if k == 1 else result(c, y)

    def g_map_err(s, ex, st, fn, a, dty):
        return a[0]

    def g_ok_or(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        return result(c, x) if x is not None else err()

    g_ok_or_else = g_ok_or

    def g_ok(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        return option(c, x) if x is not None else NONE

    def g_err(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        return option(Not(c), ERR)

    def g_and_then(s, ex, st, fn, a, dty):
        v = a[0]
        if not isinstance(v, VE):
            return None
        c, x, k = s.split(v)
        if x is None:
            return NONE if k == 1 else err()
        y = s.under(ex, st, c, a[1], [x])
        if y is None:
            return NONE if k == 1 else err()
        c2, x2, k2 = s.split(y)
        if x2 is None:
            return NONE if k == 1 else err()
        return option(And(c, c2), x2) if k == 1 else result(And(c, c2), x2)

    def g_unwrap(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        if x is None or c is False:
            ex.panics.append((fn[:60], list(st.pc)))
            return []
        if c is not True:
            ex.panics.append((fn[:60], st.pc + [Not(c)]))
            st.assume(c)
        return x

    g_expect = g_unwrap

    def g_unwrap_or(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        return a[1] if x is None else vmerge(c, x, a[1])

    def g_unwrap_or_default(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        z = s.zero(dty)
        return z if x is None else vmerge(c, x, z)

    def g_unwrap_or_else(s, ex, st, fn, a, dty):
        v = a[0]
        c, x, k = s.split(v)
        y = s.under(ex, st, Not(c), a[1], [] if k == 1 else [ERR])
        if x is None:
            return y
        if y is None:
            return x
        return vmerge(c, x, y)

    def g_map_or(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        if x is None:
            return a[1]
        y = s.under(ex, st, c, a[2], [x])
        return a[1] if y is None else vmerge(c, y, a[1])

    def g_map_or_else(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        d = s.under(ex, st, Not(c), a[1], [] if k == 1 else [ERR])
        if x is None:
            return d
        y = s.under(ex, st, c, a[2], [x])
        if d is None:
            return y
        return d if y is None else vmerge(c, y, d)

    def g_is_some(s, ex, st, fn, a, dty):
        v = s.deref(ex, st, a[0])
        return eqt(v.d, 1)

    def g_is_none(s, ex, st, fn, a, dty):
        return eqt(s.deref(ex, st, a[0]).d, 0)

    def g_is_ok(s, ex, st, fn, a, dty):
        return eqt(s.deref(ex, st, a[0]).d, 0)

    def g_is_err(s, ex, st, fn, a, dty):
        return eqt(s.deref(ex, st, a[0]).d, 1)

    def g_is_some_and(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        if x is None:
            return False
        return And(c, s.under(ex, st, c, a[1], [x]))

    def g_filter(s, ex, st, fn, a, dty):
        v = a[0]
        if not isinstance(v, VE):
            return None
        c, x, k = s.split(v)
        if x is None:
            return NONE
        cell = ex.new_cell(st, x)
        r = s.under(ex, st, c, a[1], [VRef(cell)])
        return option(And(c, r if r is not None else False), x)

    def g_or(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        c2, y, _ = s.split(a[1])
        if x is None:
            return a[1]
        if y is None:
            return a[0]
        z = vmerge(c, x, y)
        return option(Or(c, c2), z) if k == 1 else result(Or(c, c2), z)

    def g_or_else(s, ex, st, fn, a, dty):
        c, x, k = s.split(a[0])
        y = s.under(ex, st, Not(c), a[1], [] if k == 1 else [ERR])
        if y is None:
            return a[0]
        return s.g_or(ex, st, fn, [a[0], y], dty)

    def g_as_ref(s, ex, st, fn, a, dty):
        r = a[0]
        v = ex.load(st, r)
        if isinstance(v, VE):
            k = s.okk(v)
            return VE(v.n, v.d, {**{j: [ERR] for j in v.p if j != k and v.n == 'Result'}, **({k: [ex.ext(r, ('p', k, 0))]} if k in v.p else {}), **({0: []} if v.n == 'Option' else {})})
        return r

    g_as_mut = g_as_ref

    def g_copied(s, ex, st, fn, a, dty):
        v = a[0]
        if not isinstance(v, VE):
            return None
        c, x, k = s.split(v)
        if x is None:
            return v
        y = s.load_under(ex, st, x)
        return option(c, y) if k == 1 else result(c, y)

    g_cloned = g_copied

    def load_under(s, ex, st, r):
        return ex.load(st, r)

    def g_take(s, ex, st, fn, a, dty):
        v = ex.load(st, a[0])
        if isinstance(v, VE) and v.n == 'Option':
            ex.store(st, a[0], NONE)
            return v
        return None

    # -------------------------------------------------- numbers
    def num(s, ex, st, ty, me, a):
        if ty not in INTW:
            return None
        hi = (1 << INTW[ty]) - 1
        a = [s.deref(ex, st, x) if isinstance(x, (VRef, VSel)) else x for x in a]
        if me == 'checked_add':
            r = a[0] + a[1]
            return option(r <= hi, r)
        if me == 'checked_sub':
            r = a[0] - a[1]
            return option(r >= 0, r)
        if me == 'checked_mul':
            r = a[0] * a[1]
            return option(r <= hi, r)
        if me in ('checked_div', 'checked_rem'):
            q = ex.binop(st, 'Div' if me == 'checked_div' else 'Rem', a[0], a[1], ty) if not (isinstance(a[1], int) and a[1] == 0) else 0
            return option(a[1] > 0 if isinstance(a[1], int) else a[1] > 0, q)
        if me == 'saturating_sub':
            r = a[0] - a[1]
            return ite(r >= 0, r, 0)
        if me == 'saturating_add':
            r = a[0] + a[1]
            return ite(r <= hi, r, hi)
        if me == 'saturating_mul':
            r = a[0] * a[1]
            return ite(r <= hi, r, hi)
        if me == 'wrapping_add':
            return ex.wrap(ty, a[0] + a[1])
        if me == 'wrapping_sub':
            return ex.wrap(ty, a[0] - a[1])
        if me == 'wrapping_mul':
            return ex.wrap(ty, a[0] * a[1])
        if me == 'abs_diff':
            return ite(a[0] >= a[1], a[0] - a[1], a[1] - a[0])
        if me in ('min', 'max'):
            return ite(a[0] <= a[1], a[0], a[1]) if me == 'min' else ite(a[0] <= a[1], a[1], a[0])
        if me == 'pow':
            if isinstance(a[0], int) and isinstance(a[1], int):
                r = a[0] ** a[1]
                return r if r <= hi else []
            if isinstance(a[0], int):
                # the exponent is small: table
                r = s.T.fresh('pow', 0, hi)
                fs = []
                k = 0
                while a[0] ** k <= hi and k <= 64:
                    fs.append(z3.And(a[1] == k, r == a[0] ** k))
                    k += 1
                    if a[0] <= 1:
                        break
                c = z3.Or(fs)
                s.T.fact(r, z3.Implies(z3.And(a[1] >= 0, a[1] < k), c))
                ex.panics.append(('pow overflow', st.pc + [a[1] >= k]))
                st.assume(a[1] < k)
                return r
            return None
        if me == 'leading_zeros':
            w = INTW[ty]
            if isinstance(a[0], int):
                return w - a[0].bit_length()
            r = s.T.fresh('lz', 0, w)
            x = a[0]
            for k in range(w + 1):
                # x < 2^(w-k)  <->  r >= k
                s.T.fact(r, (x < (1 << (w - k))) == (r >= k))
            return r
        if me in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
            return s.T.fresh('frombytes', 0, hi)
        if me in ('to_le_bytes', 'to_be_bytes'):
            return VBytes([a[0]])
        if me == 'count_ones':
            return None
        return None

    def t_Ord_min(s, ex, st, ty, me, a, dty, fn):
        x, y = s.scalar(ex, st, a[0]), s.scalar(ex, st, a[1])
        return vmerge(x <= y, a[0], a[1])

    def t_Ord_max(s, ex, st, ty, me, a, dty, fn):
        x, y = s.scalar(ex, st, a[0]), s.scalar(ex, st, a[1])
        return vmerge(x <= y, a[1], a[0])

    def f_cmp_max(s, ex, st, fn, a, dty):
        return s.t_Ord_max(ex, st, '', '', a, dty, fn)

    def f_cmp_min(s, ex, st, fn, a, dty):
        return s.t_Ord_min(ex, st, '', '', a, dty, fn)

    def t_Ord_clamp(s, ex, st, ty, me, a, dty, fn):
        v = s.t_Ord_max(ex, st, ty, me, a[:2], dty, fn)
        return s.t_Ord_min(ex, st, ty, me, [v, a[2]], dty, fn)

    def t_Ord_cmp(s, ex, st, ty, me, a, dty, fn):
        x, y = s.scalar(ex, st, a[0]), s.scalar(ex, st, a[1])
        return VE('Ordering', ite(x < y, -1, ite(eqt(x, y), 0, 1)), {-1: [], 0: [], 1: []})

    def t_PartialOrd_partial_cmp(s, ex, st, ty, me, a, dty, fn):
        return some(s.t_Ord_cmp(ex, st, ty, me, a, dty, fn))

    def t_PartialOrd(s, ex, st, ty, me, a, dty, fn):
        # lt, le, gt, ge provided by the trait over a derived single field order
        x, y = s.scalar(ex, st, a[0]), s.scalar(ex, st, a[1])
        return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[me]()

    def f_Ordering_is_lt(s, ex, st, fn, a, dty):
        return eqt(a[0].d, -1)

    def f_Ordering_is_gt(s, ex, st, fn, a, dty):
        return eqt(a[0].d, 1)

    def veq(s, ex, st, x, y):
        x, y = s.deref(ex, st, x), s.deref(ex, st, y)
        if isscalar(x) and isscalar(y):
            return eqt(x, y)
        if isinstance(x, VS) and isinstance(y, VS) and len(x.f) == len(y.f):
            return And(*[s.veq(ex, st, p, q) for p, q in zip(x.f, y.f)])
        if isinstance(x, VA) and isinstance(y, VA) and len(x.e) == len(y.e):
            return And(*[s.veq(ex, st, p, q) for p, q in zip(x.e, y.e)])
        if isinstance(x, VLimbs) and isinstance(y, VLimbs):
            return eqt(x.raw, y.raw)
        if isinstance(x, VE) and isinstance(y, VE):
            cs = [eqt(x.d, y.d)]
            for k in set(x.p) & set(y.p):
                for p, q in zip(x.p[k], y.p[k]):
                    cs.append(Implies(eqt(x.d, k), s.veq(ex, st, p, q)))
            return And(*cs)
        if isinstance(x, VOp) or isinstance(y, VOp):
            return s.T.freshb('opqeq')
        raise Unsupported('equality of %r and %r' % (x, y))

    def t_PartialEq_eq(s, ex, st, ty, me, a, dty, fn):
        return s.veq(ex, st, a[0], a[1])

    def t_PartialEq_ne(s, ex, st, ty, me, a, dty, fn):
        l = ex.find_local(fn.replace('::ne', '::eq'))
        if l:
            v = ex.call_pure(st, VFn(fn.replace('::ne', '::eq')), a)
            return Not(v)
        return Not(s.veq(ex, st, a[0], a[1]))

    def t_Clone_clone(s, ex, st, ty, me, a, dty, fn):
        return ex.load(st, a[0])

    def t_ToOwned_to_owned(s, ex, st, ty, me, a, dty, fn):
        return ex.load(st, a[0])

    # -------------------------------------------------- conversions
    def t_From_from(s, ex, st, ty, me, a, dty, fn):
        t = short(ty)
        if t == 'Decimal':
            x = a[0]
            return s.dec_int(x)
        if 'Error' in t:
            return ERR
        m = re.search(r' as [\w:]*From<(.*)>>::from', fn)
        if m and short(m.group(1)) == t:
            return a[0]
        if t in INTW and isscalar(a[0]):
            return ite(a[0], 1, 0) if isinstance(a[0], bool) or (isz(a[0]) and z3.is_bool(a[0])) else a[0]
        if t == 'String':
            return VOp('string')
        return None

    def t_Into_into(s, ex, st, ty, me, a, dty, fn):
        m = re.search(r' as [\w:]*Into<(.*)>>::into', fn)
        if not m:
            return None
        tgt = m.group(1)
        if 'Error' in short(tgt) or 'Error' in short(ty):
            return ERR
        f2 = '<%s as std::convert::From<%s>>::from' % (tgt, ty)
        return ex.call_fn(st, f2, a, dty)

    # -------------------------------------------------- decimal
    def dec(s, raw):
        return VS('Decimal', [VS('U192', [VLimbs(raw)])])

    def raw(s, ex, st, v):
        v = s.deref(ex, st, v)
        if isinstance(v, VS) and v.n == 'Decimal':
            u = v.f[0]
            u = u.f[0] if isinstance(u, VS) else u
            if isinstance(u, VA):
                u = s.limbs(u)
            return u.raw
        raise Unsupported('decimal')

    def dec_int(s, n):
        return s.dec(n * WAD)

    def as_int(s, r):
        """n if r is syntactically n * 10^18"""
        if isinstance(r, int):
            return r // WAD if r % WAD == 0 else None
        if z3.is_mul(r) and r.num_args() == 2:
            for i in (0, 1):
                if z3.is_int_value(r.arg(i)) and r.arg(i).as_long() % WAD == 0:
                    k = r.arg(i).as_long() // WAD
                    o = r.arg(1 - i)
                    return o if k == 1 else o * k
        if z3.is_int_value(r):
            return s.as_int(r.as_long())
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            x, y = s.as_int(r.arg(1)), s.as_int(r.arg(2))
            if x is not None and y is not None:
                return ite(r.arg(0), x, y)
        return None

    def floordiv(s, a, b, name='q'):
        """floor(a / b) for a >= 0, b > 0"""
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        if isinstance(b, int):
            if b == 1:
                return a
        k = ('fd', zi(a).get_id(), zi(b).get_id())
        if k in s.divs:
            return s.divs[k][0]
        q, a2, b2 = s.canonical(zi(a), zi(b), name)
        if q is not None:
            s.divs[k] = (q, zi(a), zi(b))
            return q
        k2 = (s.polykey(a2), s.polykey(b2))
        if k2 in s.divs:
            s.divs[k] = s.divs[k2]
            return s.divs[k][0]
        q = s.T.fresh(name, 0)
        s.T.fact(q, z3.Implies(b2 > 0, z3.And(q * b2 <= a2, a2 < q * b2 + b2)))
        s.divs[k] = s.divs[k2] = (q, a2, b2)
        s.T.quots[q.get_id()] = q
        return q

    def polykey(s, t):
        p = s.abs.poly(s.abs.rw(t))
        return tuple(sorted(p.items()))

    def canonical(s, a, b, name, depth=3):
        """floor(a / b) is decided, or (None, a', b') with the same quotient: choices outside, common factors of constants cancelled"""
        import lemma, math
        if s.abs is None:
            s.abs = lemma.Abs()
        p = s.abs.poly(s.abs.rw(a))
        if len(p) > 24:
            return None, a, b
        if depth:
            for m in p:
                for i in m:
                    f = s.plain(s.abs.fac[i])
                    if z3.is_app_of(f, z3.Z3_OP_ITE):
                        # the choice is on a subterm of a
                        r = []
                        for c in (f.arg(1), f.arg(2)):
                            x = s.rebuild(p, i, c)
                            q, a2, b2 = s.canonical(x, b, name, depth - 1)
                            r.append(s.floordiv(a2, b2, name) if q is None else q)
                        return ite(f.arg(0), r[0], r[1]), None, None
        if not z3.is_int_value(b):
            return None, a, b
        d = b.as_long()
        c0 = p.get((), 0)
        g = d
        for m, c in p.items():
            if m:
                g = math.gcd(g, c)
        if g == 1:
            return None, a, b
        p2 = {m: c // g for m, c in p.items() if m}
        if c0 // g:
            p2[()] = c0 // g
        x = s.rebuild(p2)
        if d == g:
            return (x.as_long() if z3.is_int_value(x) else x), None, None
        if not any(p2) :
            return (c0 // g) // (d // g), None, None
        return None, x, z3.IntVal(d // g)

    def plain(s, t):
        """the term with the unknowns that stand for products replaced by the products"""
        if t.get_id() in s.plains:
            return s.plains[t.get_id()][1]
        k = s.abs.inv.get(t.get_id())
        if k is not None:
            r = z3.Product([s.plain(s.abs.fac[i]) for i in k])
        elif t.num_args() == 0 or z3.is_quantifier(t):
            r = t
        else:
            ch = t.children()
            new = [s.plain(c) for c in ch]
            if all(x.eq(y) for x, y in zip(ch, new)):
                r = t
            elif z3.is_add(t):
                r = z3.Sum(new)
            elif z3.is_mul(t):
                r = z3.Product(new)
            elif z3.is_and(t):
                r = z3.And(new)
            elif z3.is_or(t):
                r = z3.Or(new)
            else:
                r = t.decl()(*new)
        s.plains[t.get_id()] = (t, r)
        return r

    plains = {}

    def rebuild(s, p, i=None, by=None):
        """term of a polynomial, with one factor replaced"""
        l = []
        for m, c in sorted(p.items()):
            fs = [by if x == i else s.plain(s.abs.fac[x]) for x in m]
            if any(z3.is_int_value(f) and f.as_long() == 0 for f in fs):
                continue
            if not fs:
                l.append(z3.IntVal(c))
            elif len(fs) == 1:
                l.append(fs[0] if c == 1 else c * fs[0])
            else:
                x = z3.Product(fs)
                l.append(x if c == 1 else c * x)
        if not l:
            return z3.IntVal(0)
        return l[0] if len(l) == 1 else z3.Sum(l)

    abs = None

    divs = {}

    def fit(s, r, hi=M192):
        if isinstance(r, int):
            return r <= hi
        c = r <= hi
        s.noquery.add(c.get_id())
        s.T.keep.append(c)
        return c

    def nq(s, v):
        """a result whose failure needs no feasibility query"""
        if isz(v.d):
            s.noquery.add(v.d.get_id())
            s.T.keep.append(v.d)
        return v

    def operand2(s, ex, st, v):
        v = s.deref(ex, st, v)
        if isscalar(v):
            return v * WAD, v
        r = s.raw(ex, st, v)
        return r, s.as_int(r)

    def t_TryAdd_try_add(s, ex, st, ty, me, a, dty, fn):
        if short(ty) != 'Decimal':
            return None
        x, y = s.raw(ex, st, a[0]), s.raw(ex, st, a[1])
        xi, yi = s.as_int(x), s.as_int(y)
        r = (xi + yi) * WAD if xi is not None and yi is not None else x + y
        return s.nq(result(s.fit(r), s.dec(r)))

    def t_TrySub_try_sub(s, ex, st, ty, me, a, dty, fn):
        x, y = s.raw(ex, st, a[0]), s.raw(ex, st, a[1])
        xi, yi = s.as_int(x), s.as_int(y)
        r = (xi - yi) * WAD if xi is not None and yi is not None else x - y
        return result(x >= y, s.dec(r))

    def mulraw(s, x, xi, y, yi, d=3):
        # a product with a choice is the choice of the products
        for z, side in ((xi if xi is not None else x, 0), (yi if yi is not None else y, 1)):
            if d and isz(z) and z3.is_app_of(z, z3.Z3_OP_ITE):
                r = []
                for c in (z.arg(1), z.arg(2)):
                    whole = (xi, yi)[side] is not None
                    n = c if whole else s.as_int(c)
                    raw = c * WAD if whole else c
                    if z3.is_int_value(raw):
                        raw = raw.as_long()
                    if n is not None and isz(n) and z3.is_int_value(n):
                        n = n.as_long()
                    r.append(s.mulraw(raw, n, y, yi, d - 1) if side == 0 else s.mulraw(x, xi, raw, n, d - 1))
                p, q = s.as_int(zi(r[0])), s.as_int(zi(r[1]))
                if p is not None and q is not None:
                    return ite(z.arg(0), p, q) * WAD
                return ite(z.arg(0), r[0], r[1])
        if xi is not None and yi is not None:
            return (xi * yi) * WAD
        if xi is not None:
            return xi * y
        if yi is not None:
            return x * yi
        return s.floordiv(x * y, WAD, 'mul')

    def t_TryMul_try_mul(s, ex, st, ty, me, a, dty, fn):
        x, xi = s.operand2(ex, st, a[0])
        y, yi = s.operand2(ex, st, a[1])
        r = s.mulraw(x, xi, y, yi)
        return s.nq(result(s.fit(r), s.dec(r)))

    def t_TryDiv_try_div(s, ex, st, ty, me, a, dty, fn):
        x, xi = s.operand2(ex, st, a[0])
        y, yi = s.operand2(ex, st, a[1])
        if yi is not None:
            r = s.floordiv(x, yi, 'div')
            nz = yi > 0 if isinstance(yi, int) else yi > 0
        else:
            r = s.floordiv(x * WAD, y, 'div')
            nz = y > 0 if isinstance(y, int) else y > 0
        return s.nq(result(And(nz, s.fit(r)), s.dec(r)))

    def t_TryPow_try_pow(s, ex, st, ty, me, a, dty, fn):
        x, xi = s.operand2(ex, st, a[0])
        n = a[1]
        if not isinstance(n, int):
            if isinstance(xi, int):
                # integer base, symbolic small exponent
                r = s.T.fresh('dpow', 0)
                top = 0
                while (xi ** (top + 1)) * WAD <= M192 and top < 70:
                    top += 1
                    if xi <= 1:
                        break
                for k in range(top + 1):
                    s.T.fact(r, z3.Implies(n == k, r == xi ** k * WAD))
                return s.nq(result(n <= top, s.dec(r)))
            raise Unsupported('power with symbolic exponent')
        r, ri = WAD, 1
        good = True
        for _ in range(n):
            r2 = s.mulraw(r, ri, x, xi)
            ri = s.as_int(r2)
            r = r2
            good = And(good, s.fit(r))
        return s.nq(result(good, s.dec(r)))

    def t_TrySqrt_try_sqrt(s, ex, st, ty, me, a, dty, fn):
        x = s.raw(ex, st, a[0])
        r = s.T.fresh('sqrt', 0)
        s.T.fact(r, z3.And(r * r <= x * WAD, x * WAD < (r + 1) * (r + 1)))
        return s.nq(result(s.T.freshb('sqrt_ok'), s.dec(r)))

    def t_TryRound(s, ex, st, ty, me, a, dty, fn):
        x = s.raw(ex, st, a[0])
        xi = s.as_int(x)
        if xi is not None:
            q = xi
        elif me == 'try_floor':
            q = s.floordiv(x, WAD, 'floor')
        elif me == 'try_ceil':
            q = s.floordiv(x + (WAD - 1), WAD, 'ceil')
        elif me == 'try_round':
            q = s.floordiv(x + WAD // 2, WAD, 'round')
        else:
            return None
        return s.nq(result(s.fit(q, U64M), q))

    def f_Decimal_one(s, ex, st, fn, a, dty):
        return s.dec(WAD)

    def f_Decimal_zero(s, ex, st, fn, a, dty):
        return s.dec(0)

    def f_Decimal_from_scaled_val(s, ex, st, fn, a, dty):
        return s.dec(a[0])

    def f_Decimal_from_permillion(s, ex, st, fn, a, dty):
        return s.dec(a[0] * (WAD // 10 ** 6))

    def f_Decimal_from_percent(s, ex, st, fn, a, dty):
        return s.dec(a[0] * (WAD // 100))

    # -------------------------------------------------- ranges
    def f_RangeInclusive_new(s, ex, st, fn, a, dty):
        return VS('RangeInclusive', [a[0], a[1]])

    def f_RangeInclusive_start(s, ex, st, fn, a, dty):
        return ex.ext(a[0], ('f', 0))

    def f_RangeInclusive_end(s, ex, st, fn, a, dty):
        return ex.ext(a[0], ('f', 1))

    def g_contains(s, ex, st, fn, a, dty):
        v = ex.load(st, a[0]) if not isinstance(a[0], VSlice) else None
        if isinstance(v, VS) and v.n in ('Range', 'RangeInclusive'):
            x, lo, hi = s.scalar(ex, st, a[1]), s.scalar(ex, st, v.f[0]), s.scalar(ex, st, v.f[1])
            return And(lo <= x, x < hi if v.n == 'Range' else x <= hi)
        if isinstance(v, VMap):
            return s.f_BTreeMap_contains_key(ex, st, fn, a, dty)
        return Or(*[And(g, s.veq(ex, st, x, a[1])) for g, x in s.items(ex, st, s.iter_of(ex, st, a[0]))])

    # -------------------------------------------------- iterators from std::iter
    def f_iter_once(s, ex, st, fn, a, dty):
        return VIter('seq', [(True, a[0])], 0)

    def f_iter_empty(s, ex, st, fn, a, dty):
        return VIter('seq', [], 0)

    def f_iter_repeat(s, ex, st, fn, a, dty):
        return VIter('repeat', a[0])

    def f_iter_repeat_with(s, ex, st, fn, a, dty):
        return VIter('repeat_with', a[0])

    # -------------------------------------------------- formatting, logging, panics
    def f_log_sol_log(s, ex, st, fn, a, dty):
        return UNIT

    def f_Arguments_new_v1(s, ex, st, fn, a, dty):
        return VOp('fmt')

    f_Arguments_new_const = f_Arguments_new_v1

    def f_fmt_format(s, ex, st, fn, a, dty):
        return VOp('string')

    def g_new_display(s, ex, st, fn, a, dty):
        return VOp('fmtarg')

    g_new_debug = g_new_display

    def t_ToString_to_string(s, ex, st, ty, me, a, dty, fn):
        v = a[0]
        if isinstance(v, VRef):
            try:
                v = ex.load(st, v)
            except Unsupported:
                return VOp('string')
        if isinstance(v, VOp) and v.t.startswith('str:'):
            return v
        return VOp('string')

    def f_panicking_panic(s, ex, st, fn, a, dty):
        ex.panics.append(('panic', list(st.pc)))
        return []

    f_panicking_panic_fmt = f_panicking_assert_failed = f_panicking_panic

    def f_acc(s, *a):
        return ERR

    def f_err_acc(s, ex, st, fn, a, dty):
        return ERR

    f_err_arg = f_err_acc

    def g_with_account_name(s, ex, st, fn, a, dty):
        return ERR

    g_with_pubkeys = g_with_values = g_with_source = g_with_account_name

    def g_log(s, ex, st, fn, a, dty):
        return UNIT if 'Error' in fn else None

    # -------------------------------------------------- deref and friends
    def t_Deref_deref(s, ex, st, ty, me, a, dty, fn):
        t = short(ty)
        r = a[0]
        b = t.split('<')[0].lstrip('&')
        if b in ('Account', ):
            return ex.ext(r, ('f', 0))
        if b in ('TokenAccount', 'Mint'):
            return ex.ext(r, ('f', 0))
        if b in ('Signer', 'Program'):
            return ex.ext(r, ('f', 0))
        if b in ('Ref', 'RefMut', 'Box', 'Rc'):
            v = ex.load(st, r)
            if isinstance(v, (VRef, VSel, VSlice, VOp, VBytes)):
                return v
            return r
        if b in ('Vec', 'String'):
            v = ex.load(st, r)
            if isinstance(v, VOp):
                return v
            if isinstance(v, VVec) and all(g is True for g, _ in v.i):
                return VSlice(r, 0, len(v.i))
            return r
        return None

    t_DerefMut_deref_mut = t_Deref_deref

    def t_AsRef_as_ref(s, ex, st, ty, me, a, dty, fn):
        t = short(ty)
        if t == 'Pubkey':
            return VBytes([ex.load(st, a[0])])
        if t.startswith('AccountInfo'):
            return a[0]
        v = ex.load(st, a[0])
        if isinstance(v, VBytes):
            return v
        return a[0]

    def t_AsMut_as_mut(s, ex, st, ty, me, a, dty, fn):
        return a[0]

    t_Borrow_borrow = t_AsMut_as_mut

    # -------------------------------------------------- solana / anchor
    def f_Pubkey_to_bytes(s, ex, st, fn, a, dty):
        v = a[0]
        if isinstance(v, VRef):
            v = ex.load(st, v)
        return VBytes([v])

    def f_Pubkey_find_program_address(s, ex, st, fn, a, dty):
        seeds = s.seeds_of(ex, st, a[0])
        prog = ex.load(st, a[1])
        if not (isinstance(prog, int) and prog == const_id('self')):
            seeds.append(prog)
        k, b = s.pda(seeds)
        return VS('', [k, b])

    def f_Pubkey_create_program_address(s, ex, st, fn, a, dty):
        return result(s.T.freshb('pda_ok'), s.pda_with_bump(s.seeds_of(ex, st, a[0])))

    def t_SolanaSysvar_get(s, ex, st, ty, me, a, dty, fn):
        t = short(ty)
        if t == 'Clock':
            return ok(VS('Clock', [s.clock, VOp('t'), VOp('e'), VOp('e'), VOp('t')]))
        if t == 'Rent':
            return ok(VOp('rent'))
        return None

    t_Sysvar_get = t_SolanaSysvar_get

    def f_Rent_is_exempt(s, ex, st, fn, a, dty):
        return s.T.freshb('exempt')

    def f_Rent_minimum_balance(s, ex, st, fn, a, dty):
        return s.T.fresh('rent', 0, 1 << 40)

    def info_of(s, ex, st, v):
        v = s.deref(ex, st, v)
        if isinstance(v, VS):
            if v.n == 'AccountInfo':
                return v
            if v.n == 'Account':
                return v.f[1]
            if v.n in ('Signer', 'Program', 'AccountLoader', 'Sysvar', 'UncheckedAccount', 'SystemAccount'):
                return v.f[0]
        if isinstance(v, (VRef, VSel)):
            return s.info_of(ex, st, v)
        raise Unsupported('account info of %s' % (v.n if isinstance(v, VS) else type(v).__name__))

    def keyof(s, ex, st, v):
        i = s.info_of(ex, st, v)
        return ex.load(st, i.f[0])

    def t_ToAccountInfo_to_account_info(s, ex, st, ty, me, a, dty, fn):
        return s.info_of(ex, st, a[0])

    def t_Key_key(s, ex, st, ty, me, a, dty, fn):
        if short(ty) == 'Pubkey':
            return ex.load(st, a[0])
        return s.keyof(ex, st, a[0])

    def mk_info(s, ex, st, key, signer, writable, owner=None):
        kc = ex.new_cell(st, key)
        if owner is None:
            owner = s.uf_owner(zi(key))
            s.T.fact(owner, z3.Implies(zi(key) == 0, owner == const_id('native')))
        oc = ex.new_cell(st, owner)
        return VS('AccountInfo', [VRef(kc), signer, writable, VOp('lamports'), VOp('data'), VRef(oc), VOp('exec'), VOp('rent')])

    def f_AccountInfo_lamports(s, ex, st, fn, a, dty):
        return s.T.fresh('lamports', 0, U64M)

    def f_AccountInfo_data_len(s, ex, st, fn, a, dty):
        return s.T.fresh('datalen', 0, 1 << 32)

    def f_AccountInfo_try_data_len(s, ex, st, fn, a, dty):
        return ok(s.T.fresh('datalen', 0, 1 << 32))

    def f_AccountInfo_data_is_empty(s, ex, st, fn, a, dty):
        return s.T.freshb('dataempty')

    def f_AccountInfo_try_borrow_data(s, ex, st, fn, a, dty):
        k = s.keyof(ex, st, a[0])
        c = ex.new_cell(st, VS('AccData', [k]))
        return ok(VRef(c))

    f_AccountInfo_try_borrow_mut_data = f_AccountInfo_try_borrow_data

    def acc_value(s, ex, st, ty, key):
        """what the account with this key holds, seen as type ty"""
        ty = short(ty)
        base = ty.split('<')[0]
        s.see(key, base)
        v = s.types.sym(base, base, keys=(key,))
        if base == 'TokenAccount':
            f = list(v.f[0].f)
            f[2] = z3.Select(st.w['bal'], zi(key))
            s.T.bound(f[2], 0, U64M)
            v = VS('TokenAccount', [VS('SplAccount', f)])
        if base == 'Mint':
            f = list(v.f[0].f)
            f[1] = z3.Select(st.w['sup'], zi(key))
            s.T.bound(f[1], 0, U64M)
            v = VS('Mint', [VS('SplMint', f)])
        return v

    def t_AccountDeserialize_try_deserialize(s, ex, st, ty, me, a, dty, fn):
        v = s.deref(ex, st, a[0])
        if isinstance(v, VS) and v.n == 'AccData':
            return result(And(s.T.freshb('deser_ok'), s.kind(v.f[0], short(ty).split('<')[0])), s.acc_value(ex, st, ty, v.f[0]))
        return None

    def t_AccountDeserialize_try_deserialize_unchecked(s, ex, st, ty, me, a, dty, fn):
        v = s.deref(ex, st, a[0])
        if isinstance(v, VS) and v.n == 'AccData':
            return result(s.T.freshb('deser_ok'), s.acc_value(ex, st, ty, v.f[0]))
        return None

    def t_AnchorSerialize(s, ex, st, ty, me, a, dty, fn):
        return ok(UNIT)

    t_Write_write_all = t_AnchorSerialize

    def t_AccountSerialize(s, ex, st, ty, me, a, dty, fn):
        """discriminator and fields into the data of an account"""
        if len(a) == 2:
            x, n = a[1], 0
            while isinstance(x, (VRef, VSel)) and n < 6:
                x, n = s.deref(ex, st, x), n + 1
            if not (isinstance(x, VS) and x.n == 'AccData'):
                raise Unsupported('serialisation into %r' % (x,))
            v = s.deref(ex, st, a[0])
            # the runtime refuses an instruction which wrote into an account of another program
            new = [And(e.g, eqt(e.a['key'], x.f[0])) for e in st.w.get('ev', ()) if e.k == 'create']
            st.assume(Or(eqt(s.uf_owner(zi(x.f[0])), const_id('self')), *new))
            s.ev(st, 'exit', key=x.f[0], val=v, ty=short(ty).split('<')[0], writable=True)
        return ok(UNIT)

    def t_AnchorDeserialize_deserialize(s, ex, st, ty, me, a, dty, fn):
        t = short(ty)
        if '__Args' in ty:
            k = [x for x in s.ixargs if x != '*']
            return ok(VS('__Args', s.ixargs[k[0]](ex, st)))
        if t in s.ixargs:
            return ok(VS(t, s.ixargs[t](ex, st)))
        return None

    ixargs = {}

    PROGRAMS = {'Token': 'spl_token', 'System': 'system_program'}

    def t_Accounts_try_accounts(s, ex, st, ty, me, a, dty, fn):
        t = short(ty)
        box = False
        while t.startswith('Box<'):
            t = t[4:-1]
            box = True
        base = t.split('<')[0]
        sl = ex.load(st, a[1])
        info = ex.load(st, ex.ext(sl, ('i', 0)))
        st.assume(sl.n >= 1 if not isinstance(sl.n, int) else sl.n >= 1)
        ex.store(st, a[1], VSlice(sl.b, sl.s + 1, sl.n - 1))
        v = s.make_account(ex, st, t, base, info)
        if box:
            v = VRef(ex.new_cell(st, v))
        return ok(v)

    def make_account(s, ex, st, t, base, info):
        key = ex.load(st, info.f[0])
        inner = re.search(r'<(?:&)?(.*)>$', t)
        inner = inner.group(1).split(',')[-1].strip() if inner else ''
        if base == 'AccountInfo' or base == 'UncheckedAccount':
            return info
        if base == 'Signer':
            st.assume(info.f[1])
            return VS('Signer', [info])
        if base == 'SystemAccount':
            return VS('SystemAccount', [info])
        if base == 'Program':
            s.see(key, 'program')
            kid = const_id('self' if inner.lower() == s.crate.name else 'program:' + inner)
            st.assume(eqt(key, kid))
            return VS('Program', [info])
        if base == 'Sysvar':
            s.see(key, 'sysvar:' + inner)
            st.assume(eqt(key, const_id('sysvar:' + inner)))
            return VS('Sysvar', [info])
        if base == 'Account':
            own = ex.load(st, info.f[5])
            st.assume(eqt(own, s.owner_id(inner)))
            st.assume(eqt(s.types.leaf('kind', (key,), None, None), const_id('kind:' + inner)))
            v = s.acc_value(ex, st, inner, key)
            if inner in ('TokenAccount', 'Mint'):
                if inner == 'TokenAccount':
                    st.assume(Not(eqt(v.f[0].f[4].d, 0)))      # unpacking refuses uninitialised accounts
            return VS('Account', [v, info])
        if base == 'AccountLoader':
            own = ex.load(st, info.f[5])
            st.assume(eqt(own, s.owner_id(inner)))
            st.assume(eqt(s.types.leaf('kind', (key,), None, None), const_id('kind:' + inner)))
            c = ex.new_cell(st, s.acc_value(ex, st, inner, key))
            st.w['loaders'] = st.w.get('loaders', ()) + (Ev('loader', True, {'key': key, 'cell': c, 'ty': inner}),)
            return VS('AccountLoader', [info, VRef(c)])
        raise Unsupported('account type ' + t)

    def owner_id(s, ty):
        return const_id('program:Token') if ty in ('TokenAccount', 'Mint') else const_id('self')

    def f_Account_try_from(s, ex, st, fn, a, dty):
        m = re.search(r'Account::<(.*)>::try_from', fn) or re.search(r'Account<(.*)>>::try_from', fn)
        inner = short(re.sub(r"'[a-z_]+, ?", '', m.group(1)))
        info = s.info_of(ex, st, a[0])
        key = ex.load(st, info.f[0])
        return s.nq(result(And(eqt(ex.load(st, info.f[5]), s.owner_id(inner)), s.kind(key, inner)), VS('Account', [s.acc_value(ex, st, inner, key), info])))

    def kind(s, key, ty):
        return eqt(s.types.leaf('kind', (key,), None, None), const_id('kind:' + ty))

    def f_Account_try_from_unchecked(s, ex, st, fn, a, dty):
        m = re.search(r'Account::<(.*)>::try_from', fn) or re.search(r'Account<(.*)>>::try_from', fn)
        inner = short(re.sub(r"'[a-z_]+, ?", '', m.group(1)))
        if inner in ('TokenAccount', 'Mint'):
            return s.f_Account_try_from(ex, st, fn, a, dty)
        info = s.info_of(ex, st, a[0])
        # the account was created (zeroed) by this instruction
        return ok(VS('Account', [s.zero(inner), info]))

    def f_AccountLoader_try_from_unchecked(s, ex, st, fn, a, dty):
        m = re.search(r'AccountLoader::<(.*)>::try_from', fn) or re.search(r'AccountLoader<(.*)>>::try_from', fn)
        inner = short(re.sub(r"'[a-z_]+, ?", '', m.group(1)))
        info = s.info_of(ex, st, a[-1])
        key = ex.load(st, info.f[0])
        st.assume(eqt(ex.load(st, info.f[5]), s.owner_id(inner)))
        c = ex.new_cell(st, s.zero(inner))
        s.see(key, 'zero:' + inner)
        st.w['loaders'] = st.w.get('loaders', ()) + (Ev('loader', True, {'key': key, 'cell': c, 'ty': inner}),)
        return ok(VS('AccountLoader', [info, VRef(c)]))

    def loader_kind(s, ex, st, v, fresh):
        """loading checks the discriminator: the type's own, or none yet for load_init"""
        key = ex.load(st, v.f[0].f[0])
        for e in st.w.get('loaders', ()):
            if eqt(e.a['key'], key) is True:
                st.assume(eqt(s.types.leaf('kind', (key,), None, None), const_id('kind:' + ('' if fresh else e.a['ty']))))
                return

    def f_AccountLoader_load(s, ex, st, fn, a, dty):
        v = s.deref(ex, st, a[0])
        s.loader_kind(ex, st, v, False)
        return ok(v.f[1])

    def f_AccountLoader_load_mut(s, ex, st, fn, a, dty):
        v = s.deref(ex, st, a[0])
        s.loader_kind(ex, st, v, False)
        st.assume(v.f[0].f[2])
        return ok(v.f[1])

    def f_AccountLoader_load_init(s, ex, st, fn, a, dty):
        v = s.deref(ex, st, a[0])
        s.loader_kind(ex, st, v, True)
        st.assume(v.f[0].f[2])
        return ok(v.f[1])

    def f_Account_reload(s, ex, st, fn, a, dty):
        r = a[0]
        v = ex.load(st, r)
        if isinstance(v, VRef):
            r, v = v, ex.load(st, v)
        key = ex.load(st, v.f[1].f[0])
        ty = v.f[0].n
        ty = {'SplAccount': 'TokenAccount', 'SplMint': 'Mint'}.get(ty, ty)
        ex.store(st, ex.ext(r, ('f', 0)), s.acc_value(ex, st, ty, key))
        return ok(UNIT)

    def f_Account_into_inner(s, ex, st, fn, a, dty):
        return a[0].f[0]

    def f_Account_set_inner(s, ex, st, fn, a, dty):
        ex.store(st, ex.ext(a[0], ('f', 0)), a[1])
        return UNIT

    def f_Program_programdata_address(s, ex, st, fn, a, dty):
        k = s.keyof(ex, st, a[0])
        o = s.types.sym('Option<Pubkey>', 'programdata', keys=(k,))
        return ok(o)

    def ev(s, st, k, **a):
        st.w['ev'] = st.w.get('ev', ()) + (Ev(k, True, a),)

    def t_AccountsExit_exit(s, ex, st, ty, me, a, dty, fn):
        v = s.deref(ex, st, a[0])
        if isinstance(v, VS) and v.n == 'Account':
            key = ex.load(st, v.f[1].f[0])
            inner = v.f[0].n
            if inner not in ('TokenAccount', 'Mint'):
                s.ev(st, 'exit', key=key, val=v.f[0], ty=inner, writable=v.f[1].f[2])
        elif isinstance(v, VS) and v.n in s.types.structs:
            raise Unsupported('exit of ' + v.n)
        return ok(UNIT)

    def t_AccountsClose_close(s, ex, st, ty, me, a, dty, fn):
        s.ev(st, 'close', key=s.keyof(ex, st, a[0]), dest=s.keyof(ex, st, a[1]))
        return ok(UNIT)

    def t_ToAccountInfos(s, ex, st, ty, me, a, dty, fn):
        return VVec([(True, s.info_of(ex, st, a[0]))])

    t_ToAccountMetas = t_ToAccountInfos

    def f_Context_new(s, ex, st, fn, a, dty):
        return VS('Context', a)

    def f_CpiContext_new(s, ex, st, fn, a, dty):
        return VS('CpiContext', [a[1], VVec([]), a[0], None])

    def f_CpiContext_new_with_signer(s, ex, st, fn, a, dty):
        return VS('CpiContext', [a[1], VVec([]), a[0], a[2]])

    def f_CpiContext_with_signer(s, ex, st, fn, a, dty):
        v = a[0]
        return VS('CpiContext', [v.f[0], v.f[1], v.f[2], a[1]])

    def signers_of(s, ex, st, v):
        """addresses the seeds of a CpiContext sign for"""
        if v.f[3] is None:
            return []
        outer = ex.load(st, v.f[3])
        if isinstance(outer, VRef):
            outer = ex.load(st, outer)
        out = []
        for e in outer.e:
            out.append(s.pda_with_bump(s.seeds_of(ex, st, e)))
        return out

    def signed(s, ex, st, ctx, info):
        k = ex.load(st, info.f[0])
        return Or(info.f[1], *[eqt(k, x) for x in s.signers_of(ex, st, ctx)])

    def see(s, key, ty):
        s.seen.append((zi(key), ty))

    def tok(s, st, key):
        s.see(key, 'TokenAccount')
        return s.types.sym('TokenAccount', 'TokenAccount', keys=(key,)).f[0]

    def f_token_transfer(s, ex, st, fn, a, dty):
        ctx, amt = a
        f, t, au = ctx.f[0].f
        fk, tk, ak = [zi(ex.load(st, x.f[0])) for x in (f, t, au)]
        bal = st.w['bal']
        ft, tt = s.tok(st, fk), s.tok(st, tk)
        prog = ex.load(st, ctx.f[2].f[0])
        st.assume(eqt(prog, const_id('program:Token')))
        fb = z3.Select(bal, fk)
        tb = z3.Select(bal, tk)
        s.T.bound(fb, 0, U64M)
        s.T.bound(tb, 0, U64M)
        st.assume(fb >= amt)
        st.assume(eqt(ft.f[0], tt.f[0]))
        st.assume(s.signed(ex, st, ctx, au))
        st.assume(And(eqt(ft.f[4].d, 1), eqt(tt.f[4].d, 1)))
        isown = eqt(ft.f[1], ak)
        isdel = And(eqt(ft.f[3].d, 1), eqt(ft.f[3].p[1][0], ak), ft.f[6] >= amt)
        st.assume(Or(isown, isdel))
        st.assume(Or(eqt(fk, tk), tb + amt <= U64M))
        nb = z3.Store(z3.Store(bal, fk, fb - amt), tk, z3.If(fk == tk, fb, tb + amt))
        st.w['bal'] = nb
        s.ev(st, 'transfer', frm=fk, to=tk, auth=ak, amount=amt, owner=isown, asigner=au.f[1], mint=ft.f[0])
        return ok(UNIT)

    def f_token_mint_to(s, ex, st, fn, a, dty):
        ctx, amt = a
        m, t, au = ctx.f[0].f
        mk, tk, ak = [zi(ex.load(st, x.f[0])) for x in (m, t, au)]
        st.assume(eqt(ex.load(st, ctx.f[2].f[0]), const_id('program:Token')))
        bal, sup = st.w['bal'], st.w['sup']
        sb, tb = z3.Select(sup, mk), z3.Select(bal, tk)
        s.T.bound(sb, 0, U64M)
        s.T.bound(tb, 0, U64M)
        st.assume(eqt(s.tok(st, tk).f[0], mk))
        st.assume(s.signed(ex, st, ctx, au))
        mt = s.types.sym('Mint', 'Mint', keys=(mk,)).f[0]
        st.assume(And(eqt(mt.f[0].d, 1), eqt(mt.f[0].p[1][0], ak)))
        st.assume(sb + amt <= U64M)
        st.assume(tb + amt <= U64M)
        st.w['bal'] = z3.Store(bal, tk, tb + amt)
        st.w['sup'] = z3.Store(sup, mk, sb + amt)
        s.ev(st, 'mint', mint=mk, to=tk, auth=ak, amount=amt)
        return ok(UNIT)

    def f_token_burn(s, ex, st, fn, a, dty):
        ctx, amt = a
        m, f, au = ctx.f[0].f
        mk, fk, ak = [zi(ex.load(st, x.f[0])) for x in (m, f, au)]
        ft = s.tok(st, fk)
        bal, sup = st.w['bal'], st.w['sup']
        sb, fb = z3.Select(sup, mk), z3.Select(bal, fk)
        s.T.bound(sb, 0, U64M)
        s.T.bound(fb, 0, U64M)
        if 'Burn' not in ctx.f[0].n:
            return None
        st.assume(eqt(ft.f[0], mk))
        st.assume(s.signed(ex, st, ctx, au))
        st.assume(Or(eqt(ft.f[1], ak), And(eqt(ft.f[3].d, 1), eqt(ft.f[3].p[1][0], ak))))
        st.assume(fb >= amt)
        st.assume(sb >= amt)
        st.w['bal'] = z3.Store(bal, fk, fb - amt)
        st.w['sup'] = z3.Store(sup, mk, sb - amt)
        s.ev(st, 'burn', mint=mk, frm=fk, auth=ak, amount=amt, asigner=au.f[1], owner=eqt(ft.f[1], ak))
        return ok(UNIT)

    def f_token_close_account(s, ex, st, fn, a, dty):
        ctx = a[0]
        x, d, au = ctx.f[0].f
        k = zi(ex.load(st, x.f[0]))
        b = z3.Select(st.w['bal'], k)
        s.T.bound(b, 0, U64M)
        st.assume(eqt(b, 0))
        st.assume(s.signed(ex, st, ctx, au))
        t, ak = s.tok(st, k), ex.load(st, au.f[0])
        st.assume(Or(And(eqt(t.f[7].d, 1), eqt(t.f[7].p[1][0], ak)), And(eqt(t.f[7].d, 0), eqt(t.f[1], ak))))
        s.ev(st, 'tokclose', key=k, dest=ex.load(st, d.f[0]), auth=ex.load(st, au.f[0]))
        return ok(UNIT)

    def f_token_initialize_account(s, ex, st, fn, a, dty):
        ctx = a[0]
        x, m, au, rent = ctx.f[0].f
        k = zi(ex.load(st, x.f[0]))
        t = s.tok(st, k)
        rk = ex.load(st, rent.f[0])
        s.see(rk, 'sysvar:Rent')
        st.assume(eqt(rk, const_id('sysvar:Rent')))
        # a fresh token account: empty, of this mint and owner
        st.assume(eqt(t.f[0], ex.load(st, m.f[0])))
        st.assume(eqt(t.f[1], ex.load(st, au.f[0])))
        st.assume(eqt(z3.Select(st.w['bal'], k), 0))
        s.ev(st, 'tokinit', key=k, mint=ex.load(st, m.f[0]), owner=ex.load(st, au.f[0]))
        return ok(UNIT)

    def g_is_frozen(s, ex, st, fn, a, dty):
        v = s.deref(ex, st, a[0])
        return eqt(v.f[4].d, 2)

    def f_system_program_create_account(s, ex, st, fn, a, dty):
        ctx = a[0]
        s.see(ex.load(st, ctx.f[0].f[1].f[0]), 'new')
        st.assume(eqt(s.types.leaf('kind', (ex.load(st, ctx.f[0].f[1].f[0]),), None, None), const_id('kind:')))
        s.ev(st, 'create', key=ex.load(st, ctx.f[0].f[1].f[0]))
        return ok(UNIT)

    def f_system_program_allocate(s, ex, st, fn, a, dty):
        ctx = a[0]
        s.see(ex.load(st, ctx.f[0].f[0].f[0]), 'new')
        st.assume(eqt(s.types.leaf('kind', (ex.load(st, ctx.f[0].f[0].f[0]),), None, None), const_id('kind:')))
        s.ev(st, 'create', key=ex.load(st, ctx.f[0].f[0].f[0]))
        return ok(UNIT)

    def f_system_program_assign(s, ex, st, fn, a, dty):
        return ok(UNIT)

    def f_system_program_transfer(s, ex, st, fn, a, dty):
        return ok(UNIT)

    def g_name(s, ex, st, fn, a, dty):
        return VOp('string') if 'Error' in fn else None
