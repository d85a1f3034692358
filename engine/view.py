"""What a specification sees: one instruction, before and after, symbolic or concrete."""
import re, z3
from val import *
from mir import Unsupported, short
from lib import const_id, CONST_NAMES, U64M, WAD, Ev
from types_ import EXTERN
import native
from codec import Codec, k2b, b2k


RINGLEN = 1000
DECODED = {}           # accounts seen by concrete views; never changed


def nth(v, i):
    if isinstance(v, VBig):
        return v.get(i)
    if isinstance(i, int):
        return v.e[i]
    raise Unsupported('index')


class Base:
    def get(s, v, path):
        return s.types.get(v, path)


class SymView(Base):
    concrete = False

    def __init__(s, W, ex, st, keys, args, st0=None):
        s.W, s.ex, s.st, s.keys, s.args = W, ex, st, keys, args
        s.types, s.T, s.lib = W.types, W.T, W.lib
        s.clock = W.lib.clock
        A = z3.ArraySort(z3.IntSort(), z3.IntSort())
        s.b0, s.s0 = z3.Const('bal0', A), z3.Const('sup0', A)

    def key(s, i):
        return s.keys[i][0]

    def signer(s, i):
        return s.keys[i][1]

    def n(s):
        return len(s.keys)

    def acc0(s, key, ty):
        v = s.types.sym(ty, ty, keys=(key,))
        if ty == 'TokenAccount':
            v.f[0].f[2] = s.bal0(key)
        if ty == 'Mint':
            v.f[0].f[1] = s.sup0(key)
        return v

    def acc1(s, key, ty):
        v = s.acc0(key, ty)
        if ty == 'TokenAccount':
            return VS(ty, [VS('SplAccount', v.f[0].f[:2] + [s.bal1(key)] + v.f[0].f[3:])])
        if ty == 'Mint':
            return VS(ty, [VS('SplMint', [v.f[0].f[0], s.sup1(key)] + v.f[0].f[2:])])
        for e in s.st.w.get('loaders', ()):
            if e.a['ty'] == ty:
                c = And(e.g, eqt(e.a['key'], key))
                if c is not False:
                    x = s.ex.load_cell(s.st, e.a['cell'])
                    v = x if c is True else vmerge(c, x, v)
        for e in s.st.w['ev']:
            if e.k == 'exit' and e.a['ty'] == ty:
                c = And(e.g, eqt(e.a['key'], key))
                if c is not False:
                    v = e.a['val'] if c is True else vmerge(c, e.a['val'], v)
        return v

    def written(s, ty):
        """(guard, key) of accounts of this type the instruction may write"""
        out = [(e.g, e.a['key']) for e in s.st.w.get('loaders', ()) if e.a['ty'] == ty]
        out += [(e.g, e.a['key']) for e in s.st.w['ev'] if e.k == 'exit' and e.a['ty'] == ty]
        return out

    def isa(s, key, ty):
        if ty in ('TokenAccount', 'Mint'):
            return True
        return And(eqt(s.types.leaf('kind', (key,), None, None), const_id('kind:' + ty)), eqt(s.lib.uf_owner(zi(key)), s.lib.owner_id(ty)))

    def bal0(s, k):
        r = z3.Select(s.b0, zi(k))
        s.T.bound(r, 0, U64M)
        return r

    def bal1(s, k):
        return z3.Select(s.st.w['bal'], zi(k))

    def sup0(s, k):
        r = z3.Select(s.s0, zi(k))
        s.T.bound(r, 0, U64M)
        return r

    def sup1(s, k):
        return z3.Select(s.st.w['sup'], zi(k))

    def events(s, *kinds):
        return [e for e in s.st.w['ev'] if e.k in kinds]

    def count(s, *kinds):
        return sum([ite(e.g, 1, 0) for e in s.events(*kinds)]) if s.events(*kinds) else 0

    def pda(s, *seeds):
        return s.lib.pda([const_id('b"%s"' % x) if isinstance(x, str) else x for x in seeds])[0]

    def const(s, name):
        return const_id(name)

    def forall_key(s, f):
        k = s.T.fresh('anykey', 0)
        return f(k)

    def forall_idx(s, n, f):
        j = s.T.fresh('anyidx', 0, n - 1)
        return f(j)

    def mint_of(s, key):
        return s.get(s.acc0(key, 'TokenAccount'), 'mint')

    def accrued(s, farm, mint, since, until, staked):
        """harvest of this mint a stake earns in these slots"""
        import specs_farming as F
        return F.acc_fn(s.T, farm, mint, since, until, staked)

    def snapshot_after(s, farm, slot):
        """(is there one?, start of the first snapshot after the slot)"""
        import specs_farming as F
        return F.fsa_fn(s.T, farm, slot)

    def any_mint(s):
        return s.T.fresh('anymint', 1)

    def programdata(s, key, is_):
        """the program's data account is this one"""
        o = s.types.sym('Option<Pubkey>', 'programdata', keys=(key,))
        return And(eqt(o.d, 1), eqt(o.p[1][0], is_))


class ConView(Base):
    concrete = True

    def __init__(s, types, nat, pid, slot, pre, post, idx, args, cpi):
        s.types, s.nat, s.pid, s.clock, s.args = types, nat, pid, slot, args
        s.cod = Codec(types)
        s.pre = {b2k(a['key']): a for a in pre}
        s.post = {b2k(a['key']): a for a in post}
        s.idx = [pre[i] for i in idx]
        s.cpi = cpi
        s._ev = None
        s.c0, s.c1 = {}, {}

    def key(s, i):
        return b2k(s.idx[i]['key']) if i < len(s.idx) else None

    def signer(s, i):
        return i < len(s.idx) and bool(s.idx[i].get('signer'))

    def n(s):
        return len(s.idx)

    def _acc(s, d, cache, key, ty):
        if (key, ty) in cache:
            return cache[(key, ty)]
        a = d.get(key)
        v = None
        if a is not None:
            own = s.tokid() if ty in ('TokenAccount', 'Mint') else LOADER_ID if ty == 'ProgramData' else s.pid
            if a['owner'] == own and ty == 'ProgramData':
                v = s.cod.dec(ty, a['data'].ljust(45, b'\0'), 4)[0] if a['data'][:4] == b'\3\0\0\0' else None
            elif a['owner'] == own:
                if (ty, a['data']) not in DECODED:
                    if len(DECODED) > 30:
                        DECODED.clear()
                    DECODED[ty, a['data']] = s.cod.from_account(ty, a['data'])
                v = DECODED[ty, a['data']]
        cache[(key, ty)] = v
        return v

    def tokid(s):
        return TOKEN_ID

    def acc0(s, key, ty):
        return s._acc(s.pre, s.c0, key, ty)

    def acc1(s, key, ty):
        return s._acc(s.post, s.c1, key, ty)

    def written(s, ty):
        return [(True, k) for k in s.post if s.acc1(k, ty) is not None]

    def isa(s, key, ty):
        return s.acc0(key, ty) is not None

    def bal0(s, k):
        v = s.acc0(k, 'TokenAccount')
        return s.get(v, 'amount') if v else 0

    def bal1(s, k):
        v = s.acc1(k, 'TokenAccount')
        return s.get(v, 'amount') if v else 0

    def sup0(s, k):
        v = s.acc0(k, 'Mint')
        return s.get(v, 'supply') if v else 0

    def sup1(s, k):
        v = s.acc1(k, 'Mint')
        return s.get(v, 'supply') if v else 0

    def events(s, *kinds):
        if s._ev is None:
            s._ev = []
            for p, d, ks in s.cpi:
                ks = [b2k(k) for k in ks]
                if p == TOKEN_ID:
                    t = d[0]
                    amt = int.from_bytes(d[1:9], 'little') if len(d) >= 9 else 0
                    if t == 3:
                        s._ev.append(Ev('transfer', True, {'frm': ks[0], 'to': ks[1], 'auth': ks[2], 'amount': amt}))
                    elif t == 7:
                        s._ev.append(Ev('mint', True, {'mint': ks[0], 'to': ks[1], 'auth': ks[2], 'amount': amt}))
                    elif t == 8:
                        s._ev.append(Ev('burn', True, {'frm': ks[0], 'mint': ks[1], 'auth': ks[2], 'amount': amt}))
                    elif t == 9:
                        s._ev.append(Ev('tokclose', True, {'key': ks[0], 'dest': ks[1], 'auth': ks[2]}))
                    elif t == 1:
                        s._ev.append(Ev('tokinit', True, {'key': ks[0], 'mint': ks[1], 'owner': ks[2]}))
                    elif t in (16, 18):
                        s._ev.append(Ev('tokinit', True, {'key': ks[0], 'mint': ks[1], 'owner': b2k(d[1:33])}))
                    else:
                        s._ev.append(Ev('token%d' % t, True, {'keys': ks}))
                else:
                    t = int.from_bytes(d[:4], 'little')
                    if t == 0:
                        s._ev.append(Ev('create', True, {'key': ks[1]}))
                    elif t == 8:
                        s._ev.append(Ev('create', True, {'key': ks[0]}))
            for k, a in s.pre.items():
                if a['owner'] == s.pid and a.get('lamports') and s.post[k]['lamports'] == 0:
                    s._ev.append(Ev('close', True, {'key': k}))
        return [e for e in s._ev if e.k in kinds]

    def count(s, *kinds):
        return len(s.events(*kinds))

    def pda(s, *seeds):
        return b2k(s.nat.pda(s.pid, [x.encode() if isinstance(x, str) else k2b(x) for x in seeds])[0])

    def const(s, name):
        return real_const(name)

    def forall_key(s, f):
        for k in set(s.pre) | set(s.post):
            r = f(k)
            if r is not True:
                return r
        return True

    def forall_idx(s, n, f):
        for j in range(n):
            r = f(j)
            if r is not True:
                return r
        return True

    def mint_of(s, key):
        v = s.acc0(key, 'TokenAccount')
        return s.get(v, 'mint') if v else None

    def _farm(s, k):
        f = s.acc0(k, 'Farm')
        if k not in s.__dict__.setdefault('_farms', {}):
            tip = s.get(f, 'snapshots.ring_buffer_tip')
            ring = s.get(f, 'snapshots.ring_buffer')
            xs = [(s.get(x, 'started_at.slot'), s.get(x, 'staked.amount')) for x in (nth(ring, i % RINGLEN) for i in range(tip + 1, tip + 1 + RINGLEN))]
            snaps = xs                     # oldest first
            s._farms[k] = snaps
        return f, s._farms[k]

    def accrued(s, farm, mint, since, until, staked):
        import oracle
        memo, key = s.__dict__.setdefault('_accrued', {}), (farm, mint, since, until, staked)
        if key in memo:
            return memo[key]
        f, snaps = s._farm(farm)
        ps = []
        for i in range(10):
            h = s.get(f, 'harvests[%d]' % i)
            if s.get(h, 'mint') == mint:
                for j in range(10):
                    p = s.get(h, 'periods[%d]' % j)
                    ps.append((s.get(p, 'starts_at.slot'), s.get(p, 'ends_at.slot'), s.get(p, 'tps.amount')))
        memo[key] = oracle.accrued(snaps, [p for p in ps if p[2]], since, until, staked)
        return memo[key]

    def snapshot_after(s, farm, slot):
        f, snaps = s._farm(farm)
        if snaps[-1][0] <= slot:
            return False, 0
        for i in range(len(snaps) - 2, -1, -1):
            if snaps[i][0] <= slot:
                return True, snaps[i + 1][0]
        return False, 0

    def any_mint(s):
        return None

    def programdata(s, key, is_):
        a = s.pre[key]
        return a['owner'] == LOADER_ID and a['data'][:4] == b'\2\0\0\0' and b2k(a['data'][4:36]) == is_


B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(t):
    n = 0
    for c in t:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, 'big')


TOKEN_ID = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
RENT_ID = b58('SysvarRent111111111111111111111111111111111')
LOADER_ID = b58('BPFLoaderUpgradeab1e11111111111111111111111')
SELF = {}


def real_const(name):
    if name == 'program:Token':
        return b2k(TOKEN_ID)
    if name == 'program:System':
        return 0
    if name in ('sysvar:Rent',):
        return b2k(RENT_ID)
    if name == 'self':
        return SELF['id']
    raise Unsupported('address of ' + name)
