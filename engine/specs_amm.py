"""Contracts of the AMM program's instructions."""
from val import *
from view import nth, const_id
from prove import Spec, Fn, Call, Lemma, POS
from sample import amount
from mir import Unsupported
from specs_farming import samev, only, signed_by, no_tokens_move
import view as V
import oracle as O
import z3

WAD = 10 ** 18
U64M = (1 << 64) - 1
POOL = ('admin', 'signer', 'mint', 'program_toll_wallet', 'dimension', 'reserves', 'curve', 'swap_fee')
NR = 4


def pool(v):
    k = v.key(v.P['pool'])
    return k, v.acc0(k, 'Pool'), v.acc1(k, 'Pool')


def R(v, p, i):
    return v.get(p, 'reserves[%d].tokens.amount' % i)


def Rm(v, p, i):
    return v.get(p, 'reserves[%d].mint' % i)


def Rv(v, p, i):
    return v.get(p, 'reserves[%d].vault' % i)


def fee(v, p):
    return v.get(p, 'swap_fee.permillion')


def same_acc(v, k, ty):
    a, b = v.acc0(k, ty), v.acc1(k, ty)
    if a is None or b is None:
        return a is None and b is None
    return samev(v, a, b)


def others(v, ty, *ks):
    return v.forall_key(lambda x: Or(*[eqt(x, k) for k in ks], same_acc(v, x, ty)))


def moved(v, moves, minted=()):
    """exactly these token movements (from, to, amount) and mintings (to, amount) or burnings (negative) happened"""
    def f(k):
        d = 0
        for frm, to, amt in moves:
            d = d + ite(eqt(k, to), amt, 0) - ite(eqt(k, frm), amt, 0)
        for to, amt in minted:
            d = d + ite(eqt(k, to), amt, 0)
        return eqt(v.bal1(k), v.bal0(k) + d)
    return v.forall_key(f)


def supplies(v, ch):
    def f(k):
        d = 0
        for m, amt in ch:
            d = d + ite(eqt(k, m), amt, 0)
        return eqt(v.sup1(k), v.sup0(k) + d)
    return v.forall_key(f)


def nothing_created(v):
    return And(eqt(v.count('create'), 0), eqt(v.count('close'), 0), eqt(v.count('tokclose'), 0))


def nothing_moves(v):
    return And(no_tokens_move(v), supplies(v, []))


# --- A04 ---------------------------------------------------------------------------------------------

def a04_set(v):
    k, p0, p1 = pool(v)
    a = v.P['admin']
    f = v.get(v.args[0], 'permillion')
    return [("the pool's admin signed", And(v.signer(a), eqt(v.key(a), v.get(p0, 'admin')))),
            ('it is a pool', v.isa(k, 'Pool')),
            ('the fee is at most 1%', fee(v, p1) <= 10000),
            ('the fee is the given one', eqt(fee(v, p1), f)),
            ('nothing else of the pool changes', only(v, p0, p1, ('swap_fee',), POOL)),
            ('no other pool changes', others(v, 'Pool', k)),
            ('no tokens move', nothing_moves(v))]


def a04_create(v):
    k, p0, p1 = pool(v)
    return [('a new pool has no fee', eqt(fee(v, p1), 0)),
            ('the creator signed and is its admin', And(v.signer(v.P['admin']), eqt(v.get(p1, 'admin'), v.key(v.P['admin'])))),
            ('a pool is created only once', Not(v.isa(k, 'Pool'))),
            ('no other pool changes', others(v, 'Pool', k))]


def a04_frame(v):
    def f(x):
        a, b = v.acc0(x, 'Pool'), v.acc1(x, 'Pool')
        if a is None or b is None:
            return a is None and b is None
        return And(samev(v, v.get(a, 'swap_fee'), v.get(b, 'swap_fee')), eqt(v.get(a, 'admin'), v.get(b, 'admin')))
    return [('no fee and no admin changes', v.forall_key(f))]


# --- A05 ---------------------------------------------------------------------------------------------

def a05_put(v):
    user, amt, until = v.args[0], v.get(v.args[1], 'permillion'), v.get(v.args[2], 'slot')
    a, s = v.P['authority'], v.key(v.P['discount_settings'])
    d = v.key(v.P['discount'])
    d1, st = v.acc1(d, 'Discount'), v.acc0(s, 'DiscountSettings')
    da, du = v.get(d1, 'amount.permillion'), v.get(d1, 'valid_until.slot')
    return [('the discount authority signed', And(v.signer(a), eqt(v.key(a), v.get(st, 'authority')))),
            ('it is named by the program\'s one settings account', And(v.isa(s, 'DiscountSettings'), eqt(s, v.pda('discount_settings')))),
            ('it is stored for the named user', eqt(d, v.pda('discount', user))),
            ('with exactly the given values', And(eqt(da, amt), eqt(du, until))),
            ('it is at most 100%', da <= 1000000),
            ('it expires in the future', du > v.clock),
            ('no other discount changes', others(v, 'Discount', d)),
            ('the authorities stay', And(others(v, 'DiscountSettings'), others(v, 'ProgramToll'))),
            ('no pool changes', others(v, 'Pool')),
            ('only the discount account is created, if any', And(*[Implies(e.g, eqt(e.a['key'], d)) for e in v.events('create')])),
            ('no tokens move', nothing_moves(v))]


def a05_authority(acc, ty, seed, who):
    def post(v):
        k = v.key(v.P[acc])
        a, md, am = v.P['program_authority'], v.key(v.P['amm_metadata']), v.key(v.P['amm'])
        up = v.get(v.acc0(md, 'ProgramData'), 'upgrade_authority_address')
        x1 = v.acc1(k, ty)
        return [("the program's upgrade authority signed", And(v.signer(a), eqt(up.d, 1), eqt(up.p[1][0], v.key(a)) if up.p.get(1) else False)),
                ("that is this program's own metadata", And(eqt(am, v.const('self')), v.programdata(am, md))),
                ('the account is the one of the program', eqt(k, v.pda(seed))),
                ('it did not exist before', Not(v.isa(k, ty))),
                ('exactly that account is created', And(eqt(v.count('create'), 1), *[Implies(e.g, eqt(e.a['key'], k)) for e in v.events('create')])),
                ('it names the given authority', eqt(v.get(x1, 'authority'), v.key(v.P[who]))),
                ('nothing else changes', And(others(v, 'Pool'), others(v, 'Discount'), others(v, 'DiscountSettings', k), others(v, 'ProgramToll', k))),
                ('no tokens move', nothing_moves(v))]
    return post


def a05_frame(v):
    return [('no discount changes', others(v, 'Discount')), ('no authority changes', And(others(v, 'DiscountSettings'), others(v, 'ProgramToll'))),
            ('nothing is closed', eqt(v.count('close'), 0))]


# --- A10 ---------------------------------------------------------------------------------------------

def a10(v):
    k, p0, p1 = pool(v)
    n = v.n() - v.base
    sig = v.pda('signer', k)
    vs = [v.key(v.base + i) for i in range(n)]
    lp, tw, tl = v.key(v.P['lp_mint']), v.key(v.P['program_toll_wallet']), v.key(v.P['program_toll'])
    L = v.acc0(lp, 'Mint')
    acc = [v.acc0(x, 'TokenAccount') for x in vs]
    m = [v.get(a, 'mint') for a in acc]
    b = [v.bal0(x) for x in vs]
    ma, fa = v.get(L, 'mint_authority'), v.get(L, 'freeze_authority')
    toll = v.acc0(tl, 'ProgramToll')
    amp = v.args[0]
    cv = v.get(p1, 'curve')
    out = [('two to four vaults', 2 <= n <= 4),
           ('of different mints', And(*[Not(eqt(m[i], m[j])) for i in range(n) for j in range(i)])),
           ("owned by the pool's signer", And(*[eqt(v.get(a, 'owner'), sig) for a in acc])),
           ('without delegate and close authority', And(*[And(eqt(v.get(a, 'delegate').d, 0), eqt(v.get(a, 'close_authority').d, 0)) for a in acc])),
           ('not frozen', And(*[Not(eqt(v.get(a, 'state').d, 2)) for a in acc])),
           ("the pool's signer is the LP mint's authority", And(eqt(ma.d, 1), eqt(ma.p[1][0], sig) if ma.p.get(1) else False)),
           ('nobody can freeze LP tokens', eqt(fa.d, 0)),
           ('the toll wallet is of the LP mint and the toll authority', And(v.isa(tl, 'ProgramToll'), eqt(tl, v.pda('toll')), eqt(v.mint_of(tw), lp),
                                                                       eqt(v.get(v.acc0(tw, 'TokenAccount'), 'owner'), v.get(toll, 'authority')))),
           ('vaults are empty exactly if no LP tokens exist', And(*[eqt(eqt(x, 0), eqt(v.sup0(lp), 0)) for x in b])),
           ('the pool records the vaults and their balances', And(*[And(eqt(Rv(v, p1, i), vs[i]), eqt(Rm(v, p1, i), m[i]), eqt(R(v, p1, i), b[i])) for i in range(min(n, NR))],
                                                              *[And(eqt(Rv(v, p1, i), 0), eqt(Rm(v, p1, i), 0), eqt(R(v, p1, i), 0)) for i in range(n, NR)])),
           ('the pool records their number', eqt(v.get(p1, 'dimension'), n)),
           ('the pool records its signer, mint and toll wallet', And(eqt(v.get(p1, 'signer'), sig), eqt(v.get(p1, 'mint'), lp), eqt(v.get(p1, 'program_toll_wallet'), tw))),
           ('the creator signed and is the admin', And(v.signer(v.P['admin']), eqt(v.get(p1, 'admin'), v.key(v.P['admin'])))),
           ('the curve is the requested one', ite(eqt(amp, 0), eqt(cv.d, 0), And(eqt(cv.d, 1), eqt(cv.p[1][0], amp) if cv.p.get(1) else False))),
           ('a pool is created only once', Not(v.isa(k, 'Pool'))),
           ('only the pool is created', And(eqt(v.count('create'), 1), *[Implies(e.g, eqt(e.a['key'], k)) for e in v.events('create')])),
           ('no other pool changes', others(v, 'Pool', k)),
           ('no tokens move', nothing_moves(v))]
    return out


# --- contracts of the callees -----------------------------------------------------------------------------

# which property a fact of a function's contract belongs to; the others are neither proved nor used in that property's check
FOR = {'at least one token': 'A06 A09', 'never more than the limit': 'A06 A12', 'LP tokens only for': 'A06 A07 A09 A12', 'one limit is used up': 'A06', 'the first deposit takes the limits': 'A06', 'no less than in proportion': 'A06',
       'no more than in the proportion': 'A06', 'the first deposit is worth': 'A07 A09', 'no larger a share': 'A07 A09 A12', 'share of reserve': 'A07 A09 A12', 'invariant bound': 'A11',
       'no reserve is empty before': 'A01 A03', 'less is sold': 'A01 A03', 'the product of the reserves': 'A01 A03', 'one more token': 'A01 A03', 'the bought reserve is not emptied': 'A01 A03',
       "the payout is the curve's": 'A01 A03', 'no limit is passed': 'A06', 'no inverted limit': 'A06', 'one limit is reached': 'A06', 'large reserves leave': 'A06', 'inverted for large': 'A06'}


def picked(pid, facts):
    out = []
    for n, f in facts:
        t = [p for x, p in FOR.items() if n.startswith(x)]
        if not t or pid in t[0].split():
            out.append((n, f))
    return out


def amm_contracts(W, pid=None):
    """what callers may assume of the stable curve's numerics: a result or a refusal, the invariant being a function of its arguments"""
    from lib import result

    def curve(ex, st, vals):
        a = [vals[0]] + [W.lib.raw(ex, st, x) for x in vals[1:]]
        r = W.lib.curve_fn(*a)
        W.T.bound(r, 0, (1 << 192) - 1)
        return [(st, result(W.T.freshb('curve_ok'), W.lib.dec(r)))]
    CURVE = z3.Function('curve', *[z3.IntSort()] * 6)
    W.lib.curve_fn = lambda *a: CURVE(*[zi(x) for x in a])

    def compute(ex, st, vals):
        its = [W.lib.deref(ex, st, x) for g, x in W.lib.items(ex, st, vals[1]) if g is not False]
        if any(g is not True for g, x in W.lib.items(ex, st, vals[1])):
            raise Unsupported('number of reserves')
        r = inv_fn(vals[0], [x.f[0] for x in its])
        W.T.bound(r, 0, (1 << 192) - 1)
        good = W.T.freshb('compute_ok')
        if pid == 'A11':
            W.T.fact(good, z3.Implies(good, zb(r <= WAD * sum(zi(x.f[0]) for x in its))))
        return [(st, result(good, W.lib.dec(r)))]
    return {'math::swap_equation::get_buy_reserve_balance_after_swap': curve, 'math::stable_curve_invariant::compute': compute}



def lp_contracts(W, pid=None):
    """... and of the LP tokens of a deposit: no larger a share of the supply than any deposit is of its reserve (proved for the function itself)"""
    from lib import result
    out = amm_contracts(W, pid)

    def lp(ex, st, vals):
        me, dep, L = ex.load(st, vals[0]), ex.load(st, vals[1]), vals[2].f[0]
        while isinstance(dep, (VRef, VSel)):
            dep = ex.load(st, dep)
        while isinstance(me, (VRef, VSel)):
            me = ex.load(st, me)
        t = W.T.fresh('lp_tokens', 0, U64M)
        n = W.types.get(me, 'dimension')
        if not isinstance(n, int):
            raise Unsupported('number of reserves')
        good = W.T.freshb('lp_ok')
        for _, f in picked(pid, lp_share(W, me, dep, t, zi(L), n)):
            if f is not True:
                W.T.fact(t, z3.Implies(good, zb(f)))
        return [(st, result(good, VE('Option', ite(eqt(t, 0), 0, 1), {1: [VS('TokenAmount', [t])], 0: []})))]
    out['models::pool::Pool::get_eligible_lp_tokens'] = lp
    return out


def ratio_facts(t, inv, rs, ms):
    """the ratio a deposit is scaled by: of the limit that is reached first, rounded down, and inverted for large reserves"""
    big = Or(*[And(h, zi(r) > 10 ** 10) for h, _, r in rs])
    out = [('inverted for large reserves', inv == zb(big))]
    ups, downs, reach = [], [], []
    for g, k, m in ms:
        for h, k2, r in rs:
            e = And(g, h, eqt(k, k2))
            if e is False:
                continue
            m, r = zi(m), zi(r)
            ups.append(Implies(And(e, Not(inv)), And(r > 0, t * r <= m * WAD)))
            downs.append(Implies(And(e, inv), And(m > 0, r * WAD < t * m + m)))
            reach.append(And(e, ite(inv, t * m <= r * WAD, m * WAD < t * r + r)))
    return out + [('no limit is passed', And(*ups)), ('no inverted limit is passed', And(*downs)), ('one limit is reached', Or(*reach)),
                  ('large reserves leave the inverted ratio precise', Implies(inv, t >= 5 * 10 ** 8))]


def build_ratio(W, ex, st, case):
    n = case['n']
    DISTINCT.clear()
    # a limit without a reserve is refused, and maps are unordered: the limits are listed like the reserves
    ks = [W.types.sym('Pubkey', 'mint[%d]' % i) for i in range(n)]
    for i, m in enumerate(ks):
        DISTINCT[m.get_id()] = (0, m)
    maps = []
    for x in ('reserves', 'limits'):
        maps.append((ks, VMap([(True, k, W.types.sym('TokenAmount', '%s[%d]' % (x, i))) for i, k in enumerate(ks)])))
    pre = [ks[i] != ks[j] for i in range(n) for j in range(i)]
    rs, ms = [[(g, k, x.f[0]) for g, k, x in m.i] for _, m in maps]
    return Call([VRef(ex.new_cell(st, m)) for _, m in maps], pre, rs=rs, ms=ms, W=W)


def post_ratio(c, ex, st, v):
    return ratio_facts(c.W.lib.raw(ex, st, v.f[0]), v.f[1], c.rs, c.ms)


RATIO_FN = Fn('models::pool::Pool::get_deposit_ratio', build_ratio, post_ratio, cases=[{'name': '%d reserves' % n, 'n': n} for n in (2, 3, 4)])


def ratio_contracts(W, pid=None):
    """... and of the ratio of a deposit (proved for the function itself)"""
    from lib import result
    out = lp_contracts(W, pid)

    def ratio(ex, st, vals):
        ms = []
        for x in vals:
            while isinstance(x, (VRef, VSel)):
                x = ex.load(st, x)
            ms.append([(g, k, t.f[0]) for g, k, t in x.i])
        t = W.T.fresh('ratio', 0, (1 << 192) - 1)
        good, inv = W.T.freshb('ratio_ok'), W.T.freshb('inverted')
        for _, f in picked(pid, ratio_facts(t, inv, *ms)):
            if f is not True:
                W.T.fact(t, z3.Implies(good, zb(f)))
                W.T.fact(inv, z3.Implies(good, zb(f)))
        return [(st, result(good, VS('', [W.lib.dec(t), inv])))]
    out['models::pool::Pool::get_deposit_ratio'] = ratio
    return out


def with_(W, v, path, x):
    """the value with one field replaced"""
    from types_ import toks
    ts = list(toks(path)) if isinstance(path, str) else list(path)
    if not ts:
        return x
    if isinstance(ts[0], int):
        return VA([with_(W, y, ts[1:], x) if i == ts[0] else y for i, y in enumerate(v.e)])
    k = [f for f, _ in W.types.structs[v.n]].index(ts[0])
    return VS(v.n, [with_(W, y, ts[1:], x) if i == k else y for i, y in enumerate(v.f)])


def deposit_facts(r, mx, dep, L, t):
    """what a deposit takes of every reserve, given the limits, and the LP tokens it is worth"""
    n = len(r)
    first = eqt(L, 0)
    big = Or(*[zi(x) > 10 ** 10 for x in r])
    mn = dep[0]
    for x in dep[1:]:
        mn = ite(x < mn, x, mn)
    out = [('at least one token', Or(eqt(t, 0), And(*[x >= 1 for x in dep]))), ('never more than the limit', And(*[x <= m for x, m in zip(dep, mx)])),
           ('one limit is used up', Or(*[eqt(x, m) for x, m in zip(dep, mx)])), ('the first deposit takes the limits', Implies(first, And(*[eqt(x, m) for x, m in zip(dep, mx)]))),
           ('the first deposit is worth the smallest amount', Implies(first, eqt(t, mn)))]
    for i in range(n):
        out.append(('no less than in proportion: reserve %d' % i, Or(first, eqt(dep[i], mx[i]), *[dep[i] * r[j] + 100 >= r[i] * mx[j] for j in range(n) if i != j])))
        out.append(('no larger a share of the supply than of reserve %d' % i, Or(first, t * zi(r[i]) <= L * zi(dep[i]))))
        out.append(('LP tokens only for a reserve that is not empty: %d' % i, Or(first, eqt(t, 0), r[i] > 0)))
        for j in range(n):
            if i != j:
                out.append(('no more than in the proportion of small reserves: %d and %d' % (i, j), Or(first, big, (dep[i] - 1) * r[j] < r[i] * mx[j])))
                out.append(('no more than in the proportion of large reserves: %d and %d' % (i, j), Or(first, Not(big), (dep[i] - 1) * r[j] * 250000000 <= r[i] * mx[j] * 250000001)))
    return out


def build_deposit(W, ex, st, case):
    n, k = case['n'], case.get('keys')
    W.types.fixed['Pool.dimension'] = n
    me = W.types.sym('Pool', 'Pool')
    ms = [W.types.get(me, 'reserves[%d].mint' % i) for i in range(n)]
    DISTINCT.clear()
    for i, m in enumerate(ms):
        DISTINCT[m.get_id()] = (0, m)
    ks = ms if k is None else [W.types.sym('Pubkey', 'limits.mint[%d]' % i) for i in range(k)]
    mx = VMap([(True, m, W.types.sym('TokenAmount', 'limits[%d]' % i)) for i, m in enumerate(ks)])
    L = W.types.sym('TokenAmount', 'supply')
    pre = [x[i] != x[j] for x in (ms, ks) for i in range(len(x)) for j in range(i)]
    if k == n:
        pre.append(Not(And(*[Or(*[eqt(a, b) for b in ms]) for a in ks])))
    return Call([VRef(ex.new_cell(st, me)), mx, L], pre, me=me, mx=[x[2].f[0] for x in mx.i], L=L.f[0], n=n, W=W, ms=ms)


def post_deposit(c, ex, st, v):
    me = ex.load(st, c.args[0])
    get = c.W.types.get
    r = [get(c.me, 'reserves[%d].tokens.amount' % i) for i in range(c.n)]
    r1 = [get(me, 'reserves[%d].tokens.amount' % i) for i in range(c.n)]
    dep = [a - b for a, b in zip(r1, r)]
    o, m = v.f
    t = ite(eqt(o.d, 1), o.p[1][0].f[0], 0)
    back = me
    for i in range(c.n):
        back = with_(c.W, back, 'reserves[%d].tokens.amount' % i, r[i])
    return deposit_facts(r, c.mx, dep, c.L, t) + [
        ('none rather than zero LP tokens', Implies(eqt(o.d, 1), t > 0)),
        ('the amounts are those added to the reserves', And(*[Or(*[And(g, eqt(k, mi), eqt(x.f[0], d)) for g, k, x in m.i]) for mi, d in zip(c.ms, dep)],
                                                           *[Or(Not(g), *[eqt(k, mi) for mi in c.ms]) for g, k, x in m.i])),
        ('nothing else of the pool changes', samev(c, c.me, back))]


def deposit_fn(pid):
    return Fn('models::pool::Pool::deposit_tokens', build_deposit, lambda c, ex, st, v: picked(pid, post_deposit(c, ex, st, v)), contracts=lambda W: ratio_contracts(W, pid),
              cases=[{'name': '%d reserves' % n, 'n': n} for n in (2, 3, 4)] +
                    [{'name': '%d reserves, %d limits by other names' % (n, k), 'n': n, 'keys': k, 'refused': True} for n in (2, 3, 4) for k in range(1, n + 1) if pid == 'A06' or k == n])


def deposit_contracts(pid):
    return lambda W: deposit_contract(W, pid)


def deposit_contract(W, pid):
    """... and of what a deposit takes (proved for the function itself)"""
    from lib import result
    out = lp_contracts(W, pid)

    def dep(ex, st, vals):
        me, mx, L = ex.load(st, vals[0]), vals[1], vals[2].f[0]
        n = W.types.get(me, 'dimension')
        if not isinstance(n, int) or isinstance(me, (VRef, VSel)) or not isinstance(mx, VMap):
            raise Unsupported('number of reserves')
        get = W.types.get
        ms, r, ds, ls, new = [], [], [], [], me
        good = W.T.freshb('deposit_ok')
        for i in range(n):
            ms.append(get(me, 'reserves[%d].mint' % i))
            r.append(get(me, 'reserves[%d].tokens.amount' % i))
            d = W.T.fresh('deposited', 0, U64M)
            l = None
            for g, k, x in mx.i:
                l = x.f[0] if l is None else ite(And(g, eqt(k, ms[i])), x.f[0], l)
            ls.append(W.T.name(l, 'limit'))
            ds.append(d)
            new = with_(W, new, 'reserves[%d].tokens.amount' % i, r[i] + d)
        W.lib.limits = ls
        t = W.T.fresh('lp_tokens', 0, U64M)
        fs = [f for _, f in picked(pid, deposit_facts(r, ls, ds, zi(L), t))]
        fs += [And(*[Or(*[And(g, eqt(k, m)) for g, k, x in mx.i]) for m in ms], *[Or(Not(g), *[eqt(k, m) for m in ms]) for g, k, x in mx.i]),
               And(*[a + b <= U64M for a, b in zip(r, ds)])]
        for f in fs:
            if f is not True:
                f = zb(Implies(good, zb(f)))
                for x in [good, t] + ds:
                    if any(x.eq(y) for y in z3util_vars(f)):
                        W.T.fact(x, f)
        ex.store(st, vals[0], new)
        opt = VE('Option', ite(eqt(t, 0), 0, 1), {1: [VS('TokenAmount', [t])], 0: []})
        return [(st, result(good, VS('DepositResult', [opt, VMap([(True, m, VS('TokenAmount', [d])) for m, d in zip(ms, ds)])])))]
    out['models::pool::Pool::deposit_tokens'] = dep
    return out


def z3util_vars(f):
    import lemma
    return [x for x in lemma.subterms(f) if x.num_args() == 0 and not z3.is_int_value(x)]


def lp_share(W, me, dep, t, L, n):
    out = []
    for i in range(n):
        r, m = W.types.get(me, 'reserves[%d].tokens.amount' % i), W.types.get(me, 'reserves[%d].mint' % i)
        for g, k, d in dep.i:
            out.append(('share of reserve %d' % i, Implies(And(g, eqt(k, m)), t * zi(r) <= L * zi(d.f[0]))))
            out.append(('LP tokens only for a reserve that is not empty: %d' % i, Implies(And(g, eqt(k, m)), Or(eqt(t, 0), And(r > 0, d.f[0] > 0)))))
    return out


def build_lp(W, ex, st, case):
    n = case['n']
    W.types.fixed['Pool.dimension'] = n
    me = W.types.sym('Pool', 'Pool')
    ms = [W.types.get(me, 'reserves[%d].mint' % i) for i in range(n)]
    DISTINCT.clear()
    for i, m in enumerate(ms):
        DISTINCT[m.get_id()] = (0, m)
    dep = VMap([(True, m, W.types.sym('TokenAmount', 'dep[%d]' % i)) for i, m in enumerate(ms)])
    L = W.types.sym('TokenAmount', 'supply')
    pre = [L.f[0] > 0] + [ms[i] != ms[j] for i in range(n) for j in range(i)]
    c = Call([VRef(ex.new_cell(st, me)), VRef(ex.new_cell(st, dep)), L], pre, me=me, dep=dep, L=L.f[0], n=n, W=W)
    return c


def post_lp(c, ex, st, v):
    t = ite(eqt(v.d, 1), v.p[1][0].f[0], 0)
    return [x for x in lp_share(c.W, c.me, c.dep, t, c.L, c.n) if x[1] is not True] + \
           [('the pool is only read', samev(c, c.me, ex.load(st, c.args[0]))), ('none rather than zero', Implies(eqt(v.d, 1), v.p[1][0].f[0] > 0))]


def lp_fn(pid):
    return Fn('models::pool::Pool::get_eligible_lp_tokens', build_lp, lambda c, ex, st, v: picked(pid, post_lp(c, ex, st, v)), cases=[{'name': '%d reserves' % n, 'n': n} for n in (2, 3, 4)])


def build_toll(W, ex, st, case):
    n = case['n']
    W.types.fixed['Pool.dimension'] = n
    W.types.fixed['Pool.curve?'] = case['curve']
    me = W.types.sym('Pool', 'Pool')
    ms = [W.types.get(me, 'reserves[%d].mint' % i) for i in range(n)]
    DISTINCT.clear()
    for i, m in enumerate(ms):
        DISTINCT[m.get_id()] = (0, m)
    fee, L = W.types.sym('TokenAmount', 'fee'), W.types.sym('TokenAmount', 'supply')
    pre = [ms[i] != ms[j] for i in range(n) for j in range(i)] + [L.f[0] > 0]
    return Call([VRef(ex.new_cell(st, me)), fee, ms[case['i']], L], pre, me=me, fee=fee.f[0], L=L.f[0], n=n, W=W, i=case['i'],
                R=W.types.get(me, 'reserves[%d].tokens.amount' % case['i']))


def toll_share(W, R, fee, L, t, n):
    T = W.lib.floordiv(2 * fee + 3 * n, 6 * n, 'spec')
    return [("no larger a fraction of the supply than a third of the fee is of the reserve", t * zi(R) <= T * zi(L)),
            ('nothing if that is zero', Implies(eqt(T, 0), eqt(t, 0)))]


def post_toll(c, ex, st, v):
    t = ite(eqt(v.d, 1), v.p[1][0].f[0], 0) if v.p.get(1) else 0
    return toll_share(c.W, c.R, c.fee, c.L, t, c.n) + [('the pool is only read', samev(c, c.me, ex.load(st, c.args[0]))),
                                                       ('none rather than zero', Implies(eqt(v.d, 1), v.p[1][0].f[0] > 0) if v.p.get(1) else True)]


TOLL_FN = Fn('endpoints::swap::calculate_toll_in_lp_tokens', build_toll, post_toll, contracts=lambda W: deposit_contract(W, 'A12'),
             cases=[{'name': '%d reserves, %s, reserve %d' % (n, 'stable' if c else 'constant product', i), 'n': n, 'curve': c, 'i': i}
                    for n in (2, 3, 4) for c in (0, 1) for i in range(n)])


def toll_contracts(W, pid=None):
    """... and of the LP tokens of a swap's toll (proved for the function itself)"""
    from lib import result
    out = lp_contracts(W, pid)

    def toll(ex, st, vals):
        me, fee, mint, L = ex.load(st, vals[0]), vals[1].f[0], vals[2], vals[3].f[0]
        while isinstance(me, (VRef, VSel)):
            me = ex.load(st, me)
        n = W.types.get(me, 'dimension')
        if not isinstance(n, int):
            raise Unsupported('number of reserves')
        t = W.T.fresh('toll', 0, U64M)
        good = W.T.freshb('toll_ok')
        for i in range(n) if pid == 'A12' else ():
            for k, f in toll_share(W, W.types.get(me, 'reserves[%d].tokens.amount' % i), fee, L, t, n):
                g = And(eqt(mint, W.types.get(me, 'reserves[%d].mint' % i)), zi(L) > 0)
                if g is not False and f is not True:
                    W.T.fact(t, z3.Implies(z3.And(good, zb(g)), zb(f)))
        return [(st, result(good, VE('Option', ite(eqt(t, 0), 0, 1), {1: [VS('TokenAmount', [t])], 0: []})))]
    out['endpoints::swap::calculate_toll_in_lp_tokens'] = toll
    return out


def inv_fn(amp, rs):
    f = z3.Function('D%d' % len(rs), *([z3.IntSort()] * (len(rs) + 2)))
    return f(zi(amp), *[zi(x) for x in rs])


SCI = 'math::stable_curve_invariant::'


def any_decimal(W):
    def f(ex, st, vals):
        from lib import result
        return [(st, result(W.T.freshb('ok'), W.lib.dec(W.T.fresh('any', 0, (1 << 192) - 1))))]
    return f


def newton_contracts(W):
    """nothing is assumed of one Newton step or of the polynomial's value"""
    return {SCI + 'StableCurveInvariant::newton_method_single_iteration': any_decimal(W), SCI + 'StableCurveInvariant::get_stable_swap_polynomial': any_decimal(W)}


def raw_of(W, ex, st, x, f):
    return W.lib.raw(ex, st, W.types.get(x, f))


def build_newton(W, ex, st, case):
    x = W.types.sym('StableCurveInvariant', 'x')
    return Call([x], [], g=raw_of(W, ex, st, x, 'initial_guess'), c=raw_of(W, ex, st, x, 'scl_down_coef'), W=W)


def post_newton(c, ex, st, v):
    return [('at most the initial guess, scaled', c.W.lib.raw(ex, st, v) <= c.W.lib.floordiv(c.g * c.c, WAD, 'spec'))]


NEWTON_FN = Fn(SCI + 'StableCurveInvariant::compute', build_newton, post_newton, contracts=newton_contracts, name='StableCurveInvariant::compute')


def newton_result(W):
    def f(ex, st, vals):
        from lib import result
        g, k = raw_of(W, ex, st, vals[0], 'initial_guess'), raw_of(W, ex, st, vals[0], 'scl_down_coef')
        r = W.T.fresh('newton', 0, (1 << 192) - 1)
        good = W.T.freshb('newton_ok')
        W.T.fact(r, z3.Implies(good, zb(r <= W.lib.floordiv(g * k, WAD, 'spec'))))
        return [(st, result(good, W.lib.dec(r)))]
    return {SCI + 'StableCurveInvariant::compute': f}


def build_compute(W, ex, st, case):
    a = W.types.sym('u64', 'amp')
    rs = [W.types.sym('TokenAmount', 'reserve[%d]' % i) for i in range(case['n'])]
    return Call([a, VRef(ex.new_cell(st, VVec([(True, x) for x in rs])))], [], total=sum(zi(x.f[0]) for x in rs), W=W)


def post_compute(c, ex, st, v):
    return [('at most the sum of the reserves', c.W.lib.raw(ex, st, v) <= c.total * WAD)]


COMPUTE_FN = Fn(SCI + 'compute', build_compute, post_compute, contracts=newton_result, cases=[{'name': '%d reserves' % n, 'n': n} for n in (2, 3, 4)], name='stable_curve_invariant::compute')


def a11(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    c1 = v.get(p1, 'curve')
    if v.ix == 'create_pool':
        amp0 = v.args[0]
        stable = Not(eqt(amp0, 0))
    else:
        c0 = v.get(p0, 'curve')
        stable = eqt(c0.d, 1)
        amp0 = c0.p[1][0] if c0.p.get(1) else 0
    out = [('the kind of curve stays', eqt(eqt(c1.d, 1), stable))]
    if not c1.p.get(1):
        return out
    r = [R(v, p1, i) for i in range(n)]
    d = sraw(c1.p[1][1])
    some = Or(*[eqt(x, 0) for x in r])
    if v.concrete:
        want = 0 if some else O.invariant(c1.p[1][0], r)
        same = want is not None and abs(d - want) <= 1000 ** O.scale(sum(r) * WAD)[1] * WAD
    else:
        same = eqt(d, ite(some, 0, inv_fn(amp0, r)))
    g = eqt(c1.d, 1)
    return out + [('the amplifier stays', Implies(g, eqt(c1.p[1][0], amp0))),
                  ('the stored invariant is that of the stored reserves', Implies(g, same)),
                  ('zero when a reserve is empty', Implies(And(g, some), eqt(d, 0))),
                  ('at most the sum of the reserves', Implies(g, d <= WAD * sum(r)))]


def dims(*ns, curves=(0, 1), rem=0, vec=0, extra=()):
    out = []
    for n in ns:
        for c in curves:
            out.append({'name': '%d reserves, %s' % (n, 'stable' if c else 'constant product'), 'fixed': {'Pool.dimension': n, 'Pool.curve?': c},
                        'remaining': rem * n, 'vecn': n if vec else 4, 'assume': inv_pool, 'n': n,
                        'distinct': [['Pool.reserves[%d].%s' % (i, f) for i in range(n)] for f in ('mint', 'vault')]})
    return out


def inv_pool(v):
    """what creating a pool establishes and every instruction keeps"""
    k, p0, p1 = pool(v)
    n = v.get(p0, 'dimension')
    c = [And(n >= 2, n <= 4)]
    n = v.case['n']
    for i in range(n):
        for j in range(i):
            c += [Rm(v, p0, i) != Rm(v, p0, j), Rv(v, p0, i) != Rv(v, p0, j)]      # not folded by what they justify folding
        # a vault that no account of the call names is not part of a concrete world
        c += [v.concrete and v.acc0(Rv(v, p0, i), 'TokenAccount') is None or eqt(v.mint_of(Rv(v, p0, i)), Rm(v, p0, i)), Not(eqt(Rm(v, p0, i), 0))]
    for i in range(n, NR):
        c += [eqt(Rm(v, p0, i), 0), eqt(Rv(v, p0, i), 0), eqt(R(v, p0, i), 0)]
    return c


# --- A02 ------------------------------------------------------------------------------------------------

def a02(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    sell, mn = v.get(v.args[0], 'amount'), v.get(v.args[1], 'amount')
    sw, bw, sv, bv = [v.key(v.P[x]) for x in ('sell_wallet', 'buy_wallet', 'sell_vault', 'buy_vault')]
    lp, tw = v.key(v.P['lp_mint']), v.key(v.P['program_toll_wallet'])
    sig, user = v.pda('signer', k), v.P['user']
    minted = v.sup1(lp) - v.sup0(lp)
    b = 0
    for j in range(n):
        b = ite(eqt(Rv(v, p0, j), bv), R(v, p0, j) - R(v, p1, j), b)
    chg = And(*[eqt(R(v, p1, i), R(v, p0, i) + ite(eqt(Rv(v, p0, i), sv), sell, 0) - ite(eqt(Rv(v, p0, i), bv), b, 0)) for i in range(NR)])
    tr = v.events('transfer')
    return [('it is a pool', v.isa(k, 'Pool')),
            ('the sell vault is a reserve\'s vault', Or(*[eqt(sv, Rv(v, p0, i)) for i in range(n)])),
            ('the buy vault is another reserve\'s vault', And(Not(eqt(sv, bv)), Or(*[eqt(bv, Rv(v, p0, i)) for i in range(n)]))),
            ("the LP mint and the toll wallet are the pool's", And(eqt(lp, v.get(p0, 'mint')), eqt(tw, v.get(p0, 'program_toll_wallet')))),
            ('the trader signed', v.signer(user)),
            ('exactly the offered and the bought amount move', moved(v, [(sw, sv, sell), (bv, bw, b)], [(tw, minted)])),
            ('the trader pays, the pool\'s signer pays out', And(eqt(v.count('transfer'), 2), *[Implies(e.g, ite(eqt(e.a['frm'], sw), eqt(e.a['auth'], v.key(user)), eqt(e.a['auth'], sig))) for e in tr])),
            ('the recorded reserves change by exactly those amounts', chg),
            ('the bought amount is a token amount', And(b >= 0)),
            ('the trader receives the minimum they asked for', b >= mn),
            ('the offered amount is positive', sell > 0),
            ('mints and vaults stay', And(*[And(eqt(Rm(v, p0, i), Rm(v, p1, i)), eqt(Rv(v, p0, i), Rv(v, p1, i))) for i in range(NR)])),
            ('nothing else of the pool changes', only(v, p0, p1, ('reserves', 'curve'), POOL)),
            ('no other supply changes', supplies(v, [(lp, minted)])),
            ('LP tokens are only minted', minted >= 0),
            ('no other pool changes', others(v, 'Pool', k)),
            ('nothing is created or closed', nothing_created(v))]


# --- A06, A07: deposits ---------------------------------------------------------------------------------

def vec(v, a):
    """entries of a list argument"""
    return [x for g, x in a.i]


def limit(v, lims, mint):
    """the limit given for a mint: its last entry"""
    r = None
    for x in lims:
        a = v.get(x, 'tokens.amount')
        r = a if r is None else ite(eqt(v.get(x, 'mint'), mint), a, r)
    return r


def named(v, p, n, lims):
    """the limits name exactly the pool's mints"""
    return And(*[Or(*[eqt(v.get(x, 'mint'), Rm(v, p, i)) for x in lims]) for i in range(n)],
               *[Or(*[eqt(v.get(x, 'mint'), Rm(v, p, i)) for i in range(n)]) for x in lims])


def pairs(v, n):
    ks = [v.key(v.base + i) for i in range(2 * n)]
    return [(ks[2 * i], ks[2 * i + 1]) for i in range(n)]


def settle(v, p0, p1, n, sign):
    """(vault, wallet, amount) of every pair: the change of the reserve the vault belongs to"""
    out = []
    for va, wa in pairs(v, n):
        d = 0
        for i in range(n):
            d = ite(eqt(Rv(v, p0, i), va), sign * (R(v, p1, i) - R(v, p0, i)), d)
        out.append((va, wa, d))
    return out


def a06(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    lims = vec(v, v.args[0])
    r = [R(v, p0, i) for i in range(n)]
    dep = [R(v, p1, i) - r[i] for i in range(n)]
    mx = [limit(v, lims, Rm(v, p0, i)) for i in range(n)]
    lp = v.key(v.P['lp_mint'])
    L = v.sup0(lp)
    first = eqt(L, 0)
    big = Or(*[x > 10 ** 10 for x in r])
    st = settle(v, p0, p1, n, 1)
    out = [('the limits name exactly the pool\'s mints', named(v, p0, n, lims)),
           ('at least one token of every reserve is taken', And(*[x >= 1 for x in dep])),
           ('never more than the limit', And(*[x <= m for x, m in zip(dep, mx)])),
           ('one limit is used up', Or(*[eqt(x, m) for x, m in zip(dep, mx)])),
           ('no more than in the proportion of small reserves', And(*[Or(first, big, eqt(dep[i], 0), (dep[i] - 1) * r[j] < r[i] * mx[j]) for i in range(n) for j in range(n) if i != j])),
           ('the first deposit takes the limits', Implies(first, And(*[eqt(x, m) for x, m in zip(dep, mx)]))),
           ('unused reserves stay', And(*[eqt(R(v, p1, i), R(v, p0, i)) for i in range(n, NR)])),
           ('every vault of the pool is paid once', And(*[Or(*[eqt(va, Rv(v, p0, i)) for va, wa, d in st]) for i in range(n)])),
           ('exactly the amounts added to the reserves move', moved(v, [(wa, va, d) for va, wa, d in st], [(v.key(v.P['lp_token_wallet']), v.sup1(lp) - L)])),
           ('the depositor pays', And(v.signer(v.P['user']), eqt(v.count('transfer'), n), *[Implies(e.g, eqt(e.a['auth'], v.key(v.P['user']))) for e in v.events('transfer')])),
           ('nothing else of the pool changes', And(only(v, p0, p1, ('reserves', 'curve'), POOL),
                                                    *[And(eqt(Rm(v, p0, i), Rm(v, p1, i)), eqt(Rv(v, p0, i), Rv(v, p1, i))) for i in range(NR)])),
           ('no other pool changes', others(v, 'Pool', k)),
           ('nothing is created or closed', nothing_created(v))]
    for i in range(n):
        out.append(('no less than in proportion: reserve %d' % i, Or(first, eqt(dep[i], mx[i]), *[dep[i] * r[j] + 100 >= r[i] * mx[j] for j in range(n) if i != j])))
        out += [('no more than in the proportion of large reserves: %d and %d' % (i, j), Or(first, Not(big), (dep[i] - 1) * r[j] * 250000000 <= r[i] * mx[j] * 250000001)) for j in range(n) if i != j]
    return out


def same_limits(v):
    k, p0, p1 = pool(v)
    lims = vec(v, v.args[0])
    return [(limit(v, lims, Rm(v, p0, i)), y) for i, y in enumerate(getattr(v.lib, 'limits', ()))]


def gen_pool(rng, S, n, first=False):
    """reserves, supply and balances of one pool, of related or unrelated magnitudes"""
    k, p = S.of('Pool')[0]
    r0 = amount(rng)
    rs = [0 if first else amount(rng, r0) for _ in range(n)]
    if S.get(p, 'curve').d == 1:
        # reserves of a stable pool are near each other
        m = rng.randint(1, 10 ** rng.randint(1, 15))
        if not first:
            rs = [max(1, int(m * rng.uniform(.3, 1))) for x in rs]
        amp = rng.choice([1, 2, 10, 85, 1000])
        c = S.get(p, 'curve').p[1]
        c[0] = amp
        c[1].f[0] = VLimbs(0 if first else O.invariant(amp, rs) or 0)
    for i in range(n):
        S.set(p, 'reserves[%d].tokens.amount' % i, rs[i])
        S.balance(S.get(p, 'reserves[%d].vault' % i), rs[i])
    m = S.at(S.get(p, 'mint'))
    L = 0 if first else amount(rng, *rs)
    if m is not None:
        S.set(m, 'supply', L)
    vs = [S.get(p, 'reserves[%d].vault' % i) for i in range(n)]
    for key, t in S.of('TokenAccount'):
        S.set(t, 'delegated_amount', U64M)
        if S.get(t, 'mint') == S.get(p, 'mint'):
            S.set(t, 'amount', amount(rng, L) if not first else 0)
        elif key not in vs:
            S.set(t, 'amount', rng.choice([1 << 62, (1 << 64) - 1 - max(rs), amount(rng, *rs)]))
    return p, rs, L

def a07(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    r = [R(v, p0, i) for i in range(n)]
    dep = [R(v, p1, i) - r[i] for i in range(n)]
    lp, w = v.key(v.P['lp_mint']), v.key(v.P['lp_token_wallet'])
    L = v.sup0(lp)
    m = v.sup1(lp) - L
    mn = dep[0]
    for x in dep[1:]:
        mn = ite(x < mn, x, mn)
    ev = v.events('mint')
    return [("the LP mint is the pool's", eqt(lp, v.get(p0, 'mint'))),
            ('LP tokens are minted', m > 0),
            ('no larger a share of the supply than of any reserve', And(*[Implies(L > 0, m * x <= d * L) for x, d in zip(r, dep)])),
            ('the first deposit mints the smallest amount', Implies(eqt(L, 0), eqt(m, mn))),
            ('no other supply changes', supplies(v, [(lp, m)])),
            ('they go to one wallet of the depositor\'s choice', And(eqt(v.count('mint'), 1), eqt(v.mint_of(w), lp),
                                                               *[Implies(e.g, And(eqt(e.a['to'], w), eqt(e.a['mint'], lp), eqt(e.a['auth'], v.pda('signer', k)))) for e in ev])),
            ('no LP tokens are burned', eqt(v.count('burn'), 0))]


# --- A08 ------------------------------------------------------------------------------------------------

def a08(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    lims = vec(v, v.args[1])
    lpt = v.get(v.args[0], 'amount')
    r = [R(v, p0, i) for i in range(n)]
    pay = [r[i] - R(v, p1, i) for i in range(n)]
    mn = [limit(v, lims, Rm(v, p0, i)) for i in range(n)]
    lp, w, user = v.key(v.P['lp_mint']), v.key(v.P['lp_token_wallet']), v.P['user']
    L = v.sup0(lp)
    st = settle(v, p0, p1, n, -1)
    return [("the LP mint is the pool's", eqt(lp, v.get(p0, 'mint'))),
            ('the limits name exactly the pool\'s mints', named(v, p0, n, lims)),
            ('not more than exist', And(L > 0, lpt <= L)),
            ('not more than the user has', And(lpt <= v.bal0(w), eqt(v.mint_of(w), lp))),
            ('exactly the given LP tokens are burned', And(eqt(v.sup1(lp), L - lpt), eqt(v.count('mint'), 0), eqt(v.count('burn'), 1),
                                                         *[Implies(e.g, And(eqt(e.a['frm'], w), eqt(e.a['mint'], lp), eqt(e.a['auth'], v.key(user)))) for e in v.events('burn')])),
            ('no other supply changes', supplies(v, [(lp, 0 - lpt)])),
            ('at most the burned share is paid', And(*[y * L <= x * lpt for x, y in zip(r, pay)])),
            ('at least the burned share rounded down at the resolution', And(*[(y + 1) * L * WAD + x * L > x * lpt * WAD for x, y in zip(r, pay)])),
            ('the whole supply pays everything', Implies(eqt(lpt, L), And(*[eqt(x, y) for x, y in zip(r, pay)]))),
            ('at least the minimum is paid', And(*[y >= m for y, m in zip(pay, mn)])),
            ('nothing negative is paid', And(*[y >= 0 for y in pay])),
            ('unused reserves stay', And(*[eqt(R(v, p1, i), R(v, p0, i)) for i in range(n, NR)])),
            ('every vault of the pool pays once', And(*[Or(*[eqt(va, Rv(v, p0, i)) for va, wa, d in st]) for i in range(n)])),
            ('exactly the amounts removed from the reserves move', moved(v, [(va, wa, d) for va, wa, d in st], [(w, 0 - lpt)])),
            ("the pool's signer pays, the user signed", And(v.signer(user), eqt(v.count('transfer'), n), *[Implies(e.g, eqt(e.a['auth'], v.pda('signer', k))) for e in v.events('transfer')])),
            ('paid to the user\'s own wallets', And(*[eqt(v.get(v.acc0(wa, 'TokenAccount'), 'owner'), v.key(user)) for va, wa, d in st])),
            ('nothing else of the pool changes', And(only(v, p0, p1, ('reserves', 'curve'), POOL),
                                                     *[And(eqt(Rm(v, p0, i), Rm(v, p1, i)), eqt(Rv(v, p0, i), Rv(v, p1, i))) for i in range(NR)])),
            ('no other pool changes', others(v, 'Pool', k)),
            ('nothing is created or closed', nothing_created(v))]


def gen_redeem(rng, S, case):
    n = case['n']
    p, rs, L = gen_pool(rng, S, n)
    m = S.at(S.get(p, 'mint'))
    own = [t for k, t in S.of('TokenAccount') if S.get(t, 'mint') == S.get(p, 'mint')]
    lp = L if rng.random() < .2 else min(L, amount(rng, L))
    for t in own:
        S.set(t, 'amount', rng.choice([lp, L, min(L, amount(rng, lp))]))
    S.set(S.args[0], 'amount', lp)
    vs = [S.get(p, 'reserves[%d].vault' % i) for i in range(n)]
    for key, t in S.of('TokenAccount'):
        if S.get(t, 'mint') != S.get(p, 'mint') and key not in vs:
            S.set(t, 'amount', 0)
    for x in vec(S, S.args[1]):
        r = [rs[i] for i in range(n) if S.get(p, 'reserves[%d].mint' % i) == S.get(x, 'mint')]
        e = r[0] * lp // max(L, 1) if r else 0
        S.set(x, 'tokens.amount', rng.choice([0, 0, 1, e, max(0, e - 1), min(U64M, e + 1)]))


def gen_deposit(rng, S, case):
    n = case['n']
    p, rs, L = gen_pool(rng, S, n, case.get('first'))
    rs = [max(x, 1) for x in rs]
    j = amount(rng, *rs)
    for x in vec(S, S.args[0]):
        S.set(x, 'tokens.amount', rng.choice([amount(rng, *rs), amount(rng), min(U64M, max(1, rs[0] * j // max(rs) + rng.randint(0, 2)))]))
    for i in range(n):
        if rng.random() < .5:
            for x in vec(S, S.args[0]):
                if S.get(x, 'mint') == S.get(p, 'reserves[%d].mint' % i):
                    S.set(x, 'tokens.amount', max(1, min(U64M, rs[i] * j // max(rs) + rng.randint(0, 2))))


def hint_pool(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    out = [eqt(R(v, p0, i), 1000 + i) for i in range(n)]
    if v.case.get('first'):
        out = [eqt(R(v, p0, i), 0) for i in range(n)]
    else:
        out += [eqt(v.sup0(v.key(v.P['lp_mint'])), 500)] if 'lp_mint' in v.P else []
    return out


def hint_deposit(v):
    return hint_pool(v) + [eqt(v.get(x, 'tokens.amount'), 100 + i) for i, x in enumerate(vec(v, v.args[0]))]


def hint_redeem(v):
    return hint_pool(v) + [eqt(v.get(v.args[0], 'amount'), 50)] + [eqt(v.get(x, 'tokens.amount'), 1) for i, x in enumerate(vec(v, v.args[1]))]


import os


# --- A09: follows from the contracts of deposits and redemptions ------------------------------------------------

def share_minted(m, r, d, L):
    return Implies(L > 0, m * r <= d * L)


def share_paid(pay, r, lp, L):
    return pay * L <= r * lp


def a09_deposit(v):
    k, p0, p1 = pool(v)
    n = v.case['n']
    L = v.sup0(v.key(v.P['lp_mint']))
    m = v.sup1(v.key(v.P['lp_mint'])) - L
    keep = ('no larger a share of the supply than of any reserve', "the LP mint is the pool's", 'LP tokens are minted', 'they go to one wallet of the depositor\'s choice')
    own = ('exactly the amounts added to the reserves move', 'at least one token of every reserve is taken')
    return [x for x in a07(v) if x[0] in keep] + [('reserves grow by what is deposited', And(*[R(v, p1, i) >= R(v, p0, i) for i in range(n)]))] + [x for x in a06(v) if x[0] in own]


def a09_redeem(v):
    keep = ('at most the burned share is paid', "the LP mint is the pool's", 'exactly the given LP tokens are burned', 'exactly the amounts removed from the reserves move', 'nothing negative is paid')
    return [x for x in a08(v) if x[0] in keep]


def a09_claims(num, case):
    r, d, L, m, pay = [num(x) for x in ('reserve', 'deposit', 'supply', 'minted', 'paid')]
    hyp = [m > 0, share_minted(m, r, d, L), Implies(eqt(L, 0), eqt(r, 0)), share_paid(pay, r + d, m, L + m)]
    return [('a deposit and its redemption pay back at most what was deposited', hyp, pay <= d),
            ("the remaining holders' reserve does not shrink", hyp, r + d - pay >= r)]


# --- A01, A03, A12: swaps -----------------------------------------------------------------------------------

def bind_swap(i, j):
    def f(W):
        out = {}
        P = POS['swap'].split()
        for r, acc in ((i, 'sell_vault'), (j, 'buy_vault')):
            k = z3.Int('acc%d' % P.index(acc))
            out['Pool.reserves[%d].vault' % r] = k
            out['Pool.reserves[%d].mint' % r] = W.types.get(W.types.sym('TokenAccount', 'TokenAccount', keys=(k,)), 'mint')
        return out
    return f


def swap_cases(*ns, curves=(0,), discounts=(False, True)):
    out = []
    for c in dims(*ns, curves=curves):
        for i in range(c['n']):
            for j in range(c['n']):
                for d in discounts:
                    if i != j:
                        out.append(dict(c, name=c['name'] + ', %d to %d%s' % (i, j, ', discount' if d else ', no discount' if d is False else ''), bind=bind_swap(i, j), i=i, j=j, disc=d, curve=c['fixed']['Pool.curve?'],
                                        start=lambda v: [True if v.case['disc'] is None else v.isa(v.key(v.P['discount']), 'Discount') if v.case['disc'] else Not(v.isa(v.key(v.P['discount']), 'Discount')),
                                                         eqt(Rv(v, pool(v)[1], v.case['i']), v.key(v.P['sell_vault'])), eqt(Rv(v, pool(v)[1], v.case['j']), v.key(v.P['buy_vault']))]))
    return out


def fdiv(v, a, b):
    return a // b if v.concrete else v.lib.floordiv(a, b, 'spec')


def the_fee(v, p0):
    """fee of the swap: offered amount times pool fee less a valid discount, rounded up to a whole token"""
    s = v.get(v.args[0], 'amount')
    pf = fee(v, p0)
    d = v.key(v.P['discount'])
    def share(D):
        return fdiv(v, s * pf * (10 ** 6 - D) + (10 ** 12 - 1), 10 ** 12)
    nf = share(0)
    f = nf
    disc = v.case['disc']
    if disc is None:
        disc = v.isa(d, 'Discount')
    if disc is not False:
        a = v.acc0(d, 'Discount')
        D = v.get(a, 'amount.permillion')
        f = ite(And(disc, v.get(a, 'valid_until.slot') >= v.clock, D > 0), share(D), nf)
    return s, f, nf


def swap_terms(v):
    k, p0, p1 = pool(v)
    n, i, j = v.case['n'], v.case['i'], v.case['j']
    r = [R(v, p0, x) for x in range(n)]
    b = r[j] - R(v, p1, j)
    oth, K = 1, 1
    for x in range(n):
        K = K * r[x]
        if x not in (i, j):
            oth = oth * r[x]
    return k, p0, p1, n, r, r[i], r[j], b, oth, K


def a01(v):
    k, p0, p1, n, r, Rs, Rb, b, oth, K = swap_terms(v)
    s, f, nf = the_fee(v, p0)
    p = (Rs + s - f) * oth
    return [('no reserve is empty before', And(*[x >= 1 for x in r])),
            ('the product of the reserves does not shrink', (Rb - b) * p * WAD > K * WAD - p),
            ('one more token would shrink it', (Rb - b - 1) * p < K),
            ('the bought reserve is not emptied', Rb - b >= 1),
            ('nothing negative is paid', b >= 0),
            ('the sold reserve grows by the offered amount', eqt(R(v, p1, v.case['i']), Rs + s)),
            ('the other reserves stay', And(*[eqt(R(v, p1, x), r[x]) for x in range(n) if x not in (v.case['i'], v.case['j'])]))]


def a03(v):
    k, p0, p1, n, r, Rs, Rb, b, oth, K = swap_terms(v)
    s, f, nf = the_fee(v, p0)
    pf = fee(v, p0)
    d = v.key(v.P['discount'])
    out = [('the fee is at most the offered amount', And(f <= s, f >= 0)),
           ('a discount never makes it larger', f <= nf),
           ("only the trader's own discount counts", eqt(d, v.pda('discount', v.key(v.P['user'])))),
           ('the trader signed', v.signer(v.P['user'])),
           ('the fee stays in the pool', eqt(R(v, p1, v.case['i']), Rs + s))]
    if v.case['curve'] == 0:
        p = (Rs + s - f) * oth
        return out + [('the payout is for no more than the offered amount less the fee', (Rb - b) * p * WAD > K * WAD - p),
                      ('the payout is for no less than the offered amount less the fee', (Rb - b - 1) * p < K)]
    x = curve_at(v, p0, n, Rs + s - f)
    if x is None:
        return out
    return out + [('the payout is the curve\'s for the offered amount less the fee', And(b * WAD <= Rb * WAD - x, Rb * WAD - x < b * WAD + WAD))]


def sraw(x):
    """the scaled integer an SDecimal holds"""
    return x.f[0].raw


def curve_at(v, p0, n, sold):
    """what the stable curve leaves in the bought reserve once the sold one holds `sold`"""
    i, j = v.case['i'], v.case['j']
    o = [R(v, p0, x) for x in range(n) if x not in (i, j)]
    sm, pr = sold, sold
    for x in o:
        sm, pr = sm + x, pr * x
    c = v.get(p0, 'curve').p[1]
    amp, d = c[0], sraw(c[1])
    if v.concrete:
        return O.swap(n, amp * WAD, d, sm * WAD, pr * WAD)
    return v.lib.curve_fn(n, amp * WAD, d, sm * WAD, pr * WAD)


def swap_facts(lib, n, curve, r, i, j, a, b, amp=None, d=None):
    """what a swap pays out for what goes into the curve"""
    oth, K = 1, 1
    for x in range(n):
        K = K * zi(r[x])
        if x not in (i, j):
            oth = oth * zi(r[x])
    p = (zi(r[i]) + a) * oth
    out = [('no reserve is empty before', And(*[x >= 1 for x in r])), ('less is sold than there is', a < r[i]), ('the sold reserve is a token amount', r[i] + a <= U64M),
           ('no more than the reserve is bought', b <= r[j])]
    if curve == 0:
        return out + [('the product of the reserves does not shrink', (r[j] - b) * p * WAD > K * WAD - p), ('one more token would shrink it', (r[j] - b - 1) * p < K),
                      ('the bought reserve is not emptied', r[j] - b >= 1)]
    sm, pr = zi(r[i]) + a, zi(r[i]) + a
    for x in range(n):
        if x not in (i, j):
            sm, pr = sm + r[x], pr * r[x]
    y = lib.curve_fn(n, amp * WAD, d, sm * WAD, pr * WAD)
    return out + [("the payout is the curve's", And(b * WAD <= r[j] * WAD - y, r[j] * WAD - y < b * WAD + WAD))]


def build_swap(W, ex, st, case):
    n, i, j = case['n'], case['i'], case['j']
    W.types.fixed['Pool.dimension'] = n
    W.types.fixed['Pool.curve?'] = case['curve']
    me = W.types.sym('Pool', 'Pool')
    get = W.types.get
    ms = [get(me, 'reserves[%d].mint' % x) for x in range(n)]
    DISTINCT.clear()
    for x, m in enumerate(ms):
        DISTINCT[m.get_id()] = (0, m)
    a = W.types.sym('TokenAmount', 'sold')
    pre = [ms[x] != ms[y] for x in range(n) for y in range(x)]
    return Call([VRef(ex.new_cell(st, me)), ms[i], a, ms[j]], pre, me=me, a=a.f[0], n=n, i=i, j=j, W=W, r=[get(me, 'reserves[%d].tokens.amount' % x) for x in range(n)], curve=case['curve'])


def post_swap(c, ex, st, v):
    me = ex.load(st, c.args[0])
    get = c.W.types.get
    b = v.f[0]
    amp = d = None
    if c.curve:
        q = get(c.me, 'curve').p[1]
        amp, d = q[0], sraw(q[1])
    back = me
    for x in range(c.n):
        back = with_(c.W, back, 'reserves[%d].tokens.amount' % x, c.r[x])
    want = [c.r[x] + (c.a if x == c.i else 0) - (b if x == c.j else 0) for x in range(c.n)]
    return swap_facts(c.W.lib, c.n, c.curve, c.r, c.i, c.j, c.a, b, amp, d) + [
        ('the reserves change by exactly those amounts', And(*[eqt(get(me, 'reserves[%d].tokens.amount' % x), want[x]) for x in range(c.n)])),
        ('nothing else of the pool changes', samev(c, c.me, back))]


def swap_fn(pid):
    return Fn('models::pool::Pool::swap', build_swap, lambda c, ex, st, v: picked(pid, post_swap(c, ex, st, v)), name='Pool::swap', contracts=lambda W: amm_contracts(W, pid),
              cases=[{'name': '%d reserves, %s, %d to %d' % (n, 'stable' if c else 'constant product', i, j), 'n': n, 'curve': c, 'i': i, 'j': j}
                     for n in (2, 3, 4) for c in (0, 1) for i in range(n) for j in range(n) if i != j])


def swap_contracts(pid):
    return lambda W: swap_contract(W, pid)


def swap_contract(W, pid):
    """... and of what a swap pays out (proved for the function itself)"""
    from lib import result
    out = toll_contracts(W, pid)

    def swap(ex, st, vals):
        me, sell, a, buy = ex.load(st, vals[0]), vals[1], vals[2].f[0], vals[3]
        get = W.types.get
        n = get(me, 'dimension') if not isinstance(me, (VRef, VSel)) else None
        if not isinstance(n, int):
            raise Unsupported('number of reserves')
        ms = [get(me, 'reserves[%d].mint' % x) for x in range(n)]
        i = [x for x in range(n) if eqt(sell, ms[x]) is True]
        j = [x for x in range(n) if eqt(buy, ms[x]) is True]
        cv = get(me, 'curve')
        if len(i) != 1 or len(j) != 1 or i == j or not isinstance(cv.d, int):
            raise Unsupported('which reserves are swapped')
        i, j = i[0], j[0]
        r = [get(me, 'reserves[%d].tokens.amount' % x) for x in range(n)]
        a = W.T.name(zi(a), 'sold')
        b = W.T.fresh('bought', 0, U64M)
        good = W.T.freshb('swap_ok')
        amp, d = (cv.p[1][0], sraw(cv.p[1][1])) if cv.d == 1 else (None, None)
        for _, f in picked(pid, swap_facts(W.lib, n, cv.d, r, i, j, a, b, amp, d)):
            if f is not True:
                f = zb(Implies(good, zb(f)))
                for x in [good, b]:
                    if any(x.eq(y) for y in z3util_vars(f)):
                        W.T.fact(x, f)
        new = with_(W, with_(W, me, 'reserves[%d].tokens.amount' % i, r[i] + a), 'reserves[%d].tokens.amount' % j, r[j] - b)
        ex.store(st, vals[0], new)
        return [(st, result(good, VS('TokenAmount', [b])))]
    out['models::pool::Pool::swap'] = swap
    return out


# --- A12 ------------------------------------------------------------------------------------------------

def a12(v):
    k, p0, p1, n, r, Rs, Rb, b, oth, K = swap_terms(v)
    s, f, nf = the_fee(v, p0)
    lp, tw = v.key(v.P['lp_mint']), v.key(v.P['program_toll_wallet'])
    L = v.sup0(lp)
    m = v.sup1(lp) - L
    T = fdiv(v, 2 * f + 3 * n, 6 * n)
    ev = v.events('mint')
    return [("no larger a fraction of the supply than a third of the fee is of the reserve", m * (Rs + s) <= T * L),
            ('nothing is minted if that is zero', Implies(eqt(T, 0), And(eqt(m, 0), eqt(v.count('mint'), 0)))),
            ('LP tokens are only minted, of the pool\'s mint', And(m >= 0, eqt(v.count('burn'), 0), supplies(v, [(lp, m)]), eqt(lp, v.get(p0, 'mint')))),
            ("only to the pool's toll wallet, by the pool's signer", And(eqt(tw, v.get(p0, 'program_toll_wallet')), v.count('mint') <= 1,
                                                                   *[Implies(e.g, And(eqt(e.a['to'], tw), eqt(e.a['mint'], lp), eqt(e.a['auth'], v.pda('signer', k)))) for e in ev])),
            ('the pool is not changed by it', And(*[eqt(R(v, p1, x), r[x] + (s if x == v.case['i'] else 0)) for x in range(n) if x != v.case['j']],
                                               *[Implies(e.g, ite(eqt(e.a['frm'], Rv(v, p0, v.case['j'])), eqt(e.a['amount'], b), True)) for e in v.events('transfer')])),
            ('some liquidity exists', L > 0)]


def disc_ok(v):
    """what storing a discount and setting a fee establish"""
    k, p0, p1 = pool(v)
    out = [fee(v, p0) <= 10000]
    if v.case['disc'] is not False:
        d = v.key(v.P['discount'])
        a = v.acc0(d, 'Discount')
        out.append(Implies(v.isa(d, 'Discount'), v.get(a, 'amount.permillion') <= 1000000) if a is not None else True)
    return out


def gen_swap(rng, S, case):
    n = case['n']
    p, rs, L = gen_pool(rng, S, n)
    S.set(p, 'swap_fee.permillion', rng.choice([0, 1, 500, 3000, 9999, 10000, rng.randint(0, 10000)]))
    for key, d in S.of('Discount'):
        S.set(d, 'amount.permillion', rng.choice([0, 1, 1000000, 999999, rng.randint(0, 1000000)]))
        S.set(d, 'valid_until.slot', rng.choice([S.slot, S.slot - 1, S.slot + 1, amount(rng, S.slot)]))
    i, j = case['i'], case['j']
    s = amount(rng, rs[i])
    if rng.random() < .9:
        s = min(s, max(1, rs[i] - rng.choice([0, 1, 2, rs[i] // 2, rs[i] * 9 // 10])))
    S.set(S.args[0], 'amount', s)
    tw = S.at(S.get(p, 'program_toll_wallet'))
    if tw is not None:
        S.set(tw, 'mint', S.get(p, 'mint'))
        S.set(tw, 'state', VE('AccountState', 1, {}))
    lm = S.at(S.get(p, 'mint'))
    if lm is not None:
        S.set(lm, 'mint_authority', VE('COption', 1, {1: [V.b2k(S.accs[S.pos[POS['swap'].split().index('pool_signer')]]['key'])], 0: []}))
    f = -(-s * S.get(p, 'swap_fee.permillion') // 10 ** 6)
    e, e2 = [max(0, rs[j] - -(-rs[i] * rs[j] // max(1, rs[i] + x))) for x in (s, s - f)]
    S.set(S.args[1], 'amount', rng.choice([0, 0, 0, 0, 1, e, max(0, e - 1), e2, e2 + 1]))
    vs = [S.get(p, 'reserves[%d].vault' % x) for x in range(n)]
    for key, t in S.of('TokenAccount'):
        if key not in vs:
            if S.get(t, 'mint') == S.get(p, 'reserves[%d].mint' % i):
                S.set(t, 'amount', rng.choice([s, max(s, 1 << 62)]))
            else:
                S.set(t, 'amount', 0)


def hint_swap(v):
    out = hint_pool(v) + [eqt(v.get(v.args[0], 'amount'), 100), eqt(v.get(v.args[1], 'amount'), 1), v.clock > 100, v.clock < 100000]
    k, p0, p1 = pool(v)
    i, j = v.case['i'], v.case['j']
    ks = [v.key(v.P[x]) for x in ('sell_wallet', 'buy_wallet', 'sell_vault', 'buy_vault')]
    out += [eqt(v.bal0(ks[0]), 5000), eqt(v.bal0(ks[1]), 7), eqt(v.bal0(ks[2]), 1000 + i), eqt(v.bal0(ks[3]), 1000 + j)] + [Not(eqt(ks[x], ks[y])) for x in range(4) for y in range(x)]
    if v.case.get('curve'):
        n = v.case['n']
        c = v.get(p0, 'curve').p[1]
        r = [1000 + i for i in range(n)]
        d = O.invariant(10, r)
        i, j = v.case['i'], v.case['j']
        sm, pr = 1100 - 1 + i, 1100 - 1 + i
        for x in range(n):
            if x not in (i, j):
                sm, pr = sm + r[x], pr * r[x]
        out += [eqt(c[0], 10), eqt(sraw(c[1]), d), eqt(fee(v, p0), 10000), eqt(v.lib.curve_fn(n, 10 * WAD, d, sm * WAD, pr * WAD), O.swap(n, 10 * WAD, d, sm * WAD, pr * WAD)),
                Not(v.isa(v.key(v.P['discount']), 'Discount'))]
        b = (r[j] * WAD - O.swap(n, 10 * WAD, d, sm * WAD, pr * WAD)) // WAD
        r[i] += 100
        r[j] -= b
        out.append(eqt(inv_fn(10, r), O.invariant(10, r)))
    return out


def supply0(v):
    return v.sup0(v.key(v.P['lp_mint']))


def first_later(cs):
    out = []
    for c in cs:
        out.append(dict(c, name=c['name'] + ', first deposit', start=lambda v: [eqt(supply0(v), 0)], first=True))
        out.append(dict(c, name=c['name'], start=lambda v: [supply0(v) > 0], first=False))
    return out


DIMS = [int(x) for x in os.environ.get("DIMS", "2 3 4").split()]
DEP = first_later(dims(*DIMS, rem=2, vec=1, curves=(0,)))
DEPS = first_later(dims(*DIMS, rem=2, vec=1))
REDS = [dict(c, refused=c['first']) for c in DEPS]
# no LP tokens exist: nothing can be redeemed
RED = [dict(c, refused=c['first']) for c in DEP]



POOLN = [{'name': '%d vaults' % n, 'remaining': n, 'refused': n not in (2, 3, 4)} for n in (0, 1, 2, 3, 4, 5)]
SPECS = {
    'A04': [Spec('set_pool_swap_fee', a04_set), Spec('create_pool', a04_create, cases=[c for c in POOLN if not c['refused']], contracts=amm_contracts)] +
           [Spec(x, a04_frame, name=x + ' (frame)') for x in ('put_discount', 'create_program_toll', 'create_discount_settings')],
    'A05': [Spec('put_discount', a05_put), Spec('create_program_toll', a05_authority('program_toll', 'ProgramToll', 'toll', 'program_toll_authority')),
            Spec('create_discount_settings', a05_authority('discount_settings', 'DiscountSettings', 'discount_settings', 'discount_settings_authority'))] +
           [Spec('set_pool_swap_fee', a05_frame, name='set_pool_swap_fee (frame)'), Spec('create_pool', a05_frame, name='create_pool (frame)', cases=[c for c in POOLN if not c['refused']], contracts=amm_contracts)],
    'A01': [swap_fn('A01'), Spec('swap', a01, pre=disc_ok, cases=swap_cases(*DIMS), contracts=swap_contracts('A01'), gen=gen_swap, hint=hint_swap)],
    'A03': [swap_fn('A03'), Spec('swap', a03, pre=disc_ok, cases=swap_cases(*DIMS) + swap_cases(*DIMS, curves=(1,), discounts=(None,)), contracts=swap_contracts('A03'), gen=gen_swap, hint=hint_swap)],
    'A12': [lp_fn('A12'), deposit_fn('A12'), swap_fn('A12'), TOLL_FN, Spec('swap', a12, pre=disc_ok, cases=swap_cases(*DIMS, curves=(0, 1), discounts=(None,)), contracts=swap_contracts('A12'), gen=gen_swap, hint=hint_swap)],
    'A02': [swap_fn('A02'), Spec('swap', a02, cases=dims(2, 3, 4), contracts=amm_contracts),
            Spec('swap', a02, pre=disc_ok, cases=swap_cases(*DIMS, curves=(0, 1), discounts=(None,)), contracts=swap_contracts('A02'), gen=gen_swap, hint=hint_swap, name='swap between two reserves')],
    'A06': [RATIO_FN, lp_fn('A06'), deposit_fn('A06'), Spec('deposit_liquidity', a06, cases=DEPS, contracts=deposit_contracts('A06'), subst=same_limits, gen=gen_deposit, hint=hint_deposit)],
    'A07': [lp_fn('A07'), deposit_fn('A07'), Spec('deposit_liquidity', a07, cases=DEPS, contracts=deposit_contracts('A07'), gen=gen_deposit, hint=hint_deposit)],
    'A08': [Spec('redeem_liquidity', a08, cases=REDS, contracts=amm_contracts, gen=gen_redeem, hint=hint_redeem)],
    'A09': [lp_fn('A09'), deposit_fn('A09'), Lemma('deposit then redeem', a09_claims), Spec('deposit_liquidity', a09_deposit, cases=DEPS, contracts=deposit_contracts('A09'), gen=gen_deposit, hint=hint_deposit),
            Spec('redeem_liquidity', a09_redeem, cases=REDS, contracts=amm_contracts, gen=gen_redeem, hint=hint_redeem)],
    'A10': [Spec('create_pool', a10, cases=POOLN, contracts=amm_contracts)],
    'A11': [NEWTON_FN, COMPUTE_FN, deposit_fn('A11'), swap_fn('A11'), Spec('create_pool', a11, cases=[dict(c, n=c['remaining']) for c in POOLN if not c['refused']], contracts=lambda W: amm_contracts(W, 'A11')),
            Spec('deposit_liquidity', a11, cases=DEPS, contracts=deposit_contracts('A11'), gen=gen_deposit, hint=hint_deposit),
            Spec('redeem_liquidity', a11, cases=REDS, contracts=lambda W: amm_contracts(W, 'A11'), gen=gen_redeem, hint=hint_redeem),
            Spec('swap', a11, cases=swap_cases(*DIMS, curves=(0, 1), discounts=(None,)), contracts=swap_contracts('A11'), gen=gen_swap, hint=hint_swap)],
}
LEVEL = {'A11': {'note': 'Nothing is assumed of a Newton step; the value of the invariant is claimed only to be the function computed and at most the sum.'},
         'A09': {'note': 'Reserves are assumed empty when no LP tokens exist.'}}
