"""Contracts of the farming program's instructions."""
from val import *
from view import nth, const_id
from prove import Spec, Fn, Call
from mir import Unsupported
import z3

U64M = (1 << 64) - 1


def farm(v, name='farm'):
    k = v.key(v.P[name])
    return k, v.acc0(k, 'Farm'), v.acc1(k, 'Farm')


def samev(v, a, b):
    """structural equality"""
    if isinstance(a, VS):
        return And(*[samev(v, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VA):
        return And(*[samev(v, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, VLimbs):
        return eqt(a.raw, b.raw)
    if isinstance(a, VBig):
        if all(x.eq(y) for x, y in zip(a.arrs, b.arrs)):
            return True
        return And(*[x == y for x, y in zip(a.arrs, b.arrs)])
    if isinstance(a, VE):
        cs = [eqt(a.d, b.d)]
        for k in a.p:
            if k in b.p:
                for x, y in zip(a.p[k], b.p[k]):
                    cs.append(Implies(eqt(a.d, k), samev(v, x, y)))
        return And(*cs)
    return eqt(a, b)


def ADMIN(v):
    """some signer holds the admin key recorded in the farm"""
    k, f0, f1 = farm(v)
    adm = v.get(f0, 'admin')
    return Or(*[And(v.signer(i), eqt(v.key(i), adm)) for i in range(v.base)])



NM, NP, RING = 10, 10, 1000


def fld(v, f, *names):
    return [v.get(f, n) for n in names]


FARM = ('admin', 'stake_mint', 'stake_vault', 'harvests', 'snapshots', 'min_snapshot_window_slots')
FARMER = ('authority', 'farm', 'staked', 'vested', 'vested_at', 'calculate_next_harvest_from', 'harvests')


def only(v, a, b, changed, fields):
    """every field but the named ones is as before"""
    return And(*[samev(v, v.get(a, x), v.get(b, x)) for x in fields if x not in changed])


def farms_same(v):
    """no farm is changed"""
    return v.forall_key(lambda k: isfarm_same(v, k))


def isfarm_same(v, k):
    a, b = v.acc0(k, 'Farm'), v.acc1(k, 'Farm')
    if a is None or b is None:
        return a is None and b is None
    return samev(v, a, b)


def farmers_same(v):
    def f(k):
        a, b = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer')
        if a is None or b is None:
            return a is None and b is None
        return samev(v, a, b)
    return v.forall_key(f)


def signed_by(v, who):
    return Or(*[And(v.signer(i), eqt(v.key(i), who)) for i in range(v.base)])


def bal_delta(v, moves):
    """exactly these (from, to, amount) movements of tokens happened, nothing else"""
    def f(k):
        d = 0
        for frm, to, amt in moves:
            d = d + ite(eqt(k, to), amt, 0) - ite(eqt(k, frm), amt, 0)
        return eqt(v.bal1(k), v.bal0(k) + d)
    return v.forall_key(f)


def no_tokens_move(v):
    return bal_delta(v, [])


def H(v, f, i):
    return v.get(f, 'harvests[%d]' % i)


def per(v, f, i, j):
    p = v.get(f, 'harvests[%d].periods[%d]' % (i, j))
    return v.get(p, 'starts_at.slot'), v.get(p, 'ends_at.slot'), v.get(p, 'tps.amount')


def hmint(v, f, i):
    return v.get(f, 'harvests[%d].mint' % i)


def hvault(v, f, i):
    return v.get(f, 'harvests[%d].vault' % i)


def empty_entry(v, f, i):
    return And(eqt(hvault(v, f, i), 0), *[eqt(x, 0) for j in range(NP) for x in per(v, f, i, j)])


def inv_mints(v, k, f):
    """registered mints differ, free positions are blank, vaults are the farm's own"""
    c = []
    for i in range(NM):
        for j in range(i):
            c.append(Or(eqt(hmint(v, f, i), 0), Not(eqt(hmint(v, f, i), hmint(v, f, j)))))
        c.append(Implies(eqt(hmint(v, f, i), 0), empty_entry(v, f, i)))
    return And(*c)


def inv_vaults(v, k, f):
    return And(*[Implies(Not(eqt(hmint(v, f, i), 0)), eqt(hvault(v, f, i), v.pda('harvest_vault', k, hmint(v, f, i)))) for i in range(NM)])


def inv_periods(v, f, i, clock):
    """newest first, disjoint, started ones before the clock except perhaps the newest"""
    c = []
    for j in range(NP):
        s, e, t = per(v, f, i, j)
        c.append(s <= e)
        if j:
            ps, pe, pt = per(v, f, i, j - 1)
            c.append(Or(eqt(e, 0), e < ps))
            c.append(Implies(eqt(pe, 0), And(eqt(e, 0), eqt(t, 0))))
            c.append(s <= clock)
        c.append(Implies(eqt(e, 0), eqt(t, 0)))
        c.append(Implies(e > 0, s > 0))
    return And(*c)


def isnew(v, k, ty):
    return True


# --- F12: who may change the farm, and only what the instruction names ------------------------------

def f12_farm(changed):
    def post(v):
        k, f0, f1 = farm(v)
        c = [("the farm's admin signed", ADMIN(v)),
             ('only what the instruction names changes', only(v, f0, f1, changed, FARM)),
             ('no other farm changes', others_same(v, k))]
        return c
    return post


def others_same(v, *ks):
    def f(x):
        return Or(*[eqt(x, k) for k in ks], isfarm_same(v, x))
    return v.forall_key(f)


def f12_window(v):
    k, f0, f1 = farm(v)
    return f12_farm(('min_snapshot_window_slots',))(v) + [('the window is the given one', eqt(v.get(f1, 'min_snapshot_window_slots'), v.args[0])),
                                                        ('no tokens move', no_tokens_move(v))]


def f12_owner(v):
    k, f0, f1 = farm(v)
    n = v.P['new_farm_admin']
    return f12_farm(('admin',))(v) + [('the new admin signed', v.signer(n)), ('the new admin is recorded', eqt(v.get(f1, 'admin'), v.key(n))),
                                      ('no tokens move', no_tokens_move(v))]


def f12_create(v):
    k, f0, f1 = farm(v)
    a = v.P['admin']
    return [('the creator signed', v.signer(a)), ('the farm belongs to the creator', eqt(v.get(f1, 'admin'), v.key(a))),
            ('the stake mint is the given one', eqt(v.get(f1, 'stake_mint'), v.key(v.P['stake_mint']))),
            ("the stake vault is the farm's own", And(eqt(v.get(f1, 'stake_vault'), v.key(v.P['stake_vault'])), eqt(v.key(v.P['stake_vault']), v.pda('stake_vault', k)))),
            ('everything else is blank', And(*[And(eqt(hmint(v, f1, i), 0), empty_entry(v, f1, i)) for i in range(NM)],
                                             *[eqt(v.get(f1, x), 0) for x in ('snapshots.ring_buffer_tip', 'min_snapshot_window_slots')])),
            ('a farm is created only once', Not(v.isa(k, 'Farm'))),
            ("the stake vault is held by the farm's signer", vault_init(v, v.P['stake_vault'], v.P['stake_mint'], k)),
            ('no other farm changes', others_same(v, k))]


def vault_init(v, vault, mint, k):
    ev = v.events('tokinit')
    return And(eqt(v.count('tokinit'), 1), *[Implies(e.g, And(eqt(e.a['key'], v.key(vault)), eqt(e.a['mint'], v.key(mint)), eqt(e.a['owner'], v.pda('signer', k)))) for e in ev])


def f12_new_farm(v):
    return []


def mint_kept(v):
    """the harvest entries keep their mint and vault, and only one mint's schedule changes"""
    k, f0, f1 = farm(v)
    return And(*[And(eqt(hmint(v, f0, i), hmint(v, f1, i)), eqt(hvault(v, f0, i), hvault(v, f1, i))) for i in range(NM)])


def f12_period(v):
    return f12_farm(('harvests',))(v) + [('mints and vaults stay', mint_kept(v))]


def wl_key(v):
    return v.pda('whitelist_compounding', v.key(v.P['source_farm']), v.key(v.P['target_farm']))


def f12_wl(v):
    k, f0, _ = farm(v, 'source_farm')
    w = v.key(v.P['whitelist_compounding'])
    adm = v.get(f0, 'admin')
    return [("the source farm's admin signed", signed_by(v, adm)),
            ('both are farms', And(v.isa(k, 'Farm'), v.isa(v.key(v.P['target_farm']), 'Farm'))),
            ('the entry is that pair\'s', eqt(w, wl_key(v))),
            ('no farm changes', farms_same(v)), ('no farmer changes', farmers_same(v)), ('no tokens move', no_tokens_move(v))]


def f12_whitelist(v):
    w = v.key(v.P['whitelist_compounding'])
    return f12_wl(v) + [('exactly that entry is created', And(eqt(v.count('create'), 1), *[Implies(e.g, eqt(e.a['key'], w)) for e in v.events('create')])),
                        ('nothing is closed', eqt(v.count('close'), 0))]


def f12_dewhitelist(v):
    w = v.key(v.P['whitelist_compounding'])
    return f12_wl(v) + [('exactly that entry is closed', And(eqt(v.count('close'), 1), *[Implies(e.g, eqt(e.a['key'], w)) for e in v.events('close')])),
                        ('nothing is created', eqt(v.count('create'), 0)),
                        ('it is a whitelisting', v.isa(w, 'WhitelistCompounding'))]


def f12_frame(v):
    return [('no farm changes', farms_same(v)),
            ('no whitelisting is closed', And(*[Implies(e.g, Not(v.isa(e.a['key'], 'WhitelistCompounding'))) for e in v.events('close')]))]


# --- F01 ----------------------------------------------------------------------------------------------

def tip_ok(v):
    """the ring position is within the ring (F01)"""
    k, f0, f1 = farm(v)
    return [v.get(f0, 'snapshots.ring_buffer_tip') < RING]


def f01(v):
    k, f0, f1 = farm(v)
    t0, t1 = v.get(f0, 'snapshots.ring_buffer_tip'), v.get(f1, 'snapshots.ring_buffer_tip')
    r0, r1 = v.get(f0, 'snapshots.ring_buffer'), v.get(f1, 'snapshots.ring_buffer')
    w = v.get(f0, 'min_snapshot_window_slots')
    new, last = nth(r1, t1), nth(r0, t0)
    vault = v.get(f0, 'stake_vault')
    return [('the entry after the newest is written', eqt(t1, ite(eqt(t0, RING - 1), 0, t0 + 1))),
            ('it records the current slot', eqt(v.get(new, 'started_at.slot'), v.clock)),
            ("it records the balance of the farm's own vault", eqt(v.get(new, 'staked.amount'), v.bal0(vault))),
            ('every other entry stays', v.forall_idx(RING, lambda j: Or(eqt(j, t1), samev(v, nth(r0, j), nth(r1, j))))),
            ('nothing else of the farm changes', only(v, f0, f1, ('snapshots',), FARM)),
            ('the minimum window has passed', v.clock >= v.get(last, 'started_at.slot') + ite(eqt(w, 0), 7200, w)),
            ('the ring stays in the order of time', chrono_kept(v, t0, r0, t1, r1)),
            ('no other farm changes', others_same(v, k)),
            ('no farmer changes', farmers_same(v)),
            ('no tokens move', no_tokens_move(v))]


def chrono_kept(v, t0, r0, t1, r1):
    """any two neighbours after: if they were neighbours before, in order, they still are; the newest is not older than the one before"""
    start = lambda tip, ring, a: v.get(at_age(None, tip, ring, a), 'started_at.slot')
    ordered = lambda x, y: Or(x > y, And(eqt(x, 0), eqt(y, 0)))
    return v.forall_idx(RING - 1, lambda a: Or(ordered(start(t1, r1, a), start(t1, r1, a + 1)),
                                               And(a > 0, Not(ordered(start(t0, r0, ite(a > 0, a - 1, 0)), start(t0, r0, a))))))


def snaps_same(v):
    """snapshots of every farm are as before"""
    def f(k):
        a, b = v.acc0(k, 'Farm'), v.acc1(k, 'Farm')
        if a is None or b is None:
            return True
        return samev(v, v.get(a, 'snapshots'), v.get(b, 'snapshots'))
    return [('no snapshot changes', v.forall_key(f))]


# --- F04 ----------------------------------------------------------------------------------------------

def inv04(v):
    """mints are registered once, with the vaults of their farm (F04)"""
    k, f0, f1 = farm(v)
    return [inv_mints(v, k, f0), inv_vaults(v, k, f0)]


def f04_add(v):
    k, f0, f1 = farm(v)
    m, vt = v.key(v.P['harvest_mint']), v.key(v.P['harvest_vault'])
    done = []
    for i in range(NM):
        done.append(And(eqt(hmint(v, f0, i), 0), eqt(hmint(v, f1, i), m), eqt(hvault(v, f1, i), vt),
                        *[eqt(x, 0) for j in range(NP) for x in per(v, f1, i, j)],
                        *[samev(v, H(v, f0, j), H(v, f1, j)) for j in range(NM) if j != i]))
    return [('exactly one free position gets the mint with its vault and an empty schedule', Or(*done)),
            ('the mint was not registered', And(*[Not(eqt(hmint(v, f0, i), m)) for i in range(NM)])),
            ("the vault is the farm's vault of the mint", eqt(vt, v.pda('harvest_vault', k, m))),
            ('the vault is created for the mint under the farm', vault_init(v, v.P['harvest_vault'], v.P['harvest_mint'], k)),
            ('mints stay distinct', inv_mints(v, k, f1)),
            ('vaults stay the farm\'s own', inv_vaults(v, k, f1)),
            ('nothing else of the farm changes', only(v, f0, f1, ('harvests',), FARM)),
            ('no tokens move', no_tokens_move(v))]


def f04_remove(v):
    k, f0, f1 = farm(v)
    m, vt = v.args[0], v.key(v.P['harvest_vault'])
    done = []
    for i in range(NM):
        done.append(And(eqt(hmint(v, f0, i), m), eqt(hmint(v, f1, i), 0), empty_entry(v, f1, i),
                        *[samev(v, H(v, f0, j), H(v, f1, j)) for j in range(NM) if j != i]))
    closes = v.events('tokclose')
    return [("exactly the mint's entry is cleared", Or(*done)),
            ('its vault is empty', eqt(v.bal0(vt), 0)),
            ("the vault is the farm's vault of the mint", eqt(vt, v.pda('harvest_vault', k, m))),
            ('exactly that vault is closed', And(eqt(v.count('tokclose'), 1), *[Implies(e.g, eqt(e.a['key'], vt)) for e in closes])),
            ('the rent goes to the admin', And(*[Implies(e.g, eqt(e.a['dest'], v.key(v.P['admin']))) for e in closes])),
            ('mints stay distinct', inv_mints(v, k, f1)),
            ('nothing else of the farm changes', only(v, f0, f1, ('harvests',), FARM)),
            ('no tokens move', no_tokens_move(v))]


def f04_registry_same(v):
    def f(k):
        a, b = v.acc0(k, 'Farm'), v.acc1(k, 'Farm')
        if a is None or b is None:
            return True
        return And(*[And(eqt(hmint(v, a, i), hmint(v, b, i)), eqt(hvault(v, a, i), hvault(v, b, i))) for i in range(NM)])
    return [('the registry stays', v.forall_key(f)), ('no vault is closed', eqt(v.count('tokclose'), 0))]


def fresh_zero(v):
    """a zeroed account: what the program owns and nobody wrote"""
    k, f0, f1 = farm(v)
    return [eqt(v.get(f0, 'snapshots.ring_buffer_tip'), 0), eqt(v.get(f0, 'min_snapshot_window_slots'), 0)] + \
           [And(eqt(hmint(v, f0, i), 0), empty_entry(v, f0, i)) for i in range(NM)]


def f04_create(v):
    k, f0, f1 = farm(v)
    return [('a new farm has no harvest mints', And(*[And(eqt(hmint(v, f1, i), 0), empty_entry(v, f1, i)) for i in range(NM)]))]


# --- F02, F03 -------------------------------------------------------------------------------------------

def named(v):
    """named(i): position i is the one the instruction names"""
    k, f0, f1 = farm(v)
    return [eqt(hmint(v, f0, i), v.args[0]) for i in range(NM)]


def pre02(v):
    """the ring position is within the ring, mints differ, the oldest snapshot is not in the future, schedules are well formed (F01, F02, F04)"""
    k, f0, f1 = farm(v)
    t0 = v.get(f0, 'snapshots.ring_buffer_tip')
    old = oldest(v, f0)
    return [t0 < RING, inv_mints(v, k, f0), Not(eqt(v.args[0], 0)), old <= v.clock, v.clock > 0] + [inv_periods(v, f0, i, v.clock) for i in range(NM)]


def oldest(v, f):
    t = v.get(f, 'snapshots.ring_buffer_tip')
    return v.get(nth(v.get(f, 'snapshots.ring_buffer'), ite(eqt(t, RING - 1), 0, t + 1)), 'started_at.slot')


def period_req(v):
    """the period asked for: starts now if no start is named, and lasts the given number of slots"""
    s = ite(eqt(v.get(v.args[1], 'slot'), 0), v.clock, v.get(v.args[1], 'slot'))
    return s, s + v.args[2] - 1, v.get(v.args[3], 'amount')


def f02(v):
    k, f0, f1 = farm(v)
    nm = named(v)
    s, e, t = period_req(v)
    old = oldest(v, f0)
    rest, sched, after, drop, wf = [], [], [], [], []
    for i in range(NM):
        p0 = [per(v, f0, i, j) for j in range(NP)]
        p1 = [per(v, f1, i, j) for j in range(NP)]
        rest.append(Or(nm[i], samev(v, H(v, f0, i), H(v, f1, i))))
        eq = lambda a, b: And(*[eqt(x, y) for x, y in zip(a, b)])
        repl = And(p0[0][0] > v.clock, *[eq(p0[j], p1[j]) for j in range(1, NP)])
        push = And(p0[0][0] <= v.clock, *[eq(p0[j], p1[j + 1]) for j in range(NP - 1)])
        sched.append(Implies(nm[i], And(eq(p1[0], (s, e, t)), Or(repl, push))))
        after.append(Implies(nm[i], And(*[Implies(And(p0[j][0] <= v.clock), s > p0[j][1]) for j in range(NP)])))
        drop.append(Implies(And(nm[i], p0[0][0] <= v.clock), Or(eqt(p0[9][1], 0), p0[9][1] < old)))
        wf.append(inv_periods(v, f1, i, v.clock))
    return [('the mint is registered', Or(*nm)),
            ("only the named mint's schedule changes", And(*rest)),
            ('the period replaces the one not yet started or becomes the newest', And(*sched)),
            ('it starts after every started period has ended', And(*after)),
            ('it starts no earlier than now', s >= v.clock),
            ('it starts no later than it ends', s <= e),
            ('a period is dropped only when it ended before the oldest snapshot', And(*drop)),
            ('every schedule stays ordered and disjoint', And(*wf)),
            ('nothing else of the farm changes', only(v, f0, f1, ('harvests',), FARM)),
            ('mints and vaults stay', mint_kept(v))]


def wf_frame(v):
    def f(k):
        a, b = v.acc0(k, 'Farm'), v.acc1(k, 'Farm')
        if a is None or b is None:
            return True
        return And(*[eqt(x, y) for i in range(NM) for j in range(NP) for x, y in zip(per(v, a, i, j), per(v, b, i, j))])
    return [('no schedule changes', v.forall_key(f))]


def f03(v):
    k, f0, f1 = farm(v)
    nm = named(v)
    s, e, t = period_req(v)
    need = v.args[2] * t
    had = 0
    for i in reversed(range(NM)):
        ps, pe, pt = per(v, f0, i, 0)
        had = ite(And(nm[i], ps > v.clock), (pe - ps + 1) * pt, had)
    wallet, vault = v.key(v.P['harvest_wallet']), v.key(v.P['harvest_vault'])
    adm, sig = v.key(v.P['admin']), v.pda('signer', k)
    tr = v.events('transfer')
    d = need - had
    move = And(*[Implies(e_.g, And(eqt(e_.a['amount'], ite(d > 0, d, -d)),
                                   Or(And(d > 0, eqt(e_.a['frm'], wallet), eqt(e_.a['to'], vault), eqt(e_.a['auth'], adm)),
                                      And(d < 0, eqt(e_.a['frm'], vault), eqt(e_.a['to'], wallet), eqt(e_.a['auth'], sig))))) for e_ in tr])
    return [('exactly the missing tokens enter the vault, or the surplus leaves it', bal_delta(v, [(wallet, vault, d)])),
            ('one transfer, none when both need the same', eqt(v.count('transfer'), ite(eqt(d, 0), 0, 1))),
            ('it is authorised by the admin, or by the farm when returning', move),
            ("the vault is the farm's vault of the mint", eqt(vault, v.pda('harvest_vault', k, v.args[0]))),
            ('the wallet can pay', Or(d <= 0, v.bal0(wallet) >= d)),
            ('the total fits', And(need <= U64M, had <= U64M)),
            ('the recorded period is the one paid for', And(*[Implies(nm[i], And(*[eqt(x, y) for x, y in zip(per(v, f1, i, 0), (s, e, t))])) for i in range(NM)]))]


def pre03(v):
    """as for F02"""
    return pre02(v)


# --- F11 ------------------------------------------------------------------------------------------------

def f11_create(v):
    k = v.key(v.P['farmer'])
    fk = v.key(v.P['farm'])
    u = v.key(v.P['authority'])
    f0, f1 = v.acc0(fk, 'Farm'), v.acc1(k, 'Farmer')
    hs = [(v.get(f1, 'harvests[%d].mint' % i), v.get(f1, 'harvests[%d].tokens.amount' % i)) for i in range(NM)]
    return [('it is tied to the user', eqt(v.get(f1, 'authority'), u)),
            ('it is tied to the farm', And(eqt(v.get(f1, 'farm'), fk), v.isa(fk, 'Farm'))),
            ('it is the one account of that user and farm', eqt(k, v.pda('farmer', fk, u))),
            ('nothing staked or vested', And(*[eqt(v.get(f1, x), 0) for x in ('staked.amount', 'vested.amount', 'vested_at.slot', 'calculate_next_harvest_from.slot')])),
            ('a zero record for every mint of the farm', And(*[Or(*[eqt(hmint(v, f0, i), m) for m, _ in hs]) for i in range(NM)], *[eqt(t, 0) for _, t in hs])),
            ('no record of other mints', And(*[Or(eqt(m, 0), *[eqt(hmint(v, f0, i), m) for i in range(NM)]) for m, _ in hs])),
            ('it is new', And(eqt(v.count('create'), 1), *[Implies(e.g, eqt(e.a['key'], k)) for e in v.events('create')])),
            ('the payer signed', v.signer(v.P['payer'])),
            ('no farm changes', farms_same(v)), ('no tokens move', no_tokens_move(v))]


def f11_close(v):
    k = v.key(v.P['farmer'])
    a = v.P['authority']
    f0 = v.acc0(k, 'Farmer')
    return [('its authority signed', And(v.signer(a), eqt(v.get(f0, 'authority'), v.key(a)))),
            ('it is a farmer', v.isa(k, 'Farmer')),
            ('nothing staked or vested', And(eqt(v.get(f0, 'staked.amount'), 0), eqt(v.get(f0, 'vested.amount'), 0))),
            ('no unclaimed harvest', And(*[eqt(v.get(f0, 'harvests[%d].tokens.amount' % i), 0) for i in range(NM)])),
            ('exactly that account is closed', And(eqt(v.count('close'), 1), *[Implies(e.g, eqt(e.a['key'], k)) for e in v.events('close')])),
            ('no farm changes', farms_same(v)), ('no tokens move', no_tokens_move(v))]


def f11_frame(v):
    return [('no farmer is closed', And(*[Implies(e.g, Not(v.isa(e.a['key'], 'Farmer'))) for e in v.events('close')]))]


# --- F13 ------------------------------------------------------------------------------------------------

def rec(v, f, i):
    return v.get(f, 'harvests[%d].mint' % i), v.get(f, 'harvests[%d].tokens.amount' % i)


def recs_distinct(v, f):
    """a farmer records each mint once; blank positions hold nothing"""
    c = []
    for i in range(NM):
        m, t = rec(v, f, i)
        for j in range(i):
            c.append(Or(eqt(m, 0), Not(eqt(m, rec(v, f, j)[0]))))
        c.append(Implies(eqt(m, 0), eqt(t, 0)))
    return And(*c)


def pre13(v):
    """the farmer records each mint once, blank positions hold nothing (F05, F11)"""
    return [recs_distinct(v, v.acc0(v.key(v.P['farmer']), 'Farmer')),
            Not(eqt(v.mint_of(v.key(v.P['harvest_wallet'])), 0))]


def f13(v):
    k = v.key(v.P['farmer'])
    a, b = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer')
    w, vt = v.key(v.P['harvest_wallet']), v.key(v.P['harvest_vault'])
    m = v.mint_of(w)
    amt = v.get(v.args[0], 'amount')
    ok = []
    for i in range(NM):
        m0, t0 = rec(v, a, i)
        m1, t1 = rec(v, b, i)
        ok.append(And(eqt(m0, m1), eqt(t1, t0 + ite(eqt(m0, m), amt, 0))))
    tr = v.events('transfer')
    return [('exactly the amount is added to that mint\'s record', And(*ok)),
            ('the farmer records the mint', Or(*[eqt(rec(v, a, i)[0], m) for i in range(NM)])),
            ('exactly the amount moves from the wallet into the vault', bal_delta(v, [(w, vt, amt)])),
            ('once, by the wallet\'s authority', And(eqt(v.count('transfer'), 1), *[Implies(e.g, eqt(e.a['auth'], v.key(v.P['wallet_authority']))) for e in tr])),
            ('the sender signed', v.signer(v.P['wallet_authority'])),
            ("the vault is the farm's vault of the mint", eqt(vt, v.pda('harvest_vault', v.get(a, 'farm'), m))),
            ('the amount is positive', amt > 0),
            ('the wallet can pay', v.bal0(w) >= amt),
            ('nothing else of the farmer changes', only(v, a, b, ('harvests',), FARMER)),
            ('no other farmer changes', v.forall_key(lambda x: Or(eqt(x, k), farmer_same(v, x)))),
            ('no farm changes', farms_same(v))]


def farmer_same(v, k):
    a, b = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer')
    if a is None or b is None:
        return a is None and b is None
    return samev(v, a, b)


# --- farmers: what callers may assume of accrual and of the snapshot search ----------------------------------

def farmer_contracts(W):
    """Farmer accrual and the first snapshot after a slot as functions of what they depend on (see F05 and F07)"""
    from lib import result, ok, Ev
    lib = W.lib

    def farm_of(ex, st, r):
        while isinstance(r, VSel):
            r = r.alts[0][1]
        while isinstance(r, VRef):
            for e in st.w.get('loaders', ()):
                if e.a['cell'] == r.c:
                    return e.a['key']
            x = ex.load_cell(st, r.c)
            r = x if isinstance(x, (VRef, VSel)) else None
            while isinstance(r, VSel):
                r = r.alts[0][1]
        raise Unsupported('farm of a reference')

    def accrue(ex, st, vals):
        """the records after accrual, up to their order: one for every mint of the farm, what it had or 0 plus what accrued"""
        me, fm, until = vals
        k = farm_of(ex, st, fm)
        me, fm = ex.load(st, me), ex.load(st, fm)
        a, s, b = W.types.get(me, 'calculate_next_harvest_from.slot'), W.types.get(me, 'staked.amount'), until.f[0]
        v = Getter(W.types)
        good, out = W.T.freshb('accrual_ok'), []
        pre = W.T.nameb(And(a <= b, recs_distinct(v, me))) if hasattr(W.T, 'nameb') else And(a <= b, recs_distinct(v, me))
        for i in range(NM):
            m = hmint(v, fm, i)
            n = W.T.name(ite(eqt(m, 0), 0, value_of(v, me, m) + acc_fn(W.T, k, m, a, b, s)), 'credited')
            n = W.T.name(ite(pre, n, W.T.fresh('anything', 0, U64M)), 'credited')     # says nothing unless its precondition holds
            good = And(good, n <= U64M)
            out.append((True, VS('', [m, VS('TokenAmount', [n])])))
        return [(st, result(good, VVec(out)))]

    def after(ex, st, vals):
        k = farm_of(ex, st, vals[0])
        s = vals[1].f[0] if isinstance(vals[1], VS) else lib.deref(ex, st, vals[1]).f[0]
        d, x = fsa_fn(W.T, k, s)
        y = W.T.fresh('staked_after', 0, U64M)
        return [(st, VE('Option', ite(d, 1, 0), {1: [VS('Snapshot', [VS('TokenAmount', [y]), VS('Slot', [x])])], 0: []}))]
    return {'models::farmer::Farmer::eligible_harvest_until': accrue, 'models::farm::Farm::first_snapshot_after': after}


class Getter:
    def __init__(s, types):
        s.types = types

    def get(s, v, path):
        return s.types.get(v, path)


def acc_fn(T, farm, mint, since, until, staked):
    I = z3.IntSort()
    r = z3.Function('accrued', I, I, I, I, I, I)(*[zi(x) for x in (farm, mint, since, until, staked)])
    T.bound(r, 0, None)
    T.fact(r, zb(Implies(Or(zi(since) > zi(until), eqt(staked, 0)), r == 0)))
    return r


def fsa_fn(T, farm, slot):
    I = z3.IntSort()
    d = z3.Function('has_snapshot_after', I, I, z3.BoolSort())(zi(farm), zi(slot))
    x = z3.Function('snapshot_after', I, I, I)(zi(farm), zi(slot))
    T.bound(x, 0, U64M)
    T.fact(x, z3.Implies(d, x > zi(slot)))
    return d, x


def pos(v, f):
    return [v.get(f, x) for x in ('staked.amount', 'vested.amount', 'vested_at.slot', 'calculate_next_harvest_from.slot')]


def value_of(v, f, m):
    """what the farmer has recorded for a mint"""
    t = 0
    for i in range(NM):
        mi, ti = rec(v, f, i)
        t = t + ite(eqt(mi, m), ti, 0)
    return t


def farm_mints(v, k):
    f = v.acc0(k, 'Farm')
    return [hmint(v, f, i) for i in range(NM)]


def for_mints(v, k, f):
    """for every mint the farm emits"""
    return And(*[Or(eqt(m, 0), f(m)) for m in farm_mints(v, k)])


def inv_farmer(v, fr='farmer', fa='farm'):
    """what creating a farmer and a farm establish and every instruction keeps (F01, F04, F11, F13)"""
    k, a = v.key(v.P[fa]), v.acc0(v.key(v.P[fr]), 'Farmer')
    ms = farm_mints(v, k)
    s, w, at, nx = pos(v, a)
    d, x = v.snapshot_after(k, at)
    return [recs_distinct(v, a)] + [Or(eqt(ms[i], 0), Not(eqt(ms[i], ms[j]))) for i in range(NM) for j in range(i)] + [Or(Not(d), x <= v.clock), nx <= v.clock + 1]


def update(v, fr='farmer', fa='farm'):
    """the position after an update, given the accounting point the program chose: (staked, vested, credited by mint)"""
    k = v.key(v.P[fa])
    a, b = v.acc0(v.key(v.P[fr]), 'Farmer'), v.acc1(v.key(v.P[fr]), 'Farmer')
    s0, w0, at0, n0 = pos(v, a)
    n1 = pos(v, b)[3]
    d, x = v.snapshot_after(k, at0)
    go = And(w0 > 0, d)
    s1 = s0 + ite(go, w0, 0)
    n = ite(And(go, x > n0), x, n0)

    def credit(m):
        return ite(And(go, x > n0), v.accrued(k, m, n0, x - 1, s0), 0) + ite(n1 > n, v.accrued(k, m, n, n1 - 1, s1), 0)
    return s1, ite(go, 0, w0), credit


def credited(v, fr, fa, taken=None):
    """the record of every mint the farm emits grows by the harvest of the slots newly accounted for (and is then paid out, for one mint)"""
    k = v.key(v.P[fa])
    a, b = v.acc0(v.key(v.P[fr]), 'Farmer'), v.acc1(v.key(v.P[fr]), 'Farmer')
    cr = update(v, fr, fa)[2]
    return for_mints(v, k, lambda m: eqt(value_of(v, b, m), ite(False if taken is None else eqt(m, taken), 0, value_of(v, a, m) + cr(m))))


def f06_of(fr='farmer', fa='farm', taken=None):
    def post(v):
        a, b = v.acc0(v.key(v.P[fr]), 'Farmer'), v.acc1(v.key(v.P[fr]), 'Farmer')
        n0, n1 = pos(v, a)[3], pos(v, b)[3]
        return [('the accounting point never moves back', n1 >= n0),
                ('no slot after the current one is accounted for', n1 <= ite(n0 > v.clock + 1, n0, v.clock + 1)),
                ('every mint is credited the harvest of exactly the slots newly accounted for', credited(v, fr, fa, taken(v) if taken else None)),
                ('no record repeats a mint', recs_distinct(v, b))]
    return post


def f05(v):
    """the records after an update: one for every mint the farm emits, worth what it was plus what accrued; none for other mints"""
    k = v.key(v.P['farm'])
    a, b = v.acc0(v.key(v.P['farmer']), 'Farmer'), v.acc1(v.key(v.P['farmer']), 'Farmer')
    s0, w0, at0, n0 = pos(v, a)
    n1 = pos(v, b)[3]
    cr = update(v)[2]
    ms = farm_mints(v, k)
    moved = n1 > n0

    def recorded(m):
        return Or(*[eqt(m, rec(v, b, i)[0]) for i in range(NM)])
    return [('every mint is credited exactly the accrued harvest', credited(v, 'farmer', 'farm')),
            ('every mint of the farm has a record after accrual', Implies(moved, for_mints(v, k, recorded))),
            ('records of mints the farm does not have are dropped by accrual', Implies(moved, And(*[Or(eqt(rec(v, b, i)[0], 0), *[eqt(rec(v, b, i)[0], m) for m in ms]) for i in range(NM)]))),
            ('without accrual the records stay', Implies(eqt(n1, n0), And(*[And(eqt(rec(v, a, i)[0], rec(v, b, i)[0]), eqt(rec(v, a, i)[1], rec(v, b, i)[1])) for i in range(NM)]))),
            ('no record repeats a mint', recs_distinct(v, b)),
            ("the farm is the farmer's own", eqt(v.get(a, 'farm'), k)),
            ('user and farm of the farmer stay', only(v, a, b, ('staked', 'vested', 'vested_at', 'calculate_next_harvest_from', 'harvests'), FARMER))]


def f05_must(v):
    """an update whose credit fits is carried out"""
    k = v.key(v.P['farm'])
    a = v.acc0(v.key(v.P['farmer']), 'Farmer')
    s0, w0, at0, n0 = pos(v, a)
    if v.get(a, 'farm') != k or s0 + w0 > U64M or v.clock >= U64M:
        return False
    d, x = v.snapshot_after(k, at0)
    s1, n, to = s0, n0, []
    if w0 > 0 and d:
        s1 = s0 + w0
        if x > n0:
            to, n = [(n0, x - 1, s0)], x
    if n < v.clock:
        to.append((n, v.clock, s1))
    return all(value_of(v, a, m) + sum(v.accrued(k, m, *t) for t in to) <= U64M for m in farm_mints(v, k) if m != 0)


def gen_snap(rng, S, case):
    for k, f in S.of('Farm'):
        gen_farm(rng, S, f)
        w = rng.choice([0, 1, 2, 50, 7200, 10000])
        S.set(f, 'min_snapshot_window_slots', w)
        tip = S.get(f, 'snapshots.ring_buffer_tip')
        last = S.get(nth(S.get(f, 'snapshots.ring_buffer'), tip), 'started_at.slot')
        S.slot = last + (w or 7200) + rng.choice([-1, 0, 0, 1, 1000])
    for k, x in S.of('TokenAccount'):
        S.balance(k, rng.choice([0, 1, 10 ** 6, rng.randint(0, U64M)]))


def stake_mint(fa):
    return lambda v: v.get(v.acc0(v.key(v.P[fa]), 'Farm'), 'stake_mint')


def both(*ps):
    def post(v):
        out = []
        for n, p in ps:
            out += [(n + x[0] if n else x[0], x[1]) for x in p(v)]
        return out
    return post


def f07_of(fr='farmer', fa='farm', added=None, taken=None):
    """vested tokens start earning at the first snapshot after their deposit; a deposit makes the new tokens vest from now"""
    def post(v):
        k = v.key(v.P[fa])
        a, b = v.acc0(v.key(v.P[fr]), 'Farmer'), v.acc1(v.key(v.P[fr]), 'Farmer')
        s0, w0, at0, n0 = pos(v, a)
        s1, w1, at1, n1 = pos(v, b)
        su, wu, cr = update(v, fr, fa)
        d, x = v.snapshot_after(k, at0)
        n = 0 if added is None else added(v)
        out = [('tokens vest exactly when a snapshot was taken after their deposit', eqt(s1, su)),
               ('the others, and new tokens, wait for a later snapshot', eqt(w1, wu + n)),
               ('from that snapshot on all of them earn, before it only the old stake', credited(v, fr, fa, taken(v) if taken else None)),
               ('harvest is accounted at least up to that snapshot', Or(eqt(w0, 0), Not(d), n1 >= x))]
        if added is None:
            out.append(('the deposit slot stays', eqt(at1, at0)))
        else:
            out.append(('new tokens vest from the current slot', eqt(at1, v.clock)))
        return out
    return post


def one_transfer(v, frm, to, amt, auth):
    tr = v.events('transfer')
    return And(eqt(v.count('transfer'), 1), *[Implies(e.g, And(eqt(e.a['auth'], auth), eqt(e.a['amount'], amt), eqt(e.a['frm'], frm), eqt(e.a['to'], to))) for e in tr])


def accounted(v, fr='farmer'):
    return pos(v, v.acc1(v.key(v.P[fr]), 'Farmer'))[3] >= v.clock


def others(v, *names):
    ks = [v.key(v.P[n]) for n in names]
    return [('no other farmer changes', v.forall_key(lambda x: Or(*[eqt(x, k) for k in ks], farmer_same(v, x)))), ('no farm changes', farms_same(v))]


def f08_start(v):
    k, fk = v.key(v.P['farmer']), v.key(v.P['farm'])
    a, b = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer')
    amt = v.get(v.args[0], 'amount')
    s0, w0, at0, n0 = pos(v, a)
    s1, w1, at1, n1 = pos(v, b)
    w, vault = v.key(v.P['stake_wallet']), v.key(v.P['stake_vault'])
    return [('the position grows by exactly the amount', eqt(s1 + w1, s0 + w0 + amt)),
            ('the amount is added to the vested tokens', eqt(w1, update(v)[1] + amt)),
            ('exactly the amount moves from the wallet into the staking vault', bal_delta(v, [(w, vault, amt)])),
            ("once, by the wallet's authority", one_transfer(v, w, vault, amt, v.key(v.P['wallet_authority']))),
            ('who signed', v.signer(v.P['wallet_authority'])),
            ("the vault is the farm's own", eqt(vault, v.pda('stake_vault', fk))),
            ('the farmer belongs to the farm', eqt(v.get(a, 'farm'), fk)),
            ('the amount is positive', amt > 0),
            ('harvest is accounted first', And(accounted(v), credited(v, 'farmer', 'farm'))),
            ('user and farm of the farmer stay', only(v, a, b, ('staked', 'vested', 'vested_at', 'calculate_next_harvest_from', 'harvests'), FARMER))] + others(v, 'farmer')


def f08_stop(v):
    k, fk = v.key(v.P['farmer']), v.key(v.P['farm'])
    a, b = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer')
    mx = v.get(v.args[0], 'amount')
    su, wu, cr = update(v)
    s1, w1, at1, n1 = pos(v, b)
    amt = ite(su + wu < mx, su + wu, mx)
    ves = ite(wu < amt, wu, amt)
    w, vault = v.key(v.P['stake_wallet']), v.key(v.P['stake_vault'])
    return [('vested tokens go first', eqt(w1, wu - ves)),
            ('the rest comes from the staked ones', eqt(s1, su - (amt - ves))),
            ('the smaller of the maximum and the position moves to the wallet', bal_delta(v, [(vault, w, amt)])),
            ("once, by the farm's own authority", one_transfer(v, vault, w, amt, v.pda('signer', fk))),
            ("the farmer's authority signed", And(v.signer(v.P['authority']), eqt(k, v.pda('farmer', fk, v.key(v.P['authority']))))),
            ("the vault is the farm's own", eqt(vault, v.pda('stake_vault', fk))),
            ('the maximum is positive', mx > 0),
            ('harvest is accounted first', And(accounted(v), credited(v, 'farmer', 'farm'))),
            ('user, farm and deposit slot stay', only(v, a, b, ('staked', 'vested', 'calculate_next_harvest_from', 'harvests'), FARMER))] + others(v, 'farmer')


def inv_stop(v):
    """the one account of a farm and user records them (F11)"""
    a = v.acc0(v.key(v.P['farmer']), 'Farmer')
    return inv_farmer(v) + [eqt(v.get(a, 'farm'), v.key(v.P['farm']))]


def pays(v):
    """what each pair of vault and wallet is paid: the record of the vault's mint, the first time the mint is supplied"""
    a = v.acc0(v.key(v.P['farmer']), 'Farmer')
    moves, seen = [], []
    for i in range(v.case['pairs']):
        vault, wallet = v.key(v.base + 2 * i), v.key(v.base + 2 * i + 1)
        m = v.mint_of(vault)
        first = And(*[Not(eqt(m, x)) for x in seen])
        amt = ite(first, value_of(v, a, m), 0)
        amt = ite(eqt(m, 0), 0, amt)
        seen.append(m)
        moves.append((vault, wallet, amt))
    return moves, seen


def same_pays(v):
    """the i-th transfer pays the i-th pair"""
    tr = v.events('transfer')
    return [(m[2], ite(e.g, e.a['amount'], 0)) for m, e in zip(pays(v)[0], tr)] if len(tr) == v.case['pairs'] else []


def f09(v):
    k = v.key(v.P['farmer'])
    a, b = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer')
    fk = v.get(a, 'farm')
    moves, seen = pays(v)
    legit = [eqt(x[0], v.pda('harvest_vault', fk, m)) for x, m in zip(moves, seen)]
    tr = v.events('transfer')
    kept = []
    for i in range(NM):
        m, t = rec(v, a, i)
        gone = Or(*[eqt(m, x) for x in seen])
        kept.append(Or(eqt(m, 0), eqt(value_of(v, b, m), ite(gone, 0, t))))
    return [('each vault pays what is recorded for its mint, once', bal_delta(v, moves)),
            ("every vault is the farm's vault of its mint", And(*legit)),
            ("payments are made by the farm's own authority", And(*[Implies(e.g, eqt(e.a['auth'], v.pda('signer', fk))) for e in tr])),
            ('records of the supplied mints are cleared and the others stay', And(*kept)),
            ('no record repeats a mint', recs_distinct(v, b)),
            ("the farmer's authority signed", And(v.signer(v.P['authority']), eqt(k, v.pda('farmer', fk, v.key(v.P['authority']))))),
            ('nothing else of the farmer changes', only(v, a, b, ('harvests',), FARMER))] + others(v, 'farmer')


def inv_claim(v):
    """the farmer records each mint once, blank positions hold nothing (F05, F11)"""
    return [recs_distinct(v, v.acc0(v.key(v.P['farmer']), 'Farmer'))]


def f10_of(fr, to, fa, tfa, vault, svault, signer):
    def post(v):
        k, t, fk, tk = [v.key(v.P[x]) for x in (fr, to, fa, tfa)]
        a, b, ta, tb = v.acc0(k, 'Farmer'), v.acc1(k, 'Farmer'), v.acc0(t, 'Farmer'), v.acc1(t, 'Farmer')
        hv, sv = v.key(v.P[vault]), v.key(v.P[svault])
        sm = stake_mint(tfa)(v)
        cr = update(v, fr, fa)[2]
        f = v.acc0(fk, 'Farm')
        # the harvest of the stake mint: what was recorded, plus what the update credits if the farm emits it
        emits = Or(*[eqt(m, sm) for m in farm_mints(v, fk)])
        amt = value_of(v, a, sm) + ite(And(emits, Not(eqt(sm, 0))), cr(sm), 0)
        out = [('the whole harvest of the stake mint moves into the staking vault', Implies(emits, bal_delta(v, [(hv, sv, amt)]))),
               ("once, by the farm's own authority", Implies(emits, one_transfer(v, hv, sv, amt, v.pda('signer', fk)))),
               ('the same amount is added to the vested tokens', Implies(emits, eqt(pos(v, tb)[1], update(v, to, tfa)[1] + amt))),
               ('and cleared from the record', eqt(value_of(v, b, sm), 0)),
               ('the records of the other mints stay', for_mints(v, fk, lambda m: Or(eqt(m, sm), eqt(value_of(v, b, m), value_of(v, a, m) + cr(m))))),
               ('harvest is accounted first', And(accounted(v, fr), accounted(v, to))),
               ("the harvest vault is the farm's vault of that mint", eqt(hv, v.pda('harvest_vault', fk, v.mint_of(hv)))),
               ("the staking vault is the receiving farm's own", eqt(sv, v.pda('stake_vault', tk))),
               ('both vaults hold one mint', eqt(v.mint_of(hv), v.mint_of(sv))),
               ('the pair of farms is whitelisted', And(v.isa(v.key(v.P['whitelist_compounding']), 'WhitelistCompounding'),
                                                        eqt(v.key(v.P['whitelist_compounding']), v.pda('whitelist_compounding', fk, tk)))),
               ('the farmers are of these farms', And(eqt(v.get(a, 'farm'), fk), eqt(v.get(ta, 'farm'), tk))),
               ('the farmers are of one user', eqt(v.get(a, 'authority'), v.get(ta, 'authority'))),
               ('user and farm of the farmers stay', And(*[only(v, x, y, ('staked', 'vested', 'vested_at', 'calculate_next_harvest_from', 'harvests'), FARMER) for x, y in ((a, b), (ta, tb))]))]
        if fr != to:
            out.append(('the farms differ', Not(eqt(fk, tk))))
            out.append(('the source position stays in total', eqt(pos(v, a)[0] + pos(v, a)[1], pos(v, b)[0] + pos(v, b)[1])))
        return out + others(v, fr, to)
    return post


def inv_across(v):
    """both farmers and farms as for one"""
    return inv_farmer(v, 'source_farmer', 'source_farm') + inv_farmer(v, 'target_farmer', 'target_farm')


COMP = {'compound_same_farm': ('farmer', 'farmer', 'farm', 'farm', 'harvest_vault', 'stake_vault', 'farm_signer_pda'),
        'compound_across_farms': ('source_farmer', 'target_farmer', 'source_farm', 'target_farm', 'source_harvest_vault', 'target_stake_vault', 'source_farm_signer_pda')}


# --- concrete farms and farmers, for runs of the real program around a witness ------------------------------

def gen_farm(rng, S, f):
    """a farm with snapshots and schedules; the current slot becomes S.slot; returns the interesting slots"""
    full = rng.random() < .35
    k = 1000 if full else rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    tip = rng.choice([0, 0, 1, 2, 3, 4, 5, 998, 999, 999, rng.randrange(1000)]) if full else k
    t, starts = rng.choice([1, 5, 40]), []
    for _ in range(k):
        starts.append(t)
        t += rng.choice([1, 1, 2, 3, 5, 10, 30])
    S.slot = (starts[-1] if starts else 3) + rng.choice([0, 0, 1, 1, 2, 5, 30])
    ring = S.get(f, 'snapshots.ring_buffer')
    S.set(f, 'snapshots.ring_buffer_tip', tip)
    big = rng.choice([10, 1000, 10 ** 9, 10 ** 18])
    for i in range(1000):
        x = nth(ring, (tip - k + 1 + i) % 1000)
        on = i < k
        S.set(x, 'started_at.slot', starts[i] if on else 0)
        S.set(x, 'staked.amount', rng.choice([0, rng.randint(1, big), rng.randint(1, big)]) if on else 0)
    for i in range(NM):
        h = H(S, f, i)
        S.set(h, 'mint', 0)
        for j in range(NP):
            setper(S, h, j, 0, 0, 0)
    ms = [(0xabc + i) << 64 for i in range(rng.choice([1, 1, 2, 3]))]
    ms = [S.get(f, 'stake_mint')] * (rng.random() < .5) + ms
    at = rng.sample(range(NM), len(ms))
    for i, m in zip(at, ms):
        h = H(S, f, i)
        S.set(h, 'mint', m)
        ps, t = [], rng.choice([1, 2, rng.randint(1, 2 * S.slot)])
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            e = t + rng.choice([1, 2, 5, S.slot])
            ps.append((t, e, rng.choice([0, 1, 7, rng.randint(1, big)])))
            t = e + rng.choice([1, 1, 2, 7])
        for j, (a, b, c) in enumerate(reversed(ps)):
            setper(S, h, j, a, b, c)
    edge = [starts[(j - tip - 1) % 1000] for j in (998, 999, 0)] * 2 if full else []         # where the ring wraps
    return ms, [0, 1, S.slot] + starts[-12:] + starts[:2] + edge


def setper(S, h, j, a, b, c):
    p = S.get(h, 'periods[%d]' % j)
    S.set(p, 'starts_at.slot', a)
    S.set(p, 'ends_at.slot', b)
    S.set(p, 'tps.amount', c)


def near(rng, xs):
    return max(0, rng.choice(xs) + rng.choice([-2, -1, 0, 0, 1, 2]))


def gen_position(rng, S, x, ms, slots):
    S.set(x, 'staked.amount', rng.choice([0, 1, rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 12)]))
    S.set(x, 'vested.amount', rng.choice([0, 1, rng.randint(1, 10 ** 6)]))
    nx = min(near(rng, slots), S.slot + 1)
    S.set(x, 'calculate_next_harvest_from.slot', nx)
    at = min(S.slot, near(rng, slots))
    if at > nx and rng.random() < .5:
        nx = at
        S.set(x, 'calculate_next_harvest_from.slot', nx)
    S.set(x, 'vested_at.slot', min(nx, at))
    rs = [(m, rng.choice([0, 5, 10 ** 9])) for m in ms if rng.random() < .7]
    if rng.random() < .3:
        rs.append((77 << 128, 5))
    rng.shuffle(rs)
    for i in range(NM):
        m, t = rs[i] if i < len(rs) else (0, 0)
        S.set(S.get(x, 'harvests[%d]' % i), 'mint', m)
        S.set(S.get(x, 'harvests[%d]' % i), 'tokens.amount', t)


def gen_update(rng, S, case):
    fs = {k: gen_farm(rng, S, f) for k, f in S.of('Farm')}
    if len(fs) > 1:
        S.slot += rng.choice([0, 1, 10])
    for k, x in S.of('Farmer'):
        fk = S.get(x, 'farm') if S.get(x, 'farm') in fs else list(fs)[0]
        gen_position(rng, S, x, *fs[fk])
    for x in S.args:
        if x.n == 'Slot':
            x.f[0] = near(rng, list(fs.values())[0][1] + [2 * S.slot])
        elif x.n == 'TokenAmount':
            t = [S.get(y, f) for _, y in S.of('Farmer') for f in ('staked.amount', 'vested.amount')]
            x.f[0] = max(1, min(U64M, rng.choice(t + [sum(t), sum(t) + 1, 1, 10 ** 6])))
    for k, x in S.of('TokenAccount'):
        S.balance(k, rng.choice([10 ** 13, 10 ** 18]))


# --- the functions behind the contracts of accrual, proved on their bodies -------------------------------------

def at_age(f, tip, ring, a):
    """the a-th newest snapshot"""
    return nth(ring, ite(a <= tip, tip - a, tip - a + RING))


def chronological(get, tip, ring, T):
    """older snapshots did not start later (F01 keeps this)"""
    a, b = z3.Int('age!a'), z3.Int('age!b')
    x, y = [zi(get(at_age(None, tip, ring, k), 'started_at.slot')) for k in (a, b)]
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < RING), x >= y))


def build_fsa(W, ex, st, case):
    """the ring position is within the ring and snapshots are in order of time (F01)"""
    f = W.types.sym('Farm', 'farm')
    s = W.types.sym('Slot', 'slot')
    tip, ring = W.types.get(f, 'snapshots.ring_buffer_tip'), W.types.get(f, 'snapshots.ring_buffer')
    return Call([VRef(ex.new_cell(st, f)), s], [tip < RING, chronological(W.types.get, tip, ring, W.T)], ring=ring, tip=tip, slot=s.f[0], W=W)


def post_fsa(c, ex, st, v):
    W = c.W
    start = lambda x: zi(W.types.get(x, 'started_at.slot'))
    q = W.T.fresh('anyage', 0, RING - 1)
    W.T.inst += [q, z3.IntVal(0), z3.IntVal(RING - 1)]
    sq = start(at_age(None, c.tip, c.ring, q))
    out = []
    r = v.p[1][0] if 1 in v.p and v.p[1] else None
    if r is not None:
        some = eqt(v.d, 1)
        out.append(('the snapshot started after the slot', Implies(some, start(r) > c.slot)))
        out.append(('no retained snapshot lies between', Implies(some, Or(sq <= c.slot, sq >= start(r)))))
        out.append(('it is retained', Implies(some, Or(*[And(0 <= i, i < RING, samev(Getter(W.types), at_age(None, c.tip, c.ring, i), r)) for i in W.T.inst]))))
    out.append(('none only when no snapshot was taken since, or every retained one is later', Implies(eqt(v.d, 0), Or(start(nth(c.ring, c.tip)) <= c.slot, sq > c.slot))))
    return out


FSA_FN = Fn('models::farm::Farm::first_snapshot_after', build_fsa, post_fsa)

def build_windows(W, ex, st, case):
    """the ring position is within the ring (F01)"""
    f = W.types.sym('Farm', 'farm')
    s = W.types.sym('Slot', 'from')
    tip, ring = W.types.get(f, 'snapshots.ring_buffer_tip'), W.types.get(f, 'snapshots.ring_buffer')
    return Call([VRef(ex.new_cell(st, f)), s], [tip < RING], ring=ring, tip=tip, slot=s.f[0], W=W, ex=ex)


def post_windows(c, ex, st, v):
    W = c.W
    start = lambda x: zi(W.types.get(x, 'started_at.slot'))
    k = W.T.fresh('anyage', 0, RING - 1)
    n = zi(v.n)
    W.T.inst += [k, z3.IntVal(0), z3.IntVal(RING - 1)]
    at = lambda a: at_age(None, c.tip, c.ring, a)
    last = start(at(n - 1))
    return [('the newest snapshots, newest first', Implies(k < n, samev(Getter(W.types), ex.load(st, v.elem(ex, st, k)), at(k)))),
            ('at least the newest, at most all', And(n >= 1, n <= RING)),
            ('all but the oldest of them started after the slot', Implies(k < n - 1, start(at(k)) > c.slot)),
            ('the oldest of them did not, or they are all', Or(n >= RING, last <= c.slot))]


WINDOWS_FN = Fn('models::farm::Farm::get_window_snapshots_eligible_to_harvest', build_windows, post_windows, internal=True)

ADMIN_IX = ('create_farm', 'add_harvest', 'remove_harvest', 'set_farm_owner', 'new_harvest_period', 'take_snapshot', 'set_min_snapshot_window')
from specs_accrual import ACCRUAL_FN, HISTORY_FN, METHOD_FN
SPECS = {
    'F01': [Spec('take_snapshot', f01, tip_ok, gen=gen_snap)] + [Spec(x, snaps_same, name=x + ' (frame)') for x in ADMIN_IX if x not in ('take_snapshot', 'create_farm')],
    'F02': [Spec('new_harvest_period', f02, pre02)] + [Spec(x, wf_frame, name=x + ' (frame)') for x in ('set_farm_owner', 'take_snapshot', 'set_min_snapshot_window')],
    'F03': [Spec('new_harvest_period', f03, pre03)],
    'F04': [Spec('add_harvest', f04_add, inv04), Spec('remove_harvest', f04_remove, lambda v: inv04(v) + [Not(eqt(v.args[0], 0))]), Spec('create_farm', f04_create)] +
           [Spec(x, f04_registry_same, name=x + ' (frame)') for x in ('set_farm_owner', 'new_harvest_period', 'take_snapshot', 'set_min_snapshot_window')],
    'F05': [WINDOWS_FN] + METHOD_FN + HISTORY_FN + ACCRUAL_FN + [Spec(x, f05, inv_farmer, contracts=farmer_contracts, gen=gen_update, nsample=1500, must=f05_must if x == 'update_eligible_harvest' else None) for x in ('update_eligible_harvest', 'update_eligible_harvest_until')],
    'F06': [Spec(x, f06_of(), inv_farmer, contracts=farmer_contracts, gen=gen_update) for x in ('update_eligible_harvest', 'update_eligible_harvest_until', 'start_farming')] +
           [Spec('stop_farming', f06_of(), inv_stop, contracts=farmer_contracts, gen=gen_update),
            Spec('compound_same_farm', f06_of(taken=stake_mint('farm')), inv_farmer, contracts=farmer_contracts, gen=gen_update),
            Spec('compound_across_farms', both(('source: ', f06_of('source_farmer', 'source_farm', stake_mint('target_farm'))), ('target: ', f06_of('target_farmer', 'target_farm'))),
                 inv_across, contracts=farmer_contracts, gen=gen_update)],
    'F07': [FSA_FN] + [Spec(x, f07_of(), inv_farmer, contracts=farmer_contracts, gen=gen_update, nsample=800) for x in ('update_eligible_harvest', 'update_eligible_harvest_until')] +
           [Spec('start_farming', f07_of(added=lambda v: v.get(v.args[0], 'amount')), inv_farmer, contracts=farmer_contracts, gen=gen_update)],
    'F08': [Spec('start_farming', f08_start, inv_farmer, contracts=farmer_contracts, gen=gen_update), Spec('stop_farming', f08_stop, inv_stop, contracts=farmer_contracts, gen=gen_update)],
    'F09': [Spec('claim_eligible_harvest', f09, inv_claim, subst=same_pays, cases=[{'name': '%d pairs' % n if n > 1 else 'one pair', 'remaining': 2 * n, 'pairs': n} for n in range(1, 11)], budget=400)],
    'F10': [Spec(x, f10_of(*COMP[x]), inv_farmer if x == 'compound_same_farm' else inv_across, contracts=farmer_contracts, gen=gen_update) for x in COMP],
    'F11': [Spec('create_farmer', f11_create), Spec('close_farmer', f11_close)] +
           [Spec(x, f11_frame, name=x + ' (frame)') for x in ('dewhitelist_farm_for_compounding', 'airdrop', 'remove_harvest')],
    'F12': [Spec('set_min_snapshot_window', f12_window), Spec('set_farm_owner', f12_owner), Spec('create_farm', f12_create),
            Spec('add_harvest', f12_farm(('harvests',))), Spec('remove_harvest', f12_farm(('harvests',))), Spec('new_harvest_period', f12_period, timeout=60000),
            Spec('whitelist_farm_for_compounding', f12_whitelist), Spec('dewhitelist_farm_for_compounding', f12_dewhitelist)] +
           [Spec(x, f12_frame, name=x + ' (frame)', cases=[{'remaining': 4 if x == 'claim_eligible_harvest' else 0}]) for x in ('create_farmer', 'close_farmer', 'airdrop', 'claim_eligible_harvest')],
    'F13': [Spec('airdrop', f13, pre13)],
}

ACC = ('The tokens accrued per slot interval are a function of farm, mint, interval and stake at the call sites; that Farmer::eligible_harvest_until and what it calls compute the defined amount is '
       'proved in F05, Farm::first_snapshot_after in F07. Native executions on generated farms are compared with the closed form in addition (bounded, see DESIGN.md section 5).')
LEVEL = {'F05': {'note': ACC}, 'F06': {'note': ACC}, 'F07': {'note': ACC}, 'F08': {'note': ACC}, 'F10': {'note': ACC},
         'F09': {'note': 'Every number of vault and wallet pairs from one to ten (a farm has at most ten mints); longer lists, which repeat a mint or name an unknown one, are not covered.'}}
