"""Obligations: every successful outcome of an instruction satisfies each clause of its contract."""
import time, json, traceback, os
import z3
from val import *
from mir import Unsupported
from world import World
from sym import Exec
import view as V
import replay as R
import lemma
import sample as SM

POS = {
    'create_farm': 'admin farm farm_signer_pda stake_mint stake_vault token_program system_program rent',
    'add_harvest': 'admin farm farm_signer_pda harvest_mint harvest_vault token_program system_program rent',
    'remove_harvest': 'admin farm farm_signer_pda harvest_vault token_program',
    'set_farm_owner': 'admin new_farm_admin farm',
    'new_harvest_period': 'admin farm harvest_wallet harvest_vault farm_signer_pda token_program',
    'take_snapshot': 'farm stake_vault',
    'set_min_snapshot_window': 'admin farm',
    'create_farmer': 'payer authority farmer farm system_program',
    'close_farmer': 'authority farmer',
    'start_farming': 'wallet_authority farmer stake_wallet farm stake_vault token_program',
    'stop_farming': 'authority farmer stake_wallet farm farm_signer_pda stake_vault token_program',
    'update_eligible_harvest': 'farm farmer',
    'update_eligible_harvest_until': 'farm farmer',
    'claim_eligible_harvest': 'authority farmer farm_signer_pda token_program',
    'whitelist_farm_for_compounding': 'admin source_farm target_farm whitelist_compounding system_program',
    'dewhitelist_farm_for_compounding': 'admin source_farm target_farm whitelist_compounding system_program',
    'compound_same_farm': 'farm farm_signer_pda whitelist_compounding stake_vault harvest_vault farmer token_program',
    'compound_across_farms': 'source_farm target_farm source_farm_signer_pda whitelist_compounding target_stake_vault source_harvest_vault source_farmer target_farmer token_program',
    'airdrop': 'wallet_authority farmer harvest_wallet harvest_vault token_program',
    'create_program_toll': 'program_authority amm amm_metadata program_toll_authority program_toll system_program',
    'create_discount_settings': 'program_authority amm amm_metadata discount_settings_authority discount_settings system_program',
    'create_pool': 'admin pool pool_signer program_toll program_toll_wallet lp_mint token_program system_program',
    'put_discount': 'authority discount discount_settings system_program',
    'set_pool_swap_fee': 'admin pool',
    'deposit_liquidity': 'user pool pool_signer_pda lp_mint lp_token_wallet token_program',
    'redeem_liquidity': 'user pool pool_signer lp_mint lp_token_wallet token_program',
    'swap': 'user discount pool pool_signer sell_wallet buy_wallet sell_vault buy_vault lp_mint program_toll_wallet token_program',
}


class Spec:
    """contract of one instruction, for one property"""

    def __init__(s, ix, post, pre=None, cases=None, contracts=None, loops=None, timeout=30000, name=None, budget=240, replays=3, gen=None, nsample=200, hint=None, subst=None, must=None):
        s.must = must                   # for sampled runs: the instruction has to succeed
        s.ix, s.post, s.pre = ix, post, pre or (lambda v: [])
        s.cases = cases or [{}]
        s.contracts, s.loops, s.timeout = contracts, loops, timeout
        s.name = name or ix
        s.budget, s.replays = budget, replays
        s.gen, s.nsample, s.hint = gen, nsample, hint
        s.subst = subst


class Fn:
    """contract of one function: the real body is executed on arbitrary arguments of the described shape; callers may then use the
    contract instead of the body"""

    def __init__(s, fn, build, post, cases=None, contracts=None, name=None, timeout=30000, budget=240, loops=None, internal=False):
        s.loops, s.internal = loops, internal
        s.fn, s.build, s.post, s.cases, s.contracts = fn, build, post, cases or [{}], contracts
        s.name, s.timeout, s.budget = name or fn.split('::')[-1], timeout, budget
        s.ix = fn

    def run(s, W, nat, pid, case, res, tag):
        W.reset()
        DISTINCT.clear()
        t0 = time.time()
        name = s.name + tag
        ex = W.exec(contracts=s.contracts(W) if s.contracts else None, deadline=t0 + s.budget)
        ex.contracts.pop(s.fn, None)
        st = W.state()
        try:
            if len(W.crate.fns.get(s.fn, ())) != 1:
                raise Unsupported('there is no such function')
            c = s.build(W, ex, st, case)
            ex.loops = s.loops(c) if s.loops else {}
            outs = ex.run(ex.c.body_at(ex.c.fns[s.fn][0], s.fn), c.args, st)
        except (Unsupported, z3.Z3Exception, AttributeError, IndexError, KeyError, ValueError, TypeError) as u:
            res.obl.append({'name': name + '/execution', 'status': 'undecided', 'note': 'not within reach of the executor: %r' % (u,)})
            return
        seen = {}
        for n, hyp, f in ex.obls:
            # loop invariants: one that cannot be shown leaves the contract undecided, it may be too weak for another way to write the loop
            t1 = time.time()
            left = t0 + s.budget - t1
            r = 'unsat' if f is True else 'unknown' if left < 1 else decide(W.T, hyp + [zb(p) for p in c.pre], f, int(min(s.timeout, left * 1000)), t1 + left)[0]
            seen[n] = seen.get(n, 0) + 1
            res.obl.append({'name': '%s/%s%s' % (name, n, '#%d' % seen[n] if seen[n] > 1 else ''), 'time': round(time.time() - t1, 3), 'clause': n,
                            'status': 'discharged' if r == 'unsat' else 'undecided', 'note': 'loop invariant' + (' (%s)' % r if r != 'unsat' else '')})
        res.functions[s.fn] = 'contract proved'
        if s.build.__doc__:
            res.assumed.add('precondition of %s: %s' % (s.fn, ' '.join(s.build.__doc__.split())))
        res.assumed |= {'library contract: ' + x for x in ex.assumed} | {'the contract of %s in place of its body' % x for x in ex.contracts}
        for f, how in ex.inlined.items():
            res.functions.setdefault(f, how)
        k = 0
        for st2, v in outs:
            if isinstance(v, VE) and v.n == 'Result' and v.d == 1:
                continue
            hyp = list(st2.pc) + [zb(p) for p in c.pre if p is not True]
            if isinstance(v, VE) and v.n == 'Result':
                if not isinstance(v.d, int):
                    hyp.append(eqt(v.d, 0))
                v = v.p[0][0]
            if check(W.T, hyp, timeout=5000) == 'unsat':
                continue
            k += 1
            if case.get('refused'):
                r, m = check(W.T, hyp, timeout=s.timeout, want_model=True)
                res.obl.append({'name': name + '/refused', 'status': {'unsat': 'discharged', 'sat': 'refuted'}.get(r, 'undecided'), 'clause': 'refused',
                                'note': 'the function succeeds', 'model': str(m)[:4000]})
                continue
            try:
                clauses = s.post(c, ex, st2, v)
            except (Unsupported, AttributeError, IndexError, KeyError, ValueError, TypeError) as u:
                res.obl.append({'name': name + '/contract', 'status': 'undecided', 'note': 'contract does not apply: %r' % (u,)})
                continue
            for n, f in clauses:
                t1 = time.time()
                left = t0 + s.budget - t1
                o = {'name': '%s%s/%s' % (name, '#%d' % k if k > 1 else '', n), 'clause': n}
                if left < 1 and f is not True:
                    o.update(status='undecided', note='time is used up')
                else:
                    r, m = ('unsat', None) if f is True else decide(W.T, hyp, f, int(min(s.timeout, left * 1000)), t1 + left)
                    o['time'] = round(time.time() - t1, 3)
                    o['status'] = {'unsat': 'discharged', 'unknown': 'undecided'}.get(r, 'refuted')
                    if r == 'sat':
                        o['model'] = str(m)[:4000]
                        o['note'] = 'obligation of a function contract'
                        if s.internal:           # the property speaks of what its callers do, who may do it in another way
                            o.update(status='undecided', note='the contract of a function the proof goes through does not hold; what its callers do is left to the sampled executions')
                res.obl.append(o)
        if not k and case.get('refused'):
            res.obl.append({'name': name + '/refused', 'status': 'discharged', 'time': 0, 'clause': 'refused'})
        elif not k:
            res.obl.append({'name': name + '/reachable', 'status': 'undecided', 'note': 'no successful outcome found'})


class Call:
    """arguments of a function under contract, what is assumed of them, and whatever the postcondition needs"""

    def __init__(s, args, pre=(), **kw):
        s.args, s.pre = args, list(pre)
        s.__dict__.update(kw)


class Lemma:
    """what follows from contracts alone: claims(v) -> [(name, hypotheses, conclusion)], v declaring arbitrary amounts"""

    def __init__(s, name, claims, cases=None, timeout=30000, budget=120):
        s.name, s.claims, s.cases, s.timeout, s.budget = name, claims, cases or [{}], timeout, budget
        s.ix, s.fn = name, None

    def run(s, W, nat, pid, case, res, tag):
        W.reset()
        DISTINCT.clear()
        for k, hyp, f in s.claims(lambda n: W.T.fresh(n, 0, (1 << 64) - 1), case):
            t1 = time.time()
            r, m = decide(W.T, [zb(x) for x in hyp], f, s.timeout, t1 + s.budget)
            o = {'name': '%s%s/%s' % (s.name, tag, k), 'clause': k, 'time': round(time.time() - t1, 3)}
            o['status'] = {'unsat': 'discharged', 'unknown': 'undecided'}.get(r, 'refuted')
            if r == 'sat':
                o['model'] = str(m)[:4000]
            res.obl.append(o)
        # the hypotheses must not contradict each other
            if check(W.T, [zb(x) for x in hyp], timeout=5000) == 'unsat':
                res.obl.append({'name': '%s%s/%s (hypotheses)' % (s.name, tag, k), 'status': 'undecided', 'note': 'contradictory hypotheses'})


def attach(v, ix):
    v.ix = ix
    v.P = {n: i for i, n in enumerate(POS[ix].split())} if ix in POS else {}
    v.base = len(v.P)
    return v


class Result:
    def __init__(s, name):
        s.name = name
        s.obl = []          # dicts: name, status, time, note, replay
        s.functions = {}
        s.witness = []
        s.conformance = []
        s.error = None
        s.assumed = set()
        s.bounded = []
        s.time = 0
        s.queries = 0


def prove_case(W, nat, pid, spec, case, res, tag):
    """one case of an instruction contract; returns None"""
    W.reset()
    W.types.fixed.update(case.get('fixed', {}))
    if case.get('bind'):
        W.types.fixed.update(case['bind'](W))
    DISTINCT.clear()
    for i, fam in enumerate(case.get('distinct', ())):
        for x in fam:
            t = W.types.fixed.get(x)
            DISTINCT[t.get_id() if isz(t) else x] = (i, t)
    t0 = time.time()
    nacc = case.get('nacc', (len(POS[spec.ix].split()) if spec.ix in POS else 0) + case.get('remaining', 0))
    ex = W.exec(contracts=spec.contracts(W) if spec.contracts else None, loops=spec.loops(W) if spec.loops else None, deadline=t0 + spec.budget)
    name = spec.name + tag
    try:
        start = None
        if case.get('start'):
            def start(st, keys, vals):
                v0 = attach(V.SymView(W, ex, st, keys, vals), spec.ix)
                v0.case = case
                return case['start'](v0)
        outs, keys, vals = W.run_ix(ex, spec.ix, nacc=nacc, vecn=case.get('vecn', 4), start=start)
    except Unsupported as u:
        res.obl.append({'name': name + '/execution', 'status': 'undecided', 'note': 'not within reach of the executor: %s' % u})
        return
    except z3.Z3Exception as u:
        res.obl.append({'name': name + '/execution', 'status': 'undecided', 'note': 'solver interface: %s' % u})
        return
    res.assumed |= {'library contract: ' + x for x in ex.assumed} | {'the contract of %s in place of its body' % x for x in ex.contracts}
    if spec.pre.__doc__:
        res.assumed.add('state before %s: %s' % (spec.ix, ' '.join(spec.pre.__doc__.split())))
    for f, how in ex.inlined.items():
        res.functions[f] = how
    oks = [(st, v) for st, v in outs if not (isinstance(v, VE) and v.d == 1)]
    if not oks and case.get('refused'):
        res.obl.append({'name': name + '/refused', 'status': 'discharged', 'time': 0, 'clause': 'refused'})
        return
    if not oks:
        res.obl.append({'name': name + '/reachable', 'status': 'undecided', 'note': 'no successful outcome found'})
        return
    npath = 0
    base = None
    for st, rv in oks:
        view = attach(V.SymView(W, ex, st, keys, vals), spec.ix)
        view.case = case
        hyp = list(st.pc)
        if isinstance(rv, VE) and not isinstance(rv.d, int):
            hyp.append(eqt(rv.d, 0))
        try:
            pre = [p for p in spec.pre(view) if p is not True]
            if case.get('assume'):
                pre += [p for p in case['assume'](view) if p is not True]
            if case.get('start'):
                pre += [p for p in case['start'](view) if p is not True]
            clauses = spec.post(view)
        except Unsupported as u:
            res.obl.append({'name': name + '/contract', 'status': 'undecided', 'note': str(u)})
            continue
        except (AttributeError, IndexError, KeyError, ValueError, TypeError) as u:
            res.obl.append({'name': name + '/contract', 'status': 'undecided', 'note': 'contract does not apply: %r %s' % (u, traceback.format_exc()[-300:])})
            continue
        p = '' if len(oks) == 1 else '#%d' % npath
        npath += 1
        # reachability with a witness
        r, m = 'unknown', None
        if spec.hint:
            r, m = check(W.T, hyp + pre + [zb(h) for h in spec.hint(view) if h is not True], timeout=10000, want_model=True)
        if r != 'sat':
            r, m = check(W.T, hyp + pre, timeout=20000, want_model=True)
        if r == 'unsat':
            continue
        if r == 'sat' and nat:
            try:
                m = nice_model(W, view, hyp + pre, m, 0, spec.hint(view) if spec.hint else ())
                accs, pos, data, slot, args, C = R.world(W, nat, pid, view, m, spec.ix)
                rr, cv = R.execute(W, nat, pid, accs, pos, data, slot, args)
                w = {'path': name + p, 'native': rr['status'], 'msg': rr['msg'][:120]}
                if cv:
                    base = (accs, pos, args, slot)
                if cv:
                    attach(cv, spec.ix)
                    cv.case = case
                    cc = dict(spec.post(cv))
                    w['clauses_false'] = [k for k, x in cc.items() if x is False]
                    w['differs'] = conform(W, view, cv, C)
                    for k in w['clauses_false']:
                        res.obl.append({'name': '%s%s/%s' % (name, p, k), 'status': 'refuted', 'time': 0, 'note': 'witness execution violates the clause',
                                        'replay': R.dump(spec.ix, accs, pos, data, slot), 'clause': k})
                res.witness.append(w)
            except (Unsupported, KeyError, IndexError, OverflowError, AttributeError, TypeError) as u:
                res.witness.append({'path': name + p, 'native': None, 'msg': 'replay: %r' % (u,)})
        if spec.gen and base and nat and npath == 1:
            found = SM.sample(W, nat, pid, spec, case, base, res, name + p, spec.nsample, 20, seed())
            if found:
                for k in found[0]:
                    res.obl.append({'name': '%s%s/%s' % (name, p, k), 'status': 'refuted', 'time': 0, 'note': 'confirmed on the real program (sampled state): ' + ', '.join(found[0]),
                                    'replay': found[1], 'clause': k})
        # terms of the contract that provably equal terms of the code are replaced by them
        eqs = []
        for x, y in spec.subst(view) if spec.subst else ():
            if isz(x) and not isinstance(x, int) and check(W.T, hyp + pre + [x != y], timeout=5000) == 'unsat':
                eqs.append((x, y))
        if eqs:
            clauses = [(k, z3.substitute(f, *eqs) if isz(f) else f) for k, f in clauses]
        for k, f in () if os.environ.get('SAMPLE_ONLY') else clauses:
            on = '%s%s/%s' % (name, p, k)
            t1 = time.time()
            if any(o['name'] == on and o['status'] == 'refuted' for o in res.obl):
                continue
            left = t0 + spec.budget - t1
            if left < 1 and f is not True:
                res.obl.append({'name': on, 'status': 'undecided', 'note': 'time is used up', 'clause': k})
                continue
            r, m = ('unsat', None) if f is True or eqs and valid(f, [y for x, y in eqs]) else decide(W.T, hyp + pre, f, int(min(spec.timeout, left * 1000)), t1 + left)
            o = {'name': on, 'time': round(time.time() - t1, 3), 'clause': k}
            if r == 'unsat':
                o['status'] = 'discharged'
            elif r == 'unknown':
                o['status'] = 'undecided'
                o['note'] = 'solver gave no answer within %d s' % (spec.timeout // 1000)
            else:
                o['status'] = 'refuted'
                o['model'] = str(m)[:4000]
                if nat:
                    try_replay(W, nat, pid, view, spec, case, k, f, hyp + pre, m, o)
            res.obl.append(o)
    und = [o for o in res.obl if (o['status'] == 'undecided' or o['status'] == 'refuted' and not o.get('replay')) and o['name'].startswith(name)]
    if spec.gen and base and nat and und:
        found = SM.sample(W, nat, pid, spec, case, base, res, name + '/more', 20000, 60, seed())
        if found:
            for k in found[0]:
                if any(o.get('clause') == k and o['status'] == 'refuted' and o.get('replay') for o in res.obl):
                    continue
                o = [o for o in und if o.get('clause') == k]
                o = o[0] if o else {'name': '%s/%s' % (name, k), 'clause': k}
                if o not in res.obl:
                    res.obl.append(o)
                o.update(status='refuted', note='confirmed on the real program (sampled state): ' + ', '.join(found[0]), replay=found[1])
    if npath == 0 and case.get('refused'):
        res.obl.append({'name': name + '/refused', 'status': 'discharged', 'time': 0, 'clause': 'refused'})
    elif npath == 0:
        res.obl.append({'name': name + '/reachable', 'status': 'undecided', 'note': 'no successful outcome is reachable'})


def nice(W, view):
    """preferences for a model: different accounts, ordinary addresses; never a hypothesis of a proof"""
    out = []
    ks = [zi(k[0]) for k in view.keys]
    typ = {}
    for k, t in W.lib.seen:
        typ.setdefault(zi(k).get_id(), set()).add(t)
    for i, k in enumerate(ks):
        t = typ.get(k.get_id(), set())
        if not any(x == 'program' or x.startswith('sysvar') for x in t):
            out.append(z3.And(k < (1 << 255), k > 0))
    for k, t in W.lib.seen:
        if t == 'TokenAccount':
            a = view.acc0(k, 'TokenAccount').f[0].f
            out.append(zb(And(eqt(a[4].d, 1), eqt(a[5].d, 0))))
        if t == 'Mint':
            out.append(zb(view.acc0(k, 'Mint').f[0].f[3]))
    if len(ks) > 1:
        out.append(z3.Distinct(*ks))
    return out


def nice_model(W, view, hyp, m, seed=0, hints=()):
    soft = nice(W, view)
    tries = []
    if hints:
        tries.append(soft + [zb(h) for h in hints if h is not True])
    if m is not None:
        pins = lemma.pins(W.T, hyp, m)
        if pins:
            tries += [soft + pins, soft[:-1] + pins]
    tries += [soft, soft[:-1]]
    for t in tries:
        r, m2 = check(W.T, hyp + t, timeout=6000, want_model=True, seed=seed)
        if r == 'sat':
            return m2
    return m


def seed():
    return os.environ.get('VERIF_SEED', '1')


def valid(f, terms=()):
    """true whatever is assumed, and whatever the given terms and the operands of their conditions are"""
    if not isz(f):
        return False
    sub, n = [], 0
    for y in terms:
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            todo = y.children()
            while todo:
                t = todo.pop()
                if z3.is_and(t) or z3.is_not(t):
                    todo += t.children()
                elif t.num_args():
                    n += 1
                    sub.append((t, z3.Const('any!%d' % n, t.sort())))
    so = z3.Solver()
    so.set('timeout', 10000)
    g = z3.substitute(zb(f), *sub) if sub else zb(f)
    while True:
        h = one_step(g)
        if h is None:
            break
        g = h
    so = z3.Solver()
    so.set('timeout', 10000)
    so.add(z3.Not(g))
    STATS.queries += 1
    return so.check() == z3.unsat


def one_step(g):
    """for last(A)[k] == d0 + d1 + ...: the d's of the last movement on an array A of balances are proved for any A, what is left is A[k] == the other d's"""
    if not (z3.is_eq(g) and z3.is_select(g.arg(0)) and z3.is_app_of(g.arg(0).arg(0), z3.Z3_OP_ITE)):
        return None
    top, k = g.arg(0).children()
    prev = top.arg(1)
    A = z3.Const('any!array', top.sort())
    step = z3.substitute(top, (prev, A))
    mine, rest = [], []

    def consts(t, seen):
        if t.get_id() not in seen:
            seen[t.get_id()] = t
            for c in t.children():
                consts(c, seen)
        return {x.decl().name() for x in seen.values() if z3.is_const(x) and x.decl().name().startswith('any!')}
    own = consts(step, {})

    def addends(t, sign):
        if z3.is_add(t):
            for c in t.children():
                addends(c, sign)
        elif z3.is_sub(t):
            addends(t.arg(0), sign)
            for c in t.children()[1:]:
                addends(c, -sign)
        else:
            (mine if consts(t, {}) & own else rest).append(t if sign > 0 else -t)
    addends(g.arg(1), 1)
    so = z3.Solver()
    so.set('timeout', 3000)
    so.add(step[k] != A[k] + z3.Sum([z3.IntVal(0)] + mine))
    STATS.queries += 1
    if not mine or so.check() != z3.unsat:
        return None
    return prev[k] == z3.Sum(rest)


def decide(T, hyp, f, timeout, until=None):
    g = Not(f)
    if g is True:
        return check(T, hyp, timeout=timeout, want_model=True)
    if getattr(T, 'inst', None):
        so = z3.Solver()
        so.set('timeout', min(timeout, 8000))
        fs = instances([zb(x) for x in hyp + [g]] + list(T.closure([zb(x) for x in hyp + [g]])), T.inst)
        if fs is not None:
            for x in fs:
                so.add(x)
            STATS.queries += 1
            if so.check() == z3.unsat:
                return 'unsat', None
            return 'unknown', None
    r, m = check(T, hyp + [g], timeout=min(timeout, 4000), want_model=True)
    if r != 'unknown':
        return r, m
    if len(conjuncts(f)) == 1:
        g2 = lemma.equal_quotients(T, hyp, g)
        if not g2.eq(zb(g)):
            g = g2
            r, m = check(T, hyp + [g], timeout=min(timeout, 4000), want_model=True)
            if r != 'unknown':
                return r, m
    if len(conjuncts(f)) == 1:
        hyp = hyp + lemma.compare(T, hyp, g)
    if len(conjuncts(f)) == 1 and (T.defs or g.num_args()) and lemma.check_products(T, hyp + [g], min(timeout, 9000), goal=g, skip=T.defs or {0}) == 'unsat':
        return 'unsat', None
    if len(conjuncts(f)) == 1 and T.defs and lemma.check_products(T, hyp + [g], min(timeout, 9000), goal=g, skip=T.heavy or {0}) == 'unsat':
        return 'unsat', None
    if len(conjuncts(f)) == 1 and lemma.check_products(T, hyp + [g], timeout, goal=g) == 'unsat':
        return 'unsat', None
    # split a conjunction
    parts = conjuncts(f)
    if len(parts) > 1:
        for q in parts:
            if until and time.time() > until:
                return 'unknown', None
            r, m = decide(T, hyp, q, timeout, until)
            if r != 'unsat':
                return r, m
        return 'unsat', None
    r, m = check(T, hyp + [g], timeout=timeout, want_model=True, seed=7)
    return r, m


def conjuncts(f):
    if isz(f) and z3.is_and(f):
        out = []
        for c in f.children():
            out += conjuncts(c)
        return out
    return [f]


def try_replay(W, nat, pid, view, spec, case, clause, f, hyp, m, o):
    """run the counterexample on the real program"""
    notes = []
    block = []
    for att in range(spec.replays):
        try:
            if att != 1:
                m = nice_model(W, view, hyp + [Not(f)], m, att)
            accs, pos, data, slot, args, C = R.world(W, nat, pid, view, m, spec.ix, salt=att)
            r, cv = R.execute(W, nat, pid, accs, pos, data, slot, args)
            if cv is None:
                notes.append('native status %d %s' % (r['status'], r['msg'][:100]))
            else:
                attach(cv, spec.ix)
                cv.case = case
                if not all(x is True for x in spec.pre(cv)):
                    notes.append('precondition does not hold concretely')
                else:
                    bad = [k for k, x in spec.post(cv) if x is not True]
                    if clause in bad or bad:
                        o['replay'] = R.dump(spec.ix, accs, pos, data, slot)
                        o['note'] = 'confirmed on the real program: ' + ', '.join(bad)
                        return
                    notes.append('clause holds on the real program')
        except (Unsupported, KeyError, IndexError, OverflowError, AttributeError, TypeError) as u:
            notes.append('replay: %r' % (u,))
        if att + 1 < spec.replays:
            r2, m2 = check(W.T, hyp + [Not(f)], timeout=10000, want_model=True, seed=att + 11)
            if r2 == 'sat':
                m = m2
    o['note'] = '; '.join(notes)


def conform(W, view, cv, C):
    """differences between the state the executor predicts and the one the program produced"""
    out = []
    for ty in list(W.types.structs):
        for g, k in view.written(ty):
            if not C.ev(g):
                continue
            try:
                want = C.val(ty, view.acc1(k, ty))
            except Unsupported:
                continue
            got = cv.acc1(C.addr(C.ev(k)), ty)
            if got is None or not same_noskip(want, got):
                out.append(ty)
    for i in range(len(view.keys)):
        k = view.keys[i][0]
        rk = C.addr(C.ev(k))
        if cv.acc0(rk, 'TokenAccount') is not None and cv.acc1(rk, 'TokenAccount') is not None:
            if C.ev(view.bal1(k)) != cv.bal1(rk):
                out.append('balance %d' % i)
        if cv.acc0(rk, 'Mint') is not None and C.ev(view.sup1(k)) != cv.sup1(rk):
            out.append('supply %d' % i)
    return out


same_noskip = R.same


def prove(W, nat, pid, spec):
    res = Result(spec.name)
    t0 = time.time()
    q0 = STATS.queries
    for case in spec.cases:
        if hasattr(spec, 'run'):
            spec.run(W, nat, pid, case, res, '[%s]' % case['name'] if case.get('name') else '')
            continue
        tag = '[%s]' % case['name'] if case.get('name') else ''
        prove_case(W, nat, pid, spec, case, res, tag)
    res.time = time.time() - t0
    res.queries = STATS.queries - q0
    return res
