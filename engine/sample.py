"""Bounded companion of an obligation: the real program is run on sampled states around a witness and the same clauses are evaluated on each run."""
import struct, random, copy, re, time, os
from val import *
from mir import Unsupported
from types_ import EXTERN
from codec import Codec
from native import sighash
import view as V
import replay as R

LOADS = ('Pool', 'Discount', 'DiscountSettings', 'ProgramToll', 'Farm', 'Farmer', 'WhitelistCompounding')


class State:
    """a concrete world, editable by field name"""

    def __init__(s, W, pid, accs, pos, args, slot, ix):
        s.W, s.pid, s.types, s.cod = W, pid, W.types, Codec(W.types)
        s.accs = [dict(a) for a in accs]
        s.pos, s.args, s.slot, s.ix = pos, copy.deepcopy(args), slot, ix
        s.vals = {}
        for i, a in enumerate(s.accs):
            for ty in ('TokenAccount', 'Mint') if a['owner'] == V.TOKEN_ID else [t for t in LOADS if t in W.types.structs] if a['owner'] == pid else ():
                v = s.cod.from_account(ty, a['data'])
                if v is not None:
                    s.vals[i] = [ty, v]
        s.key = {V.b2k(a['key']): i for i, a in enumerate(s.accs)}

    def at(s, key):
        return s.vals.get(s.key.get(key), [None, None])[1]

    def of(s, ty):
        return [(V.b2k(s.accs[i]['key']), v) for i, (t, v) in s.vals.items() if t == ty]

    def get(s, v, path):
        return s.types.get(v, path)

    def set(s, v, path, x):
        o, _, f = path.rpartition('.')
        o = s.types.get(v, o) if o else v
        if o.n in ('TokenAccount', 'Mint') and o.n in EXTERN and len(o.f) == 1:
            fl, o = EXTERN[o.n][1], o.f[0]
        else:
            fl = EXTERN[o.n][1] if o.n in EXTERN and o.n not in s.types.structs else s.types.structs[o.n]
        o.f[s.types.index(fl, f)] = x

    def balance(s, key, x):
        v = s.at(key)
        if v is not None:
            s.set(v, 'amount', x)

    def finish(s):
        accs = []
        for i, a in enumerate(s.accs):
            a = dict(a)
            if i in s.vals:
                b = s.cod.account(*s.vals[i])
                a['data'] = b + bytes(max(0, len(a['data']) - len(b)))
            accs.append(a)
        data = sighash(s.ix) + b''.join(s.cod.enc(t, v) for (n, t), v in zip(s.W.ixs[s.ix][1], s.args))
        return accs, s.pos, data, s.slot, s.args


def amount(rng, *near):
    """token amounts of all magnitudes and boundaries"""
    k = rng.random()
    if near and k < .35:
        x = rng.choice(near)
        return max(0, min(U64, rng.choice([x, x + 1, x - 1, x * 2, x // 2, x * rng.randint(1, 999) // 1000, x * rng.randint(1000, 1100) // 1000])))
    if k < .45:
        return rng.choice([1, 2, 3, 7, 10, 99, 100, 999, 1000, 10 ** 6, 10 ** 9, 10 ** 10, 10 ** 10 + 1, 10 ** 12])
    return max(1, min(U64, int(10 ** rng.uniform(0, 19.2))))


U64 = (1 << 64) - 1


def sample(W, nat, pid, spec, case, base, res, name, n, seconds, seed):
    """returns the first violated (clauses, replay)"""
    rng = random.Random('%s %s' % (seed, name))
    t0 = time.time()
    good = runs = 0
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        S = State(W, pid, *base, spec.ix)
        try:
            if spec.gen(rng, S, case) is False:
                continue
            accs, pos, data, slot, args = S.finish()
            cv0 = V.ConView(W.types, nat, pid, slot, accs, accs, pos, args, [])
            prep(cv0, spec, case)
            if case.get('assume') and not all(x is True for x in case['assume'](cv0)):
                continue
            if case.get('start') and not all(x is True for x in case['start'](cv0)):
                continue
            if not all(x is True for x in spec.pre(cv0)):
                continue
            r, cv = R.execute(W, nat, pid, accs, pos, data, slot, args)
        except (Unsupported, KeyError, IndexError, OverflowError, AttributeError, TypeError, ValueError, struct.error) as u:
            res.note = 'sampling: %r' % (u,)
            if os.environ.get('SAMPLE_DEBUG'):
                import traceback
                print('      ', traceback.format_exc()[-400:])
            continue
        runs += 1
        if cv is None and spec.must and spec.must(cv0) is True:
            res.bounded.append({'name': name + '/sampled', 'evaluations': runs, 'nontrivial': good})
            return [spec.must.__doc__], R.dump(spec.ix, accs, pos, data, slot)
        if cv is None:
            if os.environ.get('SAMPLE_DEBUG'):
                print("      ", r["status"], r["msg"][-150:], " ".join(str(x) for x in r.get("logs", [])[-3:]))
            continue
        good += 1
        prep(cv, spec, case)
        bad = [k for k, x in spec.post(cv) if x is not True]
        if bad:
            res.bounded.append({'name': name + '/sampled', 'evaluations': runs, 'nontrivial': good})
            return bad, R.dump(spec.ix, accs, pos, data, slot)
    res.bounded.append({'name': name + '/sampled', 'evaluations': runs, 'nontrivial': good})
    return None


def prep(cv, spec, case):
    from prove import attach
    attach(cv, spec.ix)
    cv.case = case
