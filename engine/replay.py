"""A solver model of one symbolic run -> concrete accounts -> the real program."""
import re, ast, hashlib, struct
import z3
from val import *
from mir import Unsupported, short
from lib import CONST_NAMES, const_id
from types_ import EXTERN
from codec import Codec, VBigC, k2b, b2k
import view as V
from native import sighash


class Concrete:
    def __init__(s, W, nat, pid, model, salt=0):
        s.W, s.nat, s.pid, s.m, s.salt = W, nat, pid, model, salt
        s.cod = Codec(W.types)
        s.keys = {}
        s.pdav = {}
        for k, a in W.lib.pdas.values():
            s.pdav.setdefault(s.ev(k), a)

    def ev(s, t):
        if isinstance(t, (int, bool)):
            return t
        r = s.m.eval(t, model_completion=True)
        if z3.is_bool(r):
            return z3.is_true(r)
        if not z3.is_int_value(r):
            raise Unsupported('model value %s' % str(r)[:80])
        return r.as_long()

    def addr(s, k):
        """real address (as integer) of a model address"""
        if k in s.keys:
            return s.keys[k]
        s.keys[k] = None      # recursion guard
        if k in CONST_NAMES and not CONST_NAMES[k].startswith('b"'):
            r = s.const(CONST_NAMES[k])
        elif k in s.pdav:
            seeds = []
            for a in s.pdav[k]:
                x = s.ev(a)
                if x in CONST_NAMES and CONST_NAMES[x].startswith('b"'):
                    seeds.append(ast.literal_eval(CONST_NAMES[x]))
                else:
                    y = s.addr(x)
                    if y is None:
                        raise Unsupported('circular address')
                    seeds.append(k2b(y))
            r = b2k(s.nat.pda(s.pid, seeds)[0])
        elif k == 0:
            r = 0
        else:
            r = b2k(hashlib.sha256(b'%d.%d' % (k, s.salt)).digest())
        s.keys[k] = r
        return r

    def const(s, n):
        try:
            return V.real_const(n)
        except Unsupported:
            return b2k(hashlib.sha256(n.encode()).digest())

    def val(s, ty, v):
        """concrete value of a symbolic one, by type"""
        ty = short(ty)
        if ty == 'Pubkey':
            return s.addr(s.ev(v))
        if ty in ('u64', 'u8', 'u32', 'u128', 'usize', 'bool'):
            return s.ev(v)
        m = re.match(r'(COption|Option)<(.*)>$', ty)
        if m:
            d = s.ev(v.d)
            return VE(m.group(1), d, {0: [], 1: [s.val(m.group(2), v.p[1][0])] if d else []})
        m = re.match(r'Vec<(.*)>$', ty)
        if m:
            return VVec([(True, s.val(m.group(1), x)) for g, x in v.i if s.ev(g)])
        m = re.match(r'\[(.*); (.*)\]$', ty)
        if m:
            if isinstance(v, VLimbs):
                return VLimbs(s.ev(v.raw))
            if isinstance(v, VBig):
                return VA([s.val(m.group(1), v.get(i)) for i in range(v.n)])
            return VA([s.val(m.group(1), x) for x in v.e])
        if ty == 'AccountState':
            return VE(ty, s.ev(v.d), {0: [], 1: [], 2: []})
        if ty == 'Decimal':
            return VS('Decimal', [VS('U192', [s.val('[u64; 3]', v.f[0].f[0])])])
        t = s.W.types
        if ty in ('TokenAccount', 'Mint') and ty not in t.structs:
            return VS(ty, [VS(v.f[0].n, [s.val(x, y) for (f, x), y in zip(EXTERN[ty][1], v.f[0].f)])])
        if ty in EXTERN:
            return VS(ty, [s.val(x, y) for (f, x), y in zip(EXTERN[ty][1], v.f)])
        if ty in t.structs:
            return VS(ty, [s.val(x, y) for (f, x), y in zip(t.structs[ty], v.f)])
        if ty in t.enums:
            d = s.ev(v.d)
            return VE(ty, d, {d: [s.val(x, y) for (f, x), y in zip(t.epay[ty][d], v.p.get(d, []))]})
        raise Unsupported('value of type ' + ty)


def same(a, b):
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, VS):
        return isinstance(b, VS) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VA):
        if a.e and isinstance(a.e[0], VS) and a.e[0].n == 'AvailableHarvest':
            # written from an ordered map, whose order the executor leaves open
            fl = lambda v: sorted((x.f[0], x.f[1].f[0]) for x in v.e)
            return len(a.e) == len(b.e) and fl(a) == fl(b)
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, VLimbs):
        return a.raw == b.raw
    if isinstance(a, VE):
        return a.d == b.d and all(same(x, y) for x, y in zip(a.p.get(a.d, []), b.p.get(b.d, [])))
    return True


SM_LOADS = ('Pool', 'Discount', 'DiscountSettings', 'ProgramToll', 'Farm', 'Farmer', 'WhitelistCompounding')


def world(W, nat, pid, view, model, ix, salt=0):
    """-> (accounts, positions, instruction data, slot, args, conc)"""
    C = Concrete(W, nat, pid, model, salt)
    lib, types = W.lib, W.types
    typ = {}
    for k, t in lib.seen:
        kv = C.ev(k)
        old = typ.get(kv)
        if old is None or old == 'program' or t == 'new':
            typ[kv] = t
    accs, pos = [], []
    byk = {}
    # accounts the call names
    allkeys = [(C.ev(k), C.ev(sg)) for k, sg, wr in view.keys]
    for kv, sg in allkeys:
        rk = C.addr(kv)
        if rk in byk:
            a = accs[byk[rk]]
            a['signer'] = a['signer'] or sg
            pos.append(byk[rk])
            continue
        t = typ.get(kv)
        a = {'key': k2b(rk), 'owner': bytes(32), 'signer': sg, 'writable': True, 'lamports': 10 ** 13, 'data': b''}
        if kv in CONST_NAMES and CONST_NAMES[kv].startswith('program:'):
            a.update(owner=V.b58('BPFLoader2111111111111111111111111111111111'), exec=True, writable=False)
        elif kv in CONST_NAMES and CONST_NAMES[kv] == 'self':
            o = types.sym('Option<Pubkey>', 'programdata', keys=(kv,))
            pd = b'\2\0\0\0' + (k2b(C.addr(C.ev(o.p[1][0]))) if C.ev(o.d) else bytes(32))
            a.update(owner=V.LOADER_ID, exec=True, writable=False, data=pd)
        elif t is None or t == 'program':
            if C.ev(lib.uf_owner(kv)) == C.ev(lib.owner_id('Pool')):
                a.update(owner=pid, data=bytes(128))
        elif t in types.structs and t in SM_LOADS and not C.ev(view.isa([k for k, tt in lib.seen if tt == t and C.ev(k) == kv][0], t)):
            # looked at, but not of this type in the model
            if C.ev(lib.uf_owner(kv)) == C.ev(lib.owner_id('Pool')):
                a.update(owner=pid, data=bytes(8 + len(C.cod.enc(t, lib.zeroC(t)))))
        elif t == 'ProgramData':
            kt = [k for k, tt in lib.seen if tt == t and C.ev(k) == kv][0]
            v = C.val(t, view.acc0(kt, t))
            a.update(owner=V.LOADER_ID, writable=False, data=b'\3\0\0\0' + C.cod.enc(t, v))
        elif t.startswith('sysvar:'):
            a.update(owner=V.b58('Sysvar1111111111111111111111111111111111111'), data=struct.pack('<Qd', 3480, 2.0) + b'\x32', writable=False)
        elif t == 'new':
            made = any(C.ev(e.g) and C.ev(e.a['key']) == kv for e in view.events('create'))
            if not made and C.ev(lib.uf_owner(kv)) == C.ev(lib.owner_id('Pool')):        # exists on this path
                a.update(owner=pid, data=bytes(128))
            else:
                a.update(lamports=0)
        elif t.startswith('zero:'):
            ty = t[5:]
            a.update(owner=pid, data=bytes(8 + len(C.cod.enc(ty, lib.zeroC(ty)))))
        else:
            kt = [k for k, tt in lib.seen if tt == t and C.ev(k) == kv][0]
            v = C.val(t, view.acc0(kt, t))
            if t == 'TokenAccount':
                f = v.f[0].f
                f[4] = VE('AccountState', 2 if f[4].d == 2 else 1, {1: [], 2: []})
                f[5] = VE('COption', 0, {0: []})
            if t == 'Mint':
                v.f[0].f[3] = True
            a.update(owner=V.TOKEN_ID if t in ('TokenAccount', 'Mint') else pid, data=C.cod.account(t, v))
        byk[rk] = len(accs)
        pos.append(len(accs))
        accs.append(a)
    args = [C.val(t, v) for (n, t), v in zip(W.ixs[ix][1], view.args)]
    data = sighash(ix) + b''.join(C.cod.enc(t, v) for (n, t), v in zip(W.ixs[ix][1], args))
    slot = C.ev(view.clock)
    return accs, pos, data, slot, args, C


def execute(W, nat, pid, accs, pos, data, slot, args):
    r = nat.run(pid, slot, accs, pos, data)
    cv = None
    if r['status'] == 0:
        cv = V.ConView(W.types, nat, pid, slot, accs, r['accs'], pos, args, r['cpi'])
    return r, cv


def dump(ix, accs, pos, data, slot):
    return {'instruction': ix, 'slot': slot, 'data': data.hex(), 'positions': pos,
            'accounts': [{'key': a['key'].hex(), 'owner': a['owner'].hex(), 'signer': bool(a.get('signer')), 'writable': bool(a.get('writable')),
                          'exec': bool(a.get('exec')), 'lamports': a.get('lamports', 0), 'data': a['data'].rstrip(b'\0').hex(), 'len': len(a['data'])} for a in accs]}


def undump(d):
    accs = [{'key': bytes.fromhex(a['key']), 'owner': bytes.fromhex(a['owner']), 'signer': a['signer'], 'writable': a['writable'], 'exec': a['exec'],
             'lamports': a['lamports'], 'data': bytes.fromhex(a['data']).ljust(a['len'], b'\0')} for a in d['accounts']]
    return accs, d['positions'], bytes.fromhex(d['data']), d['slot']
