"""Builds the program from /repo's tree and runs instructions of it on concrete accounts (for demonstrations)."""
import os, sys, subprocess, struct, hashlib, glob, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
DEPS = '/opt/vp/partial/target/debug/deps'
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(t):
    n = 0
    for c in t:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, 'big')


TOKEN = b58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
RENT = b58('SysvarRent111111111111111111111111111111111')
PID = {'amm': b58('dAMMP3unWqb4u2La1xczx6JSAZsGByo9amHgzkVY7FG'), 'farming': b58('FARMmkoshPWbkqzycueFwJAUNfR2N7KXQkAChaS7RCg1')}
SYS = bytes(32)


def key(name):
    return hashlib.sha256(name.encode()).digest()


def u64(*v):
    return struct.pack('<%dQ' % len(v), *v)


def one(p):
    return sorted(glob.glob(os.path.join(DEPS, p)))[-1]


class Program:
    def __init__(s, crate):
        s.pid = PID[crate]
        env = dict(os.environ)
        p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE)
        for kv in p.stdout.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                env[k.decode()] = v.decode('utf8', 'replace')
        env['RUSTC_BOOTSTRAP'] = '1'
        out = tempfile.mkdtemp(prefix='demo-')
        atexit.register(shutil.rmtree, out, True)
        base = ['rustc', '--edition', '2021', '-Awarnings', '-C', 'overflow-checks=on', '-C', 'debug-assertions=off', '-C', 'opt-level=1',
                '-L', 'dependency=' + DEPS, '-L', 'dependency=' + out, '--extern', 'anchor_lang=' + one('libanchor_lang-*.rlib')]
        spl = ['--extern', 'anchor_spl=' + one('libanchor_spl-*.rlib')]

        def rc(*a):
            r = subprocess.run(base + list(a), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print(r.stdout.decode()[-3000:])
                sys.exit(3)
        rc('--crate-type', 'lib', '--crate-name', 'decimal', os.path.join(HERE, 'decimal.rs'), '-o', out + '/libdecimal.rlib')
        rc('--crate-type', 'lib', '--crate-name', crate, f'{REPO}/programs/{crate}/src/lib.rs', '--extern', 'decimal=' + out + '/libdecimal.rlib',
           '-o', out + '/lib%s.rlib' % crate, *spl)
        rc('--crate-name', 'runner', os.path.join(HERE, 'runner.rs'), '--extern', 'prog=' + out + '/lib%s.rlib' % crate,
           '--extern', 'spl_token=' + one('libspl_token-*.rlib'), '-o', out + '/runner', *spl)
        s.p = subprocess.Popen([out + '/runner'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        atexit.register(s.p.kill)
        s.accs = {}
        s.slot = 1000000

    def ask(s, b):
        s.p.stdin.write(struct.pack('<I', len(b)) + b)
        s.p.stdin.flush()
        n, = struct.unpack('<I', s.p.stdout.read(4))
        return s.p.stdout.read(n)

    def pda(s, *seeds):
        b = struct.pack('<I', 1) + s.pid + struct.pack('<I', len(seeds))
        for x in seeds:
            x = x.encode() if isinstance(x, str) else x
            b += struct.pack('<I', len(x)) + x
        return s.ask(b)[:32]

    def put(s, k, owner=SYS, data=b'', lamports=10 ** 12, exe=False):
        s.accs[k] = {'owner': owner, 'data': data, 'lamports': lamports, 'exec': exe}
        return k

    def user(s, name):
        return s.put(key(name))

    def programs(s):
        ld = b58('BPFLoader2111111111111111111111111111111111')
        s.put(TOKEN, ld, exe=True)
        s.put(SYS, ld, exe=True)
        s.put(s.pid, ld, exe=True)
        s.put(RENT, b58('Sysvar1111111111111111111111111111111111111'), struct.pack('<Qd', 3480, 2.0) + b'\x32')

    def mint(s, name, authority=None, supply=10 ** 15, k=None, freeze=None):
        d = struct.pack('<I', int(authority is not None)) + (authority or SYS) + struct.pack('<QBB', supply, 6, 1) + struct.pack('<I', int(freeze is not None)) + (freeze or SYS)
        return s.put(k or key(name), TOKEN, d)

    def token(s, k, mint, owner, amount, delegate=None, close=None, state=1):
        d = mint + owner + u64(amount) + struct.pack('<I', int(delegate is not None)) + (delegate or SYS) + bytes([state]) + struct.pack('<IQ', 0, 0) + \
            u64(0) + struct.pack('<I', int(close is not None)) + (close or SYS)
        return s.put(k, TOKEN, d)

    def amount(s, k):
        return struct.unpack_from('<Q', s.accs[k]['data'], 64)[0]

    def supply(s, k):
        return struct.unpack_from('<Q', s.accs[k]['data'], 36)[0]

    def state(s, ty, k, body):
        return s.put(k, s.pid, hashlib.sha256(('account:' + ty).encode()).digest()[:8] + body)

    def data(s, k):
        return s.accs[k]['data']

    def call(s, ix, accounts, args=b'', signers=()):
        """accounts: keys in the instruction's order; True when it succeeded, and then the accounts are updated"""
        ks = []
        for k in accounts:
            if k not in ks:
                ks.append(k)
        for k in ks:
            if k not in s.accs:
                s.put(k, lamports=0)
        b = [struct.pack('<I', 0), s.pid, struct.pack('<QI', s.slot, len(ks))]
        for k in ks:
            a = s.accs[k]
            b += [k, a['owner'], bytes([(k in signers) | (not a['exec'] and k != RENT) << 1 | a['exec'] << 2]), struct.pack('<QI', a['lamports'], len(a['data'])), a['data']]
        data = hashlib.sha256(('global:' + ix).encode()).digest()[:8] + args
        b += [struct.pack('<I', len(accounts)), struct.pack('<%dI' % len(accounts), *[ks.index(k) for k in accounts]), struct.pack('<I', len(data)), data]
        r = s.ask(b''.join(b))
        n, = struct.unpack_from('<I', r, 1)
        s.msg = r[5:5 + n].decode('utf8', 'replace')
        if r[0] != 0:
            return False
        o = 5 + n
        for k in ks:
            a = s.accs[k]
            a['owner'] = r[o:o + 32]
            a['lamports'], dl = struct.unpack_from('<QI', r, o + 32)
            o += 44
            if dl != 0xffffffff:
                a['data'] = r[o:o + dl]
                o += dl
        return True


# --- farming accounts -------------------------------------------------------------------------------
def farm_body(admin, stake_mint, stake_vault, harvests=(), tip=0, ring=None, window=0):
    """harvests: (mint, vault, [(tps, starts, ends)]); ring: {index: (staked, slot)}"""
    b = admin + stake_mint + stake_vault
    for i in range(10):
        m, v, ps = harvests[i] if i < len(harvests) else (SYS, SYS, [])
        b += m + v
        for j in range(10):
            b += u64(*(ps[j] if j < len(ps) else (0, 0, 0)))
    b += u64(tip)
    r = bytearray(16 * 1000)
    for i, x in (ring or {}).items():
        r[16 * i:16 * i + 16] = u64(*x)
    return b + bytes(r) + u64(window)


def farm_ring(d, i):
    return struct.unpack_from('<2Q', d, 8 + 96 + 10 * 304 + 8 + 16 * i)


def farm_tip(d):
    return struct.unpack_from('<Q', d, 8 + 96 + 10 * 304)[0]


def farm_periods(d, i):
    return [struct.unpack_from('<3Q', d, 8 + 96 + 304 * i + 64 + 24 * j) for j in range(10)]


def farmer_body(authority, farm, staked=0, vested=0, vested_at=0, nxt=0, harvests=()):
    b = authority + farm + u64(staked, vested, vested_at, nxt)
    for i in range(10):
        m, t = harvests[i] if i < len(harvests) else (SYS, 0)
        b += m + u64(t)
    return b


def farmer(d):
    a = struct.unpack_from('<4Q', d, 72)
    h = {}
    for i in range(10):
        m = d[104 + 40 * i:136 + 40 * i]
        if m != SYS:
            h[m] = struct.unpack_from('<Q', d, 136 + 40 * i)[0]
    return {'staked': a[0], 'vested': a[1], 'vested_at': a[2], 'next': a[3], 'harvests': h}


# --- amm accounts -----------------------------------------------------------------------------------
def pool_body(admin, signer, mint, toll_wallet, reserves, fee=0, amplifier=None, invariant=0):
    """reserves: (tokens, mint, vault); invariant: scaled by 10^18"""
    b = admin + signer + mint + toll_wallet + u64(len(reserves))
    for i in range(4):
        t, m, v = reserves[i] if i < len(reserves) else (0, SYS, SYS)
        b += u64(t) + m + v
    if amplifier is None:
        c = b'\0'
    else:
        c = b'\1' + u64(amplifier) + (invariant & (1 << 192) - 1).to_bytes(24, 'little')
    return (b + c + u64(fee)).ljust(8 + 32 * 4 + 8 + 4 * 72 + 33 + 8 + 64, b'\0')


def pool_reserves(d, n):
    return [struct.unpack_from('<Q', d, 8 + 128 + 8 + 72 * i)[0] for i in range(n)]


def make_pool(p, amounts, supply, wallet=10 ** 15, **kw):
    """a pool with these reserves, a user who signs and owns plenty of everything"""
    t = type('P', (), {})()
    t.p, t.n, t.key, t.user = p, len(amounts), key('pool'), p.user('user')
    p.programs()
    t.signer = p.pda('signer', t.key)
    t.mints = sorted(p.mint('m%d' % i) for i in range(t.n))
    t.lp = p.mint('lp', t.signer, supply)
    t.vaults = [p.token(key('v%d' % i), m, t.signer, a) for i, (m, a) in enumerate(zip(t.mints, amounts))]
    t.wallets = [p.token(key('w%d' % i), m, t.user, wallet) for i, m in enumerate(t.mints)]
    t.lpw, t.toll = p.token(key('lpw'), t.lp, t.user, supply), p.token(key('toll'), t.lp, key('tollowner'), 0)
    p.state('Pool', t.key, pool_body(key('admin'), t.signer, t.lp, t.toll, list(zip(amounts, t.mints, t.vaults)), **kw))
    t.discount = p.pda('discount', t.user)

    def swap(i, j, sell, least=0):
        return p.call('swap', [t.user, t.discount, t.key, t.signer, t.wallets[i], t.wallets[j], t.vaults[i], t.vaults[j], t.lp, t.toll, TOKEN], u64(sell, least), signers=[t.user])

    def limits(xs):
        return struct.pack('<I', t.n) + b''.join(m + u64(x) for m, x in zip(t.mints, xs))

    def rest():
        return [k for pair in zip(t.vaults, t.wallets) for k in pair]

    def redeem(lp, least):
        return p.call('redeem_liquidity', [t.user, t.key, t.signer, t.lp, t.lpw, TOKEN] + rest(), u64(lp) + limits(least), signers=[t.user])

    def deposit(xs):
        return p.call('deposit_liquidity', [t.user, t.key, t.signer, t.lp, t.lpw, TOKEN] + rest(), limits(xs), signers=[t.user])
    t.swap, t.redeem, t.deposit, t.reserves = swap, redeem, deposit, lambda: pool_reserves(p.data(t.key), t.n)
    return t


def make_farm(p, stake='stake', harvests=(), **kw):
    """harvests: (mint name, [(tps, first, last)]); the ring as in farm_body"""
    t = type('F', (), {})()
    t.p, t.key, t.user = p, key('farm ' + stake), p.user('user')
    p.programs()
    t.signer = p.pda('signer', t.key)
    t.mint = p.mint(stake)
    t.sv = p.pda('stake_vault', t.key)
    p.token(t.sv, t.mint, t.signer, 10 ** 12)
    t.hs, hs = [], []
    for name, ps in harvests:
        m = p.mint(name)
        v = p.pda('harvest_vault', t.key, m)
        p.token(v, m, t.signer, 10 ** 12)
        hs.append((m, v, ps))
        t.hs.append((m, v))
    p.state('Farm', t.key, farm_body(key('admin'), t.mint, t.sv, hs, **kw))
    t.farmer = p.pda('farmer', t.key, t.user)
    t.wallet = p.token(key('sw ' + stake), t.mint, t.user, 10 ** 12)

    def position(**kw):
        p.state('Farmer', t.farmer, farmer_body(t.user, t.key, **kw))
    t.position, t.get = position, lambda: farmer(p.data(t.farmer))
    t.update = lambda: p.call('update_eligible_harvest', [t.key, t.farmer])
    t.start = lambda n: p.call('start_farming', [t.user, t.farmer, t.wallet, t.key, t.sv, TOKEN], u64(n), signers=[t.user])
    t.stop = lambda n: p.call('stop_farming', [t.user, t.farmer, t.wallet, t.key, t.signer, t.sv, TOKEN], u64(n), signers=[t.user])
    return t
