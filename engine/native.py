"""Builds the real program natively and executes instructions on concrete accounts."""
import os, subprocess, struct, hashlib
from mir import cargo_env, build_decimal, one, DEPS, REPO, HERE, Unsupported

TOKEN_ID = None


def build_runner(crate, out, env=None):
    env = env or cargo_env()
    dec = build_decimal(out, env)
    rl = os.path.join(out, 'lib%s.rlib' % crate)
    base = ['rustc', '--edition', '2021', '-C', 'overflow-checks=on', '-C', 'debug-assertions=off', '-C', 'opt-level=1', '-Awarnings',
            '-L', 'dependency=' + DEPS, '-L', 'dependency=' + out]
    ext = ['--extern', 'anchor_lang=' + one('libanchor_lang-*.rlib'), '--extern', 'anchor_spl=' + one('libanchor_spl-*.rlib')]
    p = subprocess.run(base + ['--crate-type', 'lib', '--crate-name', crate, f'{REPO}/programs/{crate}/src/lib.rs',
                               '--extern', 'decimal=' + dec, '-o', rl] + ext, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Unsupported('native build of %s failed:\n%s' % (crate, p.stdout.decode()[-3000:]))
    exe = os.path.join(out, crate + '_runner')
    p = subprocess.run(base + ['--crate-name', 'runner', os.path.join(HERE, 'native/runner.rs'), '--extern', 'prog=' + rl,
                               '--extern', 'spl_token=' + one('libspl_token-*.rlib'), '-o', exe] + ext,
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Unsupported('native runner build failed:\n%s' % p.stdout.decode()[-3000:])
    return exe


class Native:
    def __init__(s, exe):
        s.exe = exe
        s.start()
        s.cache = {}

    def start(s):
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=None if os.environ.get("NATIVE_LOG") else subprocess.DEVNULL)

    def ask(s, b):
        try:
            s.p.stdin.write(struct.pack('<I', len(b)) + b)
            s.p.stdin.flush()
            h = s.p.stdout.read(4)
            if len(h) < 4:
                raise BrokenPipeError
            n, = struct.unpack('<I', h)
            return s.p.stdout.read(n)
        except BrokenPipeError:
            s.p.kill()
            s.start()
            return None

    def pda(s, pid, seeds):
        k = (pid,) + tuple(seeds)
        if k not in s.cache:
            b = struct.pack('<I', 1) + pid + struct.pack('<I', len(seeds))
            for x in seeds:
                b += struct.pack('<I', len(x)) + x
            r = s.ask(b)
            s.cache[k] = (r[:32], r[32])
        return s.cache[k]

    def run(s, pid, slot, accs, idx, data):
        """accs: dicts key, owner, signer, writable, exec, lamports, data"""
        b = [struct.pack('<I', 0), pid, struct.pack('<QI', slot, len(accs))]
        for a in accs:
            b += [a['key'], a['owner'], bytes([a.get('signer', False) | a.get('writable', False) << 1 | a.get('exec', False) << 2]),
                  struct.pack('<QI', a.get('lamports', 0), len(a['data'])), a['data']]
        b.append(struct.pack('<I', len(idx)))
        b.append(struct.pack('<%dI' % len(idx), *idx))
        b.append(struct.pack('<I', len(data)) + data)
        r = s.ask(b''.join(b))
        if r is None:
            return {'status': 2, 'msg': 'abort', 'accs': [], 'cpi': []}
        st = r[0]
        n, = struct.unpack_from('<I', r, 1)
        msg = r[5:5 + n].decode('utf8', 'replace')
        o = 5 + n
        out = []
        for a in accs:
            own = r[o:o + 32]
            lam, dl = struct.unpack_from('<QI', r, o + 32)
            o += 44
            if dl == 0xffffffff:
                d = a['data']
            else:
                d = r[o:o + dl]
                o += dl
            out.append({'key': a['key'], 'owner': own, 'lamports': lam, 'data': d})
        k, = struct.unpack_from('<I', r, o)
        o += 4
        cpi = []
        for _ in range(k):
            p = r[o:o + 32]
            dl, = struct.unpack_from('<I', r, o + 32)
            o += 36
            d = r[o:o + dl]
            o += dl
            m, = struct.unpack_from('<I', r, o)
            o += 4
            cpi.append((p, d, [r[o + 32 * i:o + 32 * i + 32] for i in range(m)]))
            o += 32 * m
        return {'status': st, 'msg': msg, 'accs': out, 'cpi': cpi}

    def close(s):
        s.p.kill()


def sighash(name):
    return hashlib.sha256(('global:' + name).encode()).digest()[:8]


def accdisc(name):
    return hashlib.sha256(('account:' + name).encode()).digest()[:8]
