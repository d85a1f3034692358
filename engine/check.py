"""Decides one property on /repo's current tree: builds the MIR and the native program, discharges the contracts' obligations,
replays counterexamples on the real program, writes the evidence file, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, time, tempfile, shutil, traceback, importlib, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

TRUSTED = [
    'rustc 1.70.0: the MIR it prints is what it compiles (the obligations are generated from that MIR)',
    'z3 (python3-vt): its unsat answers',
    'engine/sym.py, engine/val.py: symbolic semantics of MIR statements (checked on every run against native executions of the same program)',
    'engine/lib.py: assumed contracts of the standard library, anchor-lang 0.24.2, anchor-spl and spl-token functions the program calls',
    'standin/decimal: stand-in for the git dependency `decimal`, absent from this sandbox (18-digit fixed point on 192 bits, rounding as documented there)',
    'Solana runtime: a failing instruction has no effect; accounts are changed only by their owner; signatures are genuine',
    'program derived addresses do not collide, and no signer has one',
]


def jobs_of(pid):
    mod = importlib.import_module('specs_' + ('farming' if pid[0] == 'F' else 'amm'))
    out = []
    for sp in mod.SPECS.get(pid, []):
        for c in sp.cases:
            out.append((sp, c))
    return mod, out


def run_job(conn, crate, mir, exe, pid, k, seed):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from world import World
        import native, prove, view as V
        from val import STATS
        STATS.seed = seed
        mod, js = jobs_of(pid)
        sp, case = js[k]
        W = World(crate, mir)
        nat = native.Native(exe) if exe else None
        V.SELF['id'] = V.b2k(V.b58(program_id(crate)))
        prog = V.b58(program_id(crate))
        res = prove.Result(sp.name)
        t0, q0 = time.time(), STATS.queries
        tag = '[%s]' % case['name'] if case.get('name') else ''
        if hasattr(sp, 'run'):
            sp.run(W, nat, prog, case, res, tag)
        else:
            prove.prove_case(W, nat, prog, sp, case, res, tag)
        conn.send({'obl': res.obl, 'functions': res.functions, 'witness': res.witness, 'time': time.time() - t0, 'queries': STATS.queries - q0,
                   'assumed': sorted(res.assumed), 'bounded': res.bounded})
    except BaseException as u:
        conn.send({'error': '%r' % (u,), 'trace': traceback.format_exc()[-1500:]})
    conn.close()
    os._exit(0)


def program_id(crate):
    import re
    from mir import REPO
    t = open(f'{REPO}/programs/{crate}/src/lib.rs').read()
    m = re.findall(r'(?:#\[cfg\(([^\]]*)\)\]\s*)?declare_id!\("(\w+)"\)', t)
    for c, i in m:
        if 'feature = "dev"' in c and 'not(' not in c:
            continue
        return i
    return m[0][1]


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return []


def build(crate, out):
    from mir import cargo_env, build_mir, build_decimal, Unsupported
    import native, threading
    env = cargo_env()
    build_decimal(out, env)
    r = {}

    def a():
        try:
            r['mir'] = build_mir(crate, out, env)
        except BaseException as u:
            r['mir_err'] = str(u)

    def b():
        try:
            r['exe'] = native.build_runner(crate, out, env)
        except BaseException as u:
            r['exe_err'] = str(u)
    ts = [threading.Thread(target=f) for f in (a, b)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return r


def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 780 if tier == 'quick' else 3000
    out = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return decide(pid, tier, seed, t0, limit, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def decide(pid, tier, seed, t0, limit, out):
    crate = 'farming' if pid[0] == 'F' else 'amm'
    b = build(crate, out)
    obl, funcs, wit, bounded, errors, assumed = [], {}, [], [], [], set()
    solver_t = queries = 0
    mod, js = jobs_of(pid)
    if 'mir' in b:
        pend = list(range(len(js)))
        pend.sort(key=lambda k: -js[k][0].budget)
        run, stop = [], None
        while (pend or run) and not (stop and time.time() > stop):
            while pend and len(run) < 8:
                k = pend.pop(0)
                r, w = mp.Pipe(False)
                p = mp.Process(target=run_job, args=(w, crate, b['mir'], b.get('exe'), pid, k, seed))
                p.start()
                w.close()
                run.append((k, p, r, time.time()))
            for it in list(run):
                k, p, r, t = it
                res = None
                if r.poll(0.02):
                    try:
                        res = r.recv()
                    except EOFError:
                        res = {'error': 'the job ended without an answer'}
                elif time.time() - t > js[k][0].budget * (1 if tier == 'quick' else 3) + 30 or time.time() - t0 > limit:
                    res = {'error': 'out of time'}
                if res is None:
                    continue
                run.remove(it)
                p.kill()
                p.join()
                sp, c = js[k]
                nm = sp.name + ('[%s]' % c['name'] if c.get('name') else '')
                if 'error' in res:
                    obl.append({'name': nm + '/execution', 'status': 'undecided', 'note': res['error'] + ' ' + res.get('trace', '')})
                    continue
                obl += res['obl']
                # a violation confirmed on the real program settles it
                if not stop and any(o['status'] == 'refuted' and o.get('replay') for o in res['obl']) and not any(x.get('property') == pid and x.get('kind') == 'known' for x in known()):
                    stop = time.time() + 20
                funcs.update(res['functions'])
                wit += res['witness']
                solver_t += res['time']
                queries += res['queries']
                assumed |= set(res['assumed'])
                bounded += res['bounded']
        for k, p, r, t in run:
            p.kill()
            p.join()
    else:
        errors.append(b['mir_err'])
    if 'exe' not in b:
        errors.append(b.get('exe_err', ''))
    viol, found = [], []
    kf = [x for x in known() if x.get('property') == pid and x.get('kind') == 'known']
    hits = [o for o in obl if o['status'] == 'refuted'] + [o for o in bounded if o.get('violation')]
    seen = set()
    for o in hits:
        nm = o['name']
        if nm in seen:
            continue
        seen.add(nm)
        m = [x for x in kf if x['obligation'] in nm]
        if m:
            found.append(m[0]['what'])
            o['status'] = 'known finding'
            continue
        path = os.path.join(VERIF, 'evidence', '%s.replay.%d.json' % (pid, len(viol)))
        json.dump({'property': pid, 'obligation': nm, 'clause': o.get('clause'), 'note': o.get('note'), 'world': o.get('replay'), 'model': o.get('model')},
                  open(path, 'w'), indent=1)
        viol.append((nm, path, o.get('replay') is not None))
    # confirmed ones first
    viol.sort(key=lambda x: not x[2])
    n = len(obl)
    d = sum(o['status'] == 'discharged' for o in obl)
    und = [o for o in obl if o['status'] == 'undecided']
    meta = mod.LEVEL.get(pid, {}) if hasattr(mod, 'LEVEL') else {}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'proof'), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {'obligations': n, 'discharged': d, 'checker_cmd': 'python3-vt engine/check.py ' + pid, 'trusted_base': TRUSTED,
                       'back_end': 'z3 ' + z3v(), 'solver_queries': queries, 'proof_time_s': round(solver_t, 2),
                       'functions_under_contract': sorted('%s (%s)' % (f, h) for f, h in funcs.items()),
                       'undecided': [{k: v for k, v in o.items() if k in ('name', 'note')} for o in und],
                       'not_confirmed_or_known': [o['name'] for o in obl if o['status'] in ('refuted', 'known finding')],
                       'obligation_list': ['%s: %s (%.2fs)' % (o['name'], o['status'], o.get('time') or 0) for o in obl],
                       'witnesses_run_on_the_real_program': len([w for w in wit if w.get('native') == 0]),
                       'witnesses_agreeing_with_the_executor': len([w for w in wit if w.get('native') == 0 and not w.get('differs')]),
                       'witness_details': wit[:60],
                       'bounded_checks': [{k: v for k, v in x.items() if k != 'replay'} for x in bounded],
                       'build_errors': errors},
          'assumptions': sorted(assumed) + meta.get('assumptions', [])}
    if meta.get('level') == 'exploration' or bounded:
        ev['coverage']['evaluations'] = sum(x.get('evaluations', 0) for x in bounded)
        ev['coverage']['distinct_nontrivial'] = sum(x.get('nontrivial', 0) for x in bounded)
        ev['coverage']['rule'] = 'bounded native stand-ins, see bounded_checks'
        ev['coverage']['samples'] = [x.get('sample') for x in bounded if x.get('sample')][:5]
    if ev['level'] == 'other':
        ev['coverage']['explanation'] = meta.get('explanation', '')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for w in found:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.0f s' % (pid, n, d, len(und), len(viol), time.time() - t0))
    for o in und:
        print('  undecided: %s: %s' % (o['name'], str(o.get('note', ''))[:200].replace('\n', ' ')))
    for nm, path, conf in viol:
        print('  refuted: %s' % nm)
    if viol:
        nm, path, conf = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conf else ' no-failing-input-found'))
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
