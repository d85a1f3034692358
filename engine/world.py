"""Builds the crates' MIR from /repo and runs functions or whole instructions symbolically."""
import re, os, sys, tempfile, shutil, time
import z3
from val import *
from mir import *
from sym import Exec, State, merge_vals
from lib import Lib, Ev, const_id, U64M, WAD
from types_ import load_types

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='vp_engine_')
        import atexit
        atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


def read_consts(crate):
    out = {}
    for f in glob.glob(f'{REPO}/programs/{crate}/src/**/*.rs', recursive=True):
        txt = open(f).read()
        for m in re.finditer(r'const (\w+): (?:usize|u64|u32|u8) = ([^;]+);', txt):
            if re.search(r'#\[cfg\(feature = "dev"\)\]\s*(pub )?$', txt[:m.start()]):
                continue
            e = m.group(2).replace('_', '')
            if re.match(r'^[\d\s*+()-]+$', e):
                out[m.group(1)] = int(eval(e))
    return out


def program_ixs(crate):
    """instruction -> (Accounts struct, [(arg, type)])"""
    txt = open(f'{REPO}/programs/{crate}/src/lib.rs').read()
    txt = re.sub(r'//[^\n]*', '', txt)
    i = txt.index('#[program]')
    out = {}
    for m in re.finditer(r'pub fn (\w+)\s*(?:<[^>]*>)?\s*\(', txt[i:]):
        j = i + m.end() - 1
        e = match_close(txt, j)
        a = split_top(txt[j + 1:e if txt[e] == ')' else e - 1])
        ctx = a[0]
        mm = re.search(r"Context<(.*)>", ctx, re.S)
        acc = short(re.sub(r'\s+', ' ', mm.group(1))).split('<')[0].split(',')[-1].strip()
        args = []
        for x in a[1:]:
            if not x.strip():
                continue
            n, t = x.split(':', 1)
            args.append((n.strip(), re.sub(r'\s+', ' ', t).strip()))
        out[m.group(1)] = (acc, args)
    return out


class World:
    def __init__(s, crate, mir=None):
        s.name = crate
        if mir is None:
            env = cargo_env()
            mir = build_mir(crate, scratch(), env)
        s.crate = Crate(crate, mir)
        s.consts = read_consts(crate)
        s.reset()
        s.ixs = program_ixs(crate)

    def reset(s):
        s.T = Terms()
        s.lib = Lib(s.crate, s.T, s.consts)
        s.lib.divs = {}
        s.types = s.lib.types
        s.types.fixed.clear()

    def exec(s, contracts=None, loops=None, deadline=None):
        ex = Exec(s.crate, s.lib, s.T, contracts, loops, deadline)
        return ex

    def state(s):
        st = State()
        A = z3.ArraySort(z3.IntSort(), z3.IntSort())
        st.w['bal'] = z3.Const('bal0', A)
        st.w['sup'] = z3.Const('sup0', A)
        st.w['ev'] = ()
        return st

    def arg(s, t, name, vecn):
        m = re.match(r'Vec<(.*)>$', t)
        if m:
            return VVec([(True, s.types.sym(m.group(1), '%s[%d]' % (name, i))) for i in range(vecn)])
        return s.types.sym(t, name)

    def run_ix(s, ex, ix, nacc=24, args=None, nremaining=None, vecn=4, start=None):
        """-> list of (state, result value), and the description of the call"""
        acc, argl = s.ixs[ix]
        st = s.state()
        camel = ''.join(p.capitalize() for p in ix.split('_'))
        vals = args(st) if args else [s.arg(t, 'arg.' + n, vecn) for n, t in argl]
        s.lib.ixargs = {camel: lambda ex, st: list(vals)}
        infos = []
        keys = []
        for i in range(nacc):
            k = z3.Int('acc%d' % i)
            s.T.bound(k, 0, 1 << 256)
            sg = z3.Bool('signer%d' % i)
            wr = z3.Bool('writable%d' % i)
            s.T.fact(sg, z3.Implies(sg, z3.Function('pda_arity', z3.IntSort(), z3.IntSort())(k) == 0))
            infos.append(s.lib.mk_info(ex, st, k, sg, wr))
            keys.append((k, sg, wr))
        base = ex.new_cell(st, VA(infos))
        pid = ex.new_cell(st, const_id('self'))
        data = VBytes([z3.Int('ixdata')])
        n = nacc if nremaining is None else nremaining
        fn = [f for f in s.crate.fns if f.endswith('__global::' + ix)]
        if len(fn) != 1:
            raise Unsupported('instruction ' + ix)
        for f in start(st, keys, vals) if start else ():
            if f is not True:
                st.assume(zb(f))
        body = s.crate.body_at(s.crate.fns[fn[0]][0], fn[0])
        outs = ex.run(body, [VRef(pid), VSlice(VRef(base), 0, n), data], st)
        return outs, keys, vals
