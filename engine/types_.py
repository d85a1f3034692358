"""Struct and enum declarations of a crate, read from its source, and symbolic values of a type."""
import functools, re, glob, os
import z3
from val import *
from mir import REPO, Unsupported, split_top, short

EXTERN = {
    'TokenAccount': ('Account', [('mint', 'Pubkey'), ('owner', 'Pubkey'), ('amount', 'u64'), ('delegate', 'COption<Pubkey>'), ('state', 'AccountState'),
                     ('is_native', 'COption<u64>'), ('delegated_amount', 'u64'), ('close_authority', 'COption<Pubkey>')]),
    'Mint': ('Mint', [('mint_authority', 'COption<Pubkey>'), ('supply', 'u64'), ('decimals', 'u8'), ('is_initialized', 'bool'), ('freeze_authority', 'COption<Pubkey>')]),
    'ProgramData': ('ProgramData', [('slot', 'u64'), ('upgrade_authority_address', 'Option<Pubkey>')]),
}


def load_types(crate):
    structs, enums = {}, {}
    for f in glob.glob(f'{REPO}/programs/{crate}/src/**/*.rs', recursive=True):
        txt = open(f).read()
        txt = re.sub(r'//[^\n]*', '', txt)
        i = txt.find('#[cfg(test)]\nmod tests {')
        if i >= 0:
            txt = txt[:i]
        # drop items under feature "dev"
        for m in re.finditer(r'((?:#\[[^\]]*\]\s*)*)(?:pub(?:\([^)]*\))?\s+)?(struct|enum)\s+(\w+)\s*(<[^>{]*>)?\s*(\{|\()', txt):
            if 'feature = "dev"' in m.group(1) and 'not(feature' not in m.group(1):
                continue
            op = m.end() - 1
            body, d, j = '', 0, op
            while True:
                if txt[j] in '({':
                    d += 1
                elif txt[j] in ')}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            body = txt[op + 1:j]
            body = strip_attrs(body)
            if m.group(2) == 'struct':
                fl = []
                for p in split_top(body):
                    mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', p, re.S)
                    if mm:
                        fl.append((mm.group(1), re.sub(r'\s+', ' ', mm.group(2)).strip()))
                structs.setdefault(m.group(3), fl)
            else:
                vs, pl = {}, {}
                for k, p in enumerate(split_top(body)):
                    mm = re.match(r'(\w+)\s*(\{(.*)\}|\((.*)\))?', p, re.S)
                    vs[mm.group(1)] = k
                    if mm.group(3):
                        pl[k] = [(q.split(':')[0].strip(), q.split(':')[1].strip()) for q in split_top(mm.group(3))]
                    else:
                        pl[k] = []
                enums.setdefault(m.group(3), (vs, pl))
    return structs, enums


def strip_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t.startswith('#[', i):
            d = 0
            j = i + 1
            while True:
                if t[j] == '"':
                    j += 1
                    while t[j] != '"':
                        j += 2 if t[j] == '\\' else 1
                elif t[j] in '[({':
                    d += 1
                elif t[j] in '])}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


@functools.lru_cache(maxsize=None)
def toks(path):
    return tuple(int(t[1:-1]) if t[0] == '[' else t for t in re.findall(r'\w+|\[\d+\]', path))


class Types:
    def __init__(s, crate, T, lens):
        s.structs, en = load_types(crate)
        s.enums = {k: v[0] for k, v in en.items()}
        s.epay = {k: v[1] for k, v in en.items()}
        s.T = T
        s.lens = lens
        s.uf = {}
        s.fixed = {}
        s.ixs = {}

    def fields(s, ty):
        if ty in EXTERN:
            return EXTERN[ty][1]
        return s.structs[ty]

    def leaf(s, name, keyargs, lo, hi, boolean=False):
        """a scalar: a constant, or a function of the key arguments"""
        if name in s.fixed:
            return s.fixed[name]
        if keyargs:
            f = s.uf.get(name)
            if f is None:
                f = z3.Function(name, *([z3.IntSort()] * len(keyargs)), z3.BoolSort() if boolean else z3.IntSort())
                s.uf[name] = f
            t = f(*[zi(k) for k in keyargs])
        else:
            t = z3.Bool(name) if boolean else z3.Int(name)
        if not boolean:
            s.T.bound(t, lo, hi)
        return t

    def sym(s, ty, name, keys=()):
        """symbolic value of a type; leaves are named and depend on the key arguments"""
        ty = short(ty)
        ty = re.sub(r"^&(mut )?", '', ty)
        if ty in ('u64', 'usize'):
            return s.leaf(name, keys, 0, U64 - 1)
        if ty == 'u8':
            return s.leaf(name, keys, 0, 255)
        if ty == 'u128':
            return s.leaf(name, keys, 0, (1 << 128) - 1)
        if ty == 'bool':
            return s.leaf(name, keys, 0, 0, True)
        if ty == 'Pubkey':
            return s.leaf(name, keys, 0, None)
        if ty == '()':
            return UNIT
        m = re.match(r'(Option|COption)<(.*)>$', ty)
        if m:
            d = s.leaf(name + '?', keys, 0, 1)
            return VE(m.group(1), d, {1: [s.sym(m.group(2), name, keys)], 0: []})
        m = re.match(r'\[(.*); (.*)\]$', ty)
        if m:
            n = s.lens(m.group(2))
            if m.group(1) == 'u64' and n == 3:
                return VLimbs(s.leaf(name, keys, 0, (1 << 192) - 1))
            if n > 64:
                return s.big(m.group(1), n, name, keys)
            return VA([s.sym(m.group(1), '%s[%d]' % (name, i), keys) for i in range(n)])
        if ty == 'AccountState':
            return VE('AccountState', s.leaf(name, keys, 0, 2), {0: [], 1: [], 2: []})
        if ty == 'Decimal':
            return VS('Decimal', [VS('U192', [VLimbs(s.leaf(name, keys, 0, (1 << 192) - 1))])])
        if ty == 'TokenAccount' and 'TokenAccount' not in s.structs:
            return VS('TokenAccount', [VS('SplAccount', [s.sym(t, 'tok.' + f if not keys or True else f, keys) if False else s.sym(t, name + '.' + f, keys) for f, t in EXTERN['TokenAccount'][1]])])
        if ty == 'Mint' and 'Mint' not in s.structs:
            return VS('Mint', [VS('SplMint', [s.sym(t, name + '.' + f, keys) for f, t in EXTERN['Mint'][1]])])
        if ty in EXTERN:
            return VS(ty, [s.sym(t, name + '.' + f, keys) for f, t in EXTERN[ty][1]])
        if ty in s.structs:
            return VS(ty, [s.sym(t, name + '.' + f, keys) for f, t in s.structs[ty]])
        if ty in s.enums:
            n = len(s.enums[ty])
            d = s.leaf(name + '?', keys, 0, n - 1)
            return VE(ty, d, {k: [s.sym(t, name + '.' + f, keys) for f, t in fl] for k, fl in s.epay[ty].items()})
        raise Unsupported('symbolic value of type ' + ty)

    def leafpaths(s, ty, pre=()):
        if ty in ('u64', 'Pubkey', 'u8', 'usize'):
            return [pre]
        out = []
        for i, (f, t) in enumerate(s.structs[ty]):
            out += s.leafpaths(short(t), pre + (i,))
        return out

    def shape(s, ty):
        """(mk, leaves) between a struct value and the list of its scalar leaves"""
        ty = short(ty)

        def mk(ls):
            it = iter(ls)

            def go(t):
                if t in ('u64', 'Pubkey', 'u8', 'usize'):
                    return next(it)
                return VS(t, [go(short(x)) for _, x in s.structs[t]])
            return go(ty)

        def leaves(v):
            out = []

            def go(v):
                if isinstance(v, VS):
                    for x in v.f:
                        go(x)
                else:
                    out.append(zi(v))
            go(v)
            return out
        return mk, leaves

    def big(s, ty, n, name, keys):
        mk0, leaves = s.shape(ty)
        paths = s.leafpaths(short(ty))
        arrs = []
        for p in paths:
            nm = name + '.' + '.'.join(map(str, p))
            srt = z3.ArraySort(z3.IntSort(), z3.IntSort())
            if keys:
                f = s.uf.get(nm)
                if f is None:
                    f = z3.Function(nm, *([z3.IntSort()] * len(keys)), srt)
                    s.uf[nm] = f
                arrs.append(f(*[zi(k) for k in keys]))
            else:
                arrs.append(z3.Const(nm, srt))
        T = s.T

        def mk(ls):
            for l in ls:
                if isz(l) and z3.is_select(l):
                    T.bound(l, 0, U64 - 1)
            return mk0(ls)
        return VBig(n, mk, leaves, arrs)

    def index(s, fl, tok):
        ix = s.ixs.get(id(fl))
        if ix is None:
            ix = s.ixs[id(fl)] = (fl, {f: i for i, (f, _) in reversed(list(enumerate(fl)))})
        return ix[1][tok]

    def get(s, v, path):
        """field access by name, for specifications: 'harvests[3].mint'"""
        for tok in toks(path):
            if isinstance(tok, int):
                v = v.e[tok]
            else:
                if v.n in ('SplAccount', 'TokenAccount'):
                    fl = EXTERN['TokenAccount'][1]
                    if v.n == 'TokenAccount':
                        v = v.f[0]
                elif v.n in ('SplMint', 'Mint'):
                    fl = EXTERN['Mint'][1]
                    if v.n == 'Mint':
                        v = v.f[0]
                elif v.n in EXTERN:
                    fl = EXTERN[v.n][1]
                else:
                    fl = s.structs[v.n]
                v = v.f[s.index(fl, tok)]
        return v
