"""Reads rustc's MIR text for one crate: builds it from the source tree and parses
function bodies on demand.  Nothing here knows about any property."""
import functools, os, re, subprocess, glob, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = '/opt/vp/partial/target/debug/deps'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    """The engine met something it has no semantics for: the obligation is undecided."""


def cargo_env():
    env = dict(os.environ)
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE)
    for kv in p.stdout.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            env[k.decode()] = v.decode('utf8', 'replace')
    env['RUSTC_BOOTSTRAP'] = '1'
    return env


def one(pattern):
    l = sorted(glob.glob(os.path.join(DEPS, pattern)))
    if not l:
        raise Unsupported('missing build product ' + pattern)
    return l[-1]


def build_decimal(out, env):
    lib = os.path.join(out, 'libdecimal.rlib')
    if not os.path.exists(lib):
        subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'decimal', '-O', '-C', 'panic=unwind',
                        os.path.join(HERE, 'standin/decimal/src/lib.rs'), '-L', 'dependency=' + DEPS,
                        '--extern', 'anchor_lang=' + one('libanchor_lang-*.rlib'), '-o', lib, '-Awarnings'],
                       check=True, env=env)
    return lib


def build_mir(crate, out, env, features=()):
    """MIR of /repo's current tree."""
    lib = build_decimal(out, env)
    mir = os.path.join(out, crate + '.mir')
    cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', crate,
           f'{REPO}/programs/{crate}/src/lib.rs', '-L', 'dependency=' + DEPS,
           '--extern', 'anchor_lang=' + one('libanchor_lang-*.rlib'),
           '--extern', 'anchor_spl=' + one('libanchor_spl-*.rlib'),
           '--extern', 'decimal=' + lib, '--emit=mir=' + mir,
           '-C', 'panic=abort', '-C', 'overflow-checks=on', '-C', 'debug-assertions=off',
           '-Z', 'trim-diagnostic-paths=no', '-Z', 'mir-opt-level=1', '-Z', 'inline-mir=no', '-Awarnings']
    for f in features:
        cmd += ['--cfg', f'feature="{f}"']
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Unsupported('rustc failed on %s:\n%s' % (crate, p.stdout.decode()[-4000:]))
    return mir


# ---------------------------------------------------------------- small scanners
def match_close(s, i):
    """index just after the bracket that closes s[i]; string aware; ignores angle brackets"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Unsupported('unbalanced: ' + s[:120])


def skip_str(s, i):
    i += 1
    while s[i] != '"':
        if s[i] == '\\':
            i += 1
        i += 1
    return i + 1


def split_top(s, sep=','):
    """split at top level commas; aware of strings, ([{ and <> (ignoring ->)"""
    out, d, a, i, cur = [], 0, 0, 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '<':
            a += 1
        elif c == '>' and i and s[i - 1] not in '-=':
            a -= 1
        elif c == sep and d == 0 and a <= 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    t = s[cur:].strip()
    if t:
        out.append(t)
    return out


def strip_generics(p):
    """a::B::<X, Y>::c  ->  a::B::c ; leaves a leading <T as Trait> alone"""
    out = []
    i, n = 0, len(p)
    while i < n:
        if p.startswith('::<', i):
            i = close_angle(p, i + 2)
            continue
        if p[i] == '<' and i > 0:
            i = close_angle(p, i)
            continue
        if p[i] == '<' and i == 0:
            j = close_angle(p, 0)
            out.append(p[:j])
            i = j
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def close_angle(p, i):
    d = 0
    n = len(p)
    while i < n:
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Unsupported('angle: ' + p)


@functools.lru_cache(maxsize=None)
def short(t):
    """type without paths and lifetimes: std::option::Option<&'a x::Y> -> Option<&Y>"""
    t = re.sub(r"'[a-z_]+ ?,? ?", '', t)
    t = re.sub(r"<>", '', t)
    t = re.sub(r'(?:[A-Za-z_][A-Za-z0-9_]*::)+(?=[A-Za-z_{])', '', t)
    t = t.replace('::<', '<')
    return t.strip()


# ---------------------------------------------------------------- AST
# place: (local, [proj]) ; proj: ('*',) ('f',n,ty) ('v',Variant) ('i',local) ('c',n,fromend) ('s',a,b,fromend)
class Body:
    __slots__ = ('name', 'params', 'ret', 'locals', 'blocks', 'nargs', 'rpo', 'rpoidx', 'loops', 'src', 'end', 'file')


class Crate:
    def __init__(self, name, mirpath):
        self.name = name
        self.lines = open(mirpath, errors='replace').read().split('\n')
        self.fns = {}      # canonical -> [line numbers]
        self.consts = {}   # name -> line
        self.promoted = {}  # (fncanon, idx) -> line
        self.closures = {}  # loc -> [(canon, line)]
        self.bodies = {}
        self.srccache = {}
        self.index()

    # ---- index
    def src(self, file):
        if file not in self.srccache:
            try:
                self.srccache[file] = open(file).read().split('\n')
            except OSError:
                self.srccache[file] = []
        return self.srccache[file]

    def impl_of(self, loc):
        m = re.match(r'<impl at (.*?):(\d+):(\d+): (\d+):(\d+)>', loc)
        f, l, c, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        lines = self.src(f)
        if l > len(lines):
            return loc
        line = lines[l - 1][c - 1:]
        if line.startswith('impl'):
            j = l - 1
            txt = line
            while '{' not in txt:
                j += 1
                txt += ' ' + lines[j]
            txt = txt[4:txt.index('{')].strip()
            if txt.startswith('<'):
                txt = txt[close_angle(txt, 0):].strip()
            txt = txt.split(' where ')[0].strip()
            if ' for ' in txt:
                tr, ty = txt.split(' for ')
                return '<%s as %s>' % (short(ty), short(tr))
            return short(txt).split('<')[0]
        tok = re.match(r'\w+', line)
        tok = tok.group(0) if tok else '?'
        # a derive: find the item that follows
        if line.startswith('#['):
            tok = re.match(r'#\[\s*(\w+)', line).group(1)
        for k in range(l - 1, min(l + 60, len(lines))):
            m2 = re.search(r'\b(struct|enum|mod)\s+(\w+)', lines[k])
            if m2 and not lines[k].strip().startswith('//'):
                return '<%s as %s>' % (m2.group(2), tok)
        return loc

    def canon(self, name):
        """name as written at a definition -> canonical name"""
        m = re.search(r'<impl at [^>]*>', name)
        if m:
            t = self.impl_of(m.group(0))
            rest = name[m.end():]
            pre = name[:m.start()]
            if t.startswith('<'):
                return t + rest
            return pre + t + rest
        return name

    def index(self):
        L = self.lines
        for i, s in enumerate(L):
            if not s or s[0] in ' }/':
                continue
            if s.startswith('fn '):
                name = s[3:]
                # name ends at the '(' that opens the parameters
                k = self.param_paren(name)
                nm = self.canon(name[:k])
                m = re.search(r'\{closure#\d+\}$', nm)
                if m:
                    mm = re.search(r'_1: [^\[]*\[closure@(.*?)\]', name[k:])
                    if mm:
                        self.closures.setdefault(mm.group(1), []).append((nm, i))
                self.fns.setdefault(nm, []).append(i)
            elif s.startswith('promoted['):
                m = re.match(r'promoted\[(\d+)\] in (.*): [^:].* = \{$', s)
                if m:
                    # split name: type at ': ' that is followed by '&' usually
                    rest = s[s.index(' in ') + 4:]
                    self.promoted.setdefault((self.canon(self.split_ty(rest)), int(m.group(1))), i)
            elif s.startswith('const ') or s.startswith('static ') or re.match(r'[a-z<].*= \{$', s):
                t = re.sub(r'^(const|static) ', '', s)
                self.consts[self.canon(self.split_ty(t))] = i
        # lookup by last two path components for local functions called by re-exported paths
        self.tail = {}
        for nm in self.fns:
            if nm.startswith('<') or '{closure' in nm:
                continue
            p = nm.split('::')
            self.tail.setdefault('::'.join(p[-2:]), []).append(nm)
        self.traitfns = {}
        for nm in self.fns:
            m = re.match(r'<(.*) as (.*)>::(\w+)$', nm)
            if m:
                self.traitfns[(m.group(1).split('<')[0] if False else m.group(1), m.group(2), m.group(3))] = nm

    @staticmethod
    def param_paren(s):
        i, a = 0, 0
        while True:
            c = s[i]
            if c == '<':
                i = close_angle(s, i)
                continue
            if c == '(':
                return i
            i += 1

    @staticmethod
    def split_ty(s):
        i = 0
        while i < len(s):
            c = s[i]
            if c == '<':
                i = close_angle(s, i)
                continue
            if s.startswith(': ', i):
                return s[:i]
            i += 1
        return s

    def static_of(self, body, alloc):
        for i in range(body.end, min(body.end + 4000, len(self.lines))):
            l = self.lines[i]
            if l.startswith(('fn ', 'const ', 'static ', 'promoted[')) and i > body.end:
                break
            m = re.match(r'(alloc\d+) \(static: ([\w:]+),', l)
            if m and m.group(1) == alloc:
                return m.group(2)
        return None

    # ---- bodies
    def body_at(self, line, name):
        if line in self.bodies:
            return self.bodies[line]
        b = parse_body(self, line, name)
        self.bodies[line] = b
        return b


TERM_RE = re.compile(r' -> (\[.*\]|unwind \w+|bb\d+)$')


def parse_body(crate, line, name):
    L = crate.lines
    b = Body()
    b.name = name
    b.locals = {}
    b.blocks = {}
    head = L[line]
    b.params = []
    b.nargs = 0
    if head.startswith('fn '):
        h = head[3:]
        k = Crate.param_paren(h)
        e = match_close(h, k)
        for p in split_top(h[k + 1:e - 1]):
            m = re.match(r'_(\d+): (.*)$', p)
            b.locals[int(m.group(1))] = m.group(2)
            b.params.append(int(m.group(1)))
        b.nargs = len(b.params)
        rest = h[e:]
        m = re.match(r' -> (.*) \{$', rest)
        b.ret = m.group(1) if m else '()'
    else:
        b.ret = ''
    i = line + 1
    cur = None
    pend = None
    while True:
        s = L[i]
        if s == '}':
            b.end = i + 1
            break
        t = s.strip()
        if cur is None or not s.startswith('        '):
            m = re.match(r'bb(\d+)(?: \(cleanup\))?: \{', t)
            if m:
                cur = []
                b.blocks[int(m.group(1))] = cur
                i += 1
                continue
            if t == '}':
                cur = None if not s.startswith('        ') else cur
                i += 1
                continue
            m = re.match(r'let (?:mut )?_(\d+): (.*?);(?: *//.*)?$', t)
            if m and cur is None:
                b.locals[int(m.group(1))] = m.group(2)
            i += 1
            continue
        # statement inside a block
        if t.startswith('//'):
            if t.startswith('// + literal:') and cur:
                cur[-1][1].append(t[len('// + literal: '):])
        else:
            # strip trailing comment (string aware)
            raw = t
            t = strip_comment(t)
            while not t.endswith(';') and not t.endswith('}'):
                i += 1
                t += '\n' + L[i]      # multi-line string constants
                raw = L[i]
                t = strip_comment(t)
            cur.append([t.rstrip(';'), [], raw[-400:]])
        i += 1
    m = re.search(r'(/[^ ]*?\.rs):(\d+)', '\n'.join(L[line:line + 4]))
    b.file = (m.group(1), int(m.group(2))) if m else None
    for k in b.blocks:
        b.blocks[k] = [parse_stmt(hidden_consts(crate, st), st[1]) for st in b.blocks[k]]
    analyse(b)
    return b


CONSTPATH = re.compile(r'(?<![\w:])(?<!(?<!\.)\.)(?:[A-Za-z_]\w*::)*[A-Z][A-Z0-9_]*(?![\w:(!])')


def hidden_consts(crate, st):
    """rustc prints a named integer constant as `const _` and does not say which
    one.  The span says where it stands, so read its path from the source."""
    t, lits, raw = st
    n = len(re.findall(r'\bconst _(?!\w)', t))
    iscall = bool(re.search(r'\) -> (\[|bb|unwind)', t)) and not t.startswith(('assert', 'switchInt'))
    shown = len(lits) - (1 if iscall else 0)
    if not n or shown >= n:
        return t
    if shown > 0:
        return t.replace('const _', 'const UNKNOWN:' + t.replace(' ', ''))
    m = re.search(r'at (/[^:]+):(\d+):(\d+): (\d+):(\d+)', raw)
    if not m:
        return re.sub(r'\bconst _(?!\w)', 'const UNKNOWN:nospan', t)
    try:
        L = crate.src(m[1])
        L = L.split('\n') if isinstance(L, str) else L
    except OSError:
        return re.sub(r'\bconst _(?!\w)', 'const UNKNOWN:nosource', t)
    a, c, e, d = (int(x) for x in m.groups()[1:])
    text = L[a - 1][c - 1:d - 1] if a == e else '\n'.join([L[a - 1][c - 1:]] + L[a:e - 1] + [L[e - 1][:d - 1]])
    text = re.sub(r'//[^\n]*', '', text)

    def pick(x):
        f = sorted(set(CONSTPATH.findall(x)))
        return f[0] if len(f) == 1 else None
    if iscall and text.endswith(')'):
        d = 0
        for i in range(len(text) - 1, -1, -1):
            d += (text[i] == ')') - (text[i] == '(')
            if d == 0:
                text = text[i + 1:-1]
                break
    got = pick(text)
    if got:
        return re.sub(r'\bconst _(?!\w)', lambda _: 'const SRC:' + got, t)
    m = re.match(r'(?:.* = \w+\(|assert\(.*", )(.*?), (.*?)\)', t)
    if m:
        sides = top_binary(text)
        if sides:
            for k in (0, 1):
                if m[k + 1].strip() == 'const _':
                    g = pick(sides[k])
                    t = re.sub(r'\bconst _(?!\w)', 'const SRC:' + g if g else 'const UNKNOWN:side', t, count=1)
            return t
    return re.sub(r'\bconst _(?!\w)', 'const UNKNOWN:' + re.sub(r'\W+', '.', text)[:60], t)


def top_binary(x):
    """split source text at its last top-level, lowest precedence arithmetic operator"""
    x = x.strip()
    while x.startswith('(') and match_close(x, 0) == len(x):
        x = x[1:-1].strip()
    for ops in ('<>', '+-', '*/%'):
        d, at = 0, None
        for i, ch in enumerate(x):
            if ch in '([{':
                d += 1
            elif ch in ')]}':
                d -= 1
            elif ch in ops and d == 0 and i > 0 and x[i - 1] == ' ':
                at = i
        if at is not None:
            return x[:at], x[at + 1:].lstrip('=')
    return None


def strip_comment(t):
    i, n = 0, len(t)
    while i < n:
        if t[i] == '"':
            try:
                i = skip_str(t, i)
            except IndexError:
                return t
            continue
        if t.startswith('// ', i) and i > 0:
            return t[:i].rstrip()
        i += 1
    return t.rstrip()


def parse_place(s, i=0):
    """returns (place, next index)"""
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        pl = (int(m.group(1)), [])
        i = m.end()
    elif s[i] == '(':
        if s[i + 1] == '*':
            pl, j = parse_place(s, i + 2)
            assert s[j] == ')', s
            pl = (pl[0], pl[1] + [('*',)])
            i = j + 1
        else:
            pl, j = parse_place(s, i + 1)
            if s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                e = match_close(s, i)
                pl = (pl[0], pl[1] + [('f', int(m.group(1)), s[m.end():e - 1])])
                i = e
            elif s.startswith(' as ', j):
                e = match_close(s, i)
                v = s[j + 4:e - 1]
                pl = (pl[0], pl[1] + [('v', v)])
                i = e
            else:
                raise Unsupported('place ' + s)
    else:
        raise Unsupported('place ' + s)
    while i < len(s) and s[i] == '[':
        e = match_close(s, i)
        x = s[i + 1:e - 1]
        m = re.match(r'_(\d+)$', x)
        if m:
            pr = ('i', int(m.group(1)))
        else:
            m = re.match(r'(-?)(\d+) of (\d+)$', x)
            if m:
                pr = ('c', int(m.group(2)), m.group(1) == '-')
            else:
                m = re.match(r'(\d+):(-?)(\d*)$', x)
                if not m:
                    raise Unsupported('projection ' + x)
                pr = ('s', int(m.group(1)), int(m.group(3) or 0), True)
        pl = (pl[0], pl[1] + [pr])
        i = e
    return pl, i


def is_place(s):
    return bool(s) and (s[0] == '_' and s[1:2].isdigit() or s[0] == '(' and (s[1:2] in '*(_' and s[1:2] != '' and not s.startswith('()')))


def full_place(s):
    try:
        p, j = parse_place(s)
    except (Unsupported, AssertionError, AttributeError, IndexError):
        return None
    return p if j == len(s) else None


def parse_operand(s, lits):
    if s.startswith('move '):
        p = full_place(s[5:])
        if p is None:
            raise Unsupported('operand ' + s)
        return ('copy', p)
    if s.startswith('const '):
        lit = None
        if lits:
            # literals are listed in order of appearance; consume lazily by position
            lit = lits.pop(0) if needs_lit(s) else None
        return ('const', s[6:], lit)
    p = full_place(s)
    if p is not None:
        return ('copy', p)
    if re.match(r'[A-Za-z_<]', s):      # a function item passed as a value
        if lits:
            lits.pop(0)
        return ('fn', s)
    raise Unsupported('operand ' + s)


def needs_lit(s):
    c = s[6:]
    if re.match(r'-?[\d.]+_?[iuf]\w+$', c) or c in ('true', 'false', '()'):
        return False
    if c.startswith("'") or c.startswith('SRC:') or c.startswith('UNKNOWN:'):
        return False
    return True


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt', 'Offset',
          'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}


def parse_rvalue(s, lits):
    if s.startswith('&'):
        m = re.match(r'&(raw const |raw mut |mut |shallow )?', s)
        p = full_place(s[m.end():])
        if p is None:
            raise Unsupported('ref ' + s)
        return ('ref', p, (m.group(1) or '').strip())
    m = re.match(r'(\w+)\(', s)
    if m:
        nm = m.group(1)
        if nm in BINOPS:
            a = split_top(s[m.end():-1])
            return ('bin', nm, parse_operand(a[0], lits), parse_operand(a[1], lits))
        if nm in ('Not', 'Neg'):
            return ('un', nm, parse_operand(s[m.end():-1], lits))
        if nm == 'Len':
            return ('len', full_place(s[4:-1]))
        if nm == 'discriminant':
            return ('disc', full_place(s[m.end():-1]))
        if nm == 'ShallowInitBox':                   # a box is its pointer
            return ('use', parse_operand(split_top(s[m.end():-1])[0], lits))
        if nm in ('SizeOf', 'AlignOf'):
            return ('misc', nm, s[m.end():-1])
    if s.startswith('deref_copy '):
        return ('use', ('copy', full_place(s[11:])))
    # cast
    m = re.search(r' as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$', s)
    if m and (s.startswith('move ') or s.startswith('const ') or s[0] in '_('):
        # find operand end
        if s.startswith('const '):
            o = s[:m.start()]
            return ('cast', parse_operand(o, lits), m.group(1), m.group(2))
        st = 5 if s.startswith('move ') else 0
        try:
            p, j = parse_place(s, st)
            if s.startswith(' as ', j):
                e = s.rindex(' (')
                return ('cast', ('copy', p), s[j + 4:e], s[e + 2:-1])
        except (Unsupported, AttributeError, AssertionError, IndexError):
            pass
    if s.startswith('move ') or s.startswith('const ') or full_place(s) is not None:
        return ('use', parse_operand(s, lits))
    if s.startswith('[closure@'):
        e = match_close(s, 0)
        loc = s[9:e - 1]
        caps = []
        r = s[e:].strip()
        if r.startswith('{'):
            for f in split_top(r[1:-1]):
                caps.append(parse_operand(f.split(': ', 1)[1], lits))
        return ('closure', loc, caps)
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2 and not inner.startswith('"'):
            return ('repeat', parse_operand(parts[0], lits), parts[1])
        return ('array', [parse_operand(x, lits) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x, lits) for x in split_top(s[1:-1])])
    # aggregates
    m = re.match(r'^(.*?) \{ (.*) \}$', s, re.S)
    if m and not s.startswith('"'):
        # struct (or struct-like variant)
        path = m.group(1)
        k = s.index(' { ')
        # skip braces inside generics such as {closure}
        flds = [f.split(': ', 1) for f in split_top(s[k + 3:-2])]
        return ('agg', path, [parse_operand(f[1], lits) for f in flds], [f[0] for f in flds])
    if s.endswith(' {  }') or s.endswith(' { }'):
        return ('agg', s[:s.rindex(' {')], [], [])
    if s.endswith(')'):
        # Path(args): the '(' that matches the last ')'
        k = open_of_last(s)
        return ('agg', s[:k], [parse_operand(x, lits) for x in split_top(s[k + 1:-1])], None)
    if re.match(r'^[A-Za-z_<]', s):
        return ('agg', s, [], None)
    raise Unsupported('rvalue ' + s)


def open_of_last(s):
    """index of the ( matching the final )"""
    i, st = 0, []
    last = None
    while i < len(s):
        c = s[i]
        if c == '"':
            i = skip_str(s, i)
            continue
        if c in '([{':
            st.append(i)
        elif c in ')]}':
            last = st.pop()
        i += 1
    return last


def parse_stmt(t, lits):
    lits = list(lits)
    if t == 'return':
        return ('return',)
    if t == 'unreachable':
        return ('unreachable',)
    if t in ('resume', 'abort', 'terminate'):
        return ('abort',)
    m = re.match(r'goto -> bb(\d+)$', t)
    if m:
        return ('goto', int(m.group(1)))
    if t.startswith('switchInt('):
        m = re.search(r'\) -> \[(.*)\]$', t, re.S)
        op = parse_operand(t[10:m.start()], lits)
        arms, other = [], None
        for a in m.group(1).split(', '):
            k, v = a.split(': bb')
            if k == 'otherwise':
                other = int(v)
            else:
                arms.append((int(k), int(v)))
        return ('switch', op, arms, other)
    if t.startswith('assert('):
        m = re.search(r'\) -> \[success: bb(\d+)', t)
        e = match_close(t, 6)
        args = split_top(t[7:e - 1])
        c = args[0]
        neg = c.startswith('!')
        if neg:
            c = c[1:]
        return ('assert', parse_operand(c, lits), neg, int(re.search(r'success: bb(\d+)', t).group(1)))
    if t.startswith('drop('):
        m = re.search(r'\) -> \[return: bb(\d+)', t)
        return ('drop', full_place(t[5:m.start()]), int(m.group(1)))
    m = re.match(r'falseEdge|falseUnwind', t)
    if m:
        raise Unsupported(t)
    if t.startswith('discriminant('):
        m = re.match(r'discriminant\((.*)\) = (\d+)$', t)
        return ('setdisc', full_place(m.group(1)), int(m.group(2)))
    if re.match(r'(StorageLive|StorageDead|FakeRead|AscribeUserType|Retag|nop|Coverage|Deinit|assume\(|ConstEvalCounter)', t):
        return ('nop',)
    # assignment or call
    k = find_assign(t)
    if k is None:
        # diverging call without destination is printed with destination in this rustc
        raise Unsupported('stmt ' + t)
    dest = full_place(t[:k])
    rhs = t[k + 3:]
    m = re.search(r' -> \[return: bb(\d+)(?:, unwind[^\]]*)?\]$', rhs)
    m2 = re.search(r' -> unwind \w+$', rhs) if not m else None
    if m or m2:
        call = rhs[:(m or m2).start()]
        op = open_of_last(call)
        fn = call[:op]
        args = split_top(call[op + 1:-1])
        # function constant literal is the first or last literal in the list; operand
        # literals follow rustc's visiting order: func first, then args
        flit = None
        if lits and not re.match(r'(move )?_\d+$', fn):
            flit = lits.pop(0)
        return ('call', dest, fn, [parse_operand(a, lits) for a in args], int(m.group(1)) if m else None, flit)
    return ('assign', dest, parse_rvalue(rhs, lits))


def find_assign(t):
    i = 0
    while i < len(t):
        if t[i] == '"':
            i = skip_str(t, i)
            continue
        if t.startswith(' = ', i):
            return i
        i += 1
    return None


def succs(block):
    t = block[-1]
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'assert':
        return [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    return []


def analyse(b):
    """reverse post order, natural loops (nesting)"""
    order, seen = [], set()
    stack = [(0, iter(succs(b.blocks[0])))]
    seen.add(0)
    onpath = {0}
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                onpath.add(s)
                stack.append((s, iter(succs(b.blocks[s]))))
                break
        else:
            stack.pop()
            order.append(n)
    b.rpo = order[::-1]
    b.rpoidx = {n: i for i, n in enumerate(b.rpo)}
    preds = {n: [] for n in b.rpo}
    for n in b.rpo:
        for s in succs(b.blocks[n]):
            preds[s].append(n)
    # dominators (iterative)
    dom = {b.rpo[0]: {b.rpo[0]}}
    allb = set(b.rpo)
    for n in b.rpo[1:]:
        dom[n] = allb
    ch = True
    while ch:
        ch = False
        for n in b.rpo[1:]:
            ps = [dom[p] for p in preds[n]]
            d = set.intersection(*ps) | {n} if ps else {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    loops = {}
    for n in b.rpo:
        for s in succs(b.blocks[n]):
            if s in dom[n]:       # back edge n->s
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    # nest: for each block list of enclosing headers outermost first
    b.loops = {}
    for n in b.rpo:
        hs = [h for h in loops if n in loops[h]]
        hs.sort(key=lambda h: -len(loops[h]))
        b.loops[n] = hs
    b.src = loops
