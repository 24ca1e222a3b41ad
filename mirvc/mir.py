"""Parser for rustc's textual MIR (`-Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no`).

The text is produced by the compiler from /repo's current source on every run; nothing here
knows anything about the functions in it.  What is dropped: storage markers, debug info, scopes,
const-eval counters and unwind (cleanup) edges.
"""
import re, os, subprocess, hashlib


class Unsupported(Exception):
    """A construct outside the verifier's reach (never reported as a violation)."""


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def split_top(s, sep=','):
    """Split at top-level separators, honouring brackets, `->`, strings and chars."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m:
                cur.append(m.group(0)); i += len(m.group(0)); continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and not (i > 0 and s[i - 1] in '-='):
            depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(''.join(cur).strip()); cur = []; i += len(sep); continue
        cur.append(c); i += 1
    t = ''.join(cur).strip()
    if t or out:
        out.append(t)
    return [x for x in out if x != '']


def find_close(s, i):
    """index of the bracket closing s[i]"""
    depth, n, j = 0, len(s), i
    while j < n:
        c = s[j]
        if c == '"':
            j += 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[j:])
            if m:
                j += len(m.group(0)) - 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return j
        j += 1
    raise Unsupported('unbalanced: ' + s[:120])


class Fn:
    __slots__ = ('name', 'kind', 'args', 'ret', 'locals', 'blocks', 'pos', 'closure_span', 'promoted')

    def __init__(self, name, kind, args, ret, pos):
        self.name, self.kind, self.args, self.ret, self.pos = name, kind, args, ret, pos
        self.locals, self.blocks = {}, {}
        self.closure_span = None
        self.promoted = {}

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Program:
    def __init__(self, text, srcdir=None):
        self.fns = []
        self.by_name = {}
        self.closures = {}
        self.allocs = {}
        self.enums = {}
        self._owner = None
        self._parse(text)
        if srcdir:
            self.enums = parse_enums(srcdir)

    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            m = re.match(r'^(fn|const|static|static mut|promoted) ', ln)
            if m and ln.endswith('{'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                # a const fn is printed a second time, for evaluation at compile time
                if not (m.group(1) == 'fn' and i and lines[i - 1].startswith('// MIR FOR CTFE')):
                    self._item(ln, lines[i + 1:j], i)
                i = j + 1
                continue
            m = re.match(r'^(alloc\d+) \((.*)\) \{', ln)
            if m:
                j = i
                st = re.match(r'static: ([^,)]*)', m.group(2))
                if st:
                    self.allocs[m.group(1)] = st.group(1)
                while j < n and lines[j].rstrip()[-1:] != '}':
                    j += 1
                i = j + 1
                continue
            i += 1

    def _item(self, head, body, pos):
        if head.startswith('fn '):
            h = head[3:-1].strip()
            # name(args) -> ret ; the argument list is the last top-level (...) before ->
            k = self._arg_paren(h)
            name = h[:k].strip()
            e = find_close(h, k)
            args = []
            for a in split_top(h[k + 1:e]):
                nm, ty = a.split(':', 1)
                args.append((nm.strip(), ty.strip()))
            ret = h[e + 1:].strip()
            ret = ret[2:].strip() if ret.startswith('->') else '()'
            f = Fn(name, 'fn', args, ret, pos)
            for a, t in args:
                f.locals[a] = t
            if args:
                m = re.match(r'^(?:&(?:mut )?)?\{closure@(.*)\}$', args[0][1])
                if m and '{closure#' in name.rsplit('::', 1)[-1]:
                    f.closure_span = m.group(1)
                    self.closures.setdefault(m.group(1), []).append(f)
        else:
            m = re.match(r'^(const|static mut|static) (.*) = \{$', head)
            if not m:
                return
            kind, rest = m.group(1), m.group(2)
            parts = split_colon(rest)
            f = Fn(parts[0], kind, [], parts[1], pos)
        self._body(f, body)
        # promoted constants are printed right after the item they belong to
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', f.name)
        if not m:
            self._owner = f
        elif self._owner is not None and (self._owner.name == m.group(1) or self._owner.name.endswith('::' + m.group(1)) or m.group(1).endswith('::' + self._owner.name)):
            self._owner.promoted[int(m.group(2))] = f
        self.fns.append(f)
        self.by_name.setdefault(f.name, []).append(f)

    @staticmethod
    def _arg_paren(h):
        depth = 0
        for k, c in enumerate(h):
            if c in '<[{':
                depth += 1
            elif c in ']}' or (c == '>' and h[k - 1] not in '-='):
                depth -= 1
            elif c == '(':
                if depth == 0 and re.match(r'\((_1:|\))', h[k:]):
                    return k
                depth += 1
            elif c == ')':
                depth -= 1
        raise Unsupported('header ' + h[:100])

    def _body(self, f, body):
        cur = None
        buf = ''
        for ln in body:
            s = ln.strip()
            if not s:
                continue
            m = re.match(r'^let (?:mut )?(_\d+): (.*);$', s)
            if m:
                f.locals[m.group(1)] = m.group(2)
                continue
            if s.startswith('debug ') or s.startswith('scope '):
                continue
            m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = []
                buf = ''
                continue
            if s == '}' and not buf:
                if cur is not None:
                    cur = None
                continue
            if cur is None:
                continue
            buf = (buf + ' ' + s) if buf else s
            if buf.endswith(';'):
                st = buf[:-1]
                buf = ''
                if re.match(r'^(StorageLive|StorageDead|nop|ConstEvalCounter|FakeRead|PlaceMention|AscribeUserType|Coverage|Retag)', st):
                    continue
                f.blocks[cur].append(st)


def split_colon(s):
    """`path::to::x: Type` -> (path, Type)"""
    d = 0
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif c == ':' and d == 0 and s[i + 1:i + 2] == ' ' and s[i - 1] != ':':
            return s[:i], s[i + 2:]
    raise Unsupported('no type in ' + s[:100])


STD_ENUMS = {
    'Option': {'None': 0, 'Some': 1},
    'Result': {'Ok': 0, 'Err': 1},
    'ControlFlow': {'Continue': 0, 'Break': 1},
    'Ordering': {'Less': -1, 'Equal': 0, 'Greater': 1},
    'Cow': {'Borrowed': 0, 'Owned': 1},
    'Err': {'Incomplete': 0, 'Error': 1, 'Failure': 2},     # nom::Err
}


def strip_comments(t):
    out, i, n = [], 0, len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            i = n if j < 0 else j
        elif t.startswith('/*', i):
            j = t.find('*/', i)
            i = n if j < 0 else j + 2
        elif t[i] == '"':
            j = i + 1
            while j < n and t[j] != '"':
                j += 2 if t[j] == '\\' else 1
            out.append('""'); i = j + 1
        else:
            out.append(t[i]); i += 1
    return ''.join(out)


def parse_enums(srcdir):
    res = dict(STD_ENUMS)
    for root, _, files in os.walk(srcdir):
        for fn in files:
            if not fn.endswith('.rs'):
                continue
            t = strip_comments(open(os.path.join(root, fn), encoding='utf-8').read())
            for m in re.finditer(r'\benum\s+(\w+)\s*(<[^{]*>)?\s*\{', t):
                st = m.end() - 1
                try:
                    en = find_close(t, st)
                except Unsupported:
                    continue
                vs, d = {}, 0
                for v in split_top(t[st + 1:en]):
                    v = re.sub(r'#\s*\[[^\]]*\]', '', v).strip()
                    mm = re.match(r'(\w+)', v)
                    if not mm:
                        continue
                    ex = re.search(r'=\s*(-?\d+)\s*$', v)
                    if ex:
                        d = int(ex.group(1))
                    vs[mm.group(1)] = d
                    d += 1
                res[m.group(1)] = vs
    return res


def emit_mir(crate_dir, target_dir, log):
    """Compile the crate's library with rustc and return its MIR text."""
    env = dict(os.environ, CARGO_TARGET_DIR=target_dir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='0')
    env.pop('RUSTC_WRAPPER', None)
    # a fresh crate-level flag value defeats cargo's fingerprint, so the text is always regenerated
    stamp = hashlib.sha256(os.urandom(16)).hexdigest()[:16]
    r = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--', '-Zunpretty=mir', '-Zmir-opt-level=0',
                        '-Ztrim-diagnostic-paths=no', '-Awarnings', '--cfg', 'mirvc_%s' % stamp],
                       cwd=crate_dir, env=env, capture_output=True, text=True)
    open(log, 'w').write(r.stderr)
    if r.returncode != 0 or 'fn ' not in r.stdout:
        raise RuntimeError('MIR of %s could not be produced:\n%s' % (crate_dir, r.stderr[-3000:]))
    return r.stdout


def parse_structs(srcdir):
    """struct name -> tuple of field names (tuple structs: '0','1',..)"""
    res = {}
    for root, _, files in os.walk(srcdir):
        for fn in files:
            if not fn.endswith('.rs'):
                continue
            t = strip_comments(open(os.path.join(root, fn), encoding='utf-8').read())
            for m in re.finditer(r'\bstruct\s+(\w+)\s*(<[^{(;]*>)?\s*([{(;])', t):
                if m.group(3) == ';':
                    res[m.group(1)] = ()
                    continue
                st = m.end() - 1
                try:
                    en = find_close(t, st)
                except Unsupported:
                    continue
                items = [re.sub(r'#\s*\[[^\]]*\]', '', x).strip() for x in split_top(t[st + 1:en])]
                if m.group(3) == '{':
                    res[m.group(1)] = tuple(re.sub(r'^pub(\([^)]*\))?\s+', '', x).split(':')[0].strip() for x in items if x)
                else:
                    res[m.group(1)] = tuple(str(i) for i in range(len(items)))
    return res
