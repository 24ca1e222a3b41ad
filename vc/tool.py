"""The command line tool (C17), run in a scratch directory: what it does to the file system against what it has to do."""
import os, re, shutil, stat, subprocess, tempfile
from .common import VERIF, TARGET, BuildError, env, run
from . import gen, lits

NOTHING = None


def build_tool():
    t = os.path.join(TARGET, 'native')
    r = run(['cargo', 'build', '--offline', '--quiet', '-p', 'make_pluralrules', '--bin', 'make_pluralrules'], os.path.join(VERIF, 'native', 'gen'), env(t))
    if r.returncode != 0:
        raise BuildError('the tool: ' + r.stderr[-3000:])
    return os.path.join(t, 'debug', 'make_pluralrules')


def build_shim(d):
    p = os.path.join(d, 'shim.so')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', p, os.path.join(VERIF, 'native', 'shim', 'shim.c'), '-ldl'], capture_output=True, text=True)
    return p if r.returncode == 0 else None


class Case:
    """files: name -> text or bytes; args: argument list ({o}: the output); what is expected:
    ok: success is required; may_fail: success is not required, but then status != 0; untouched: status != 0 and no file changed;
    auto: ok or untouched, as the generator says of the inputs.  old: text of the output before, or a function of (code, formatted code);
    path: empty (no rustfmt) or a wrapper of rustfmt; state: what the output is before (link, dangling, hard, readonly, dir)"""

    def __init__(self, name, files, args, inputs, want='ok', ugly=True, old=NOTHING, out='out.rs', fault=None, path=None, state=None):
        self.__dict__.update(locals())


CARD = lambda v='37', **k: gen.resource(v, cardinal={'en': gen.rules(one='i = 1 and v = 0', other=''), 'sr-Latn': gen.rules(few='v = 0 and i % 10 = 2..4', other='')}, **k)
ORD = lambda v='37': gen.resource(v, ordinal={'en': gen.rules(two='n % 10 = 2 and n % 100 != 12', other=''), 'root': gen.rules(other='')})
NONE = lambda v='37': gen.resource(v)


def cases():
    out = []
    add = lambda *a, **k: out.append(Case(*a, **k))
    f = {'a.json': CARD(), 'b.json': ORD(), 'c.json': NONE(), 'd-e f.json': ORD(), 'é.json': CARD(), 'v.json': CARD('38'), 'x.json': '{"supplemental": ', 'e.json': '',
         'n.json': NONE(), 'bad.json': CARD().encode().replace(b'"en"', b'"en", "\xff"').replace(b'12.1.0', b'\xff'), 'w.json': ORD('40')}
    both = CARD(ordinal={'en': gen.rules(other='')})
    f['both.json'] = both
    big = 'x' * 100000
    for ugly in (True, False):
        u = ['-u'] if ugly else []
        k = dict(ugly=ugly)
        add('one input', f, ['-i', 'a.json', '-o', '{o}'] + u, ['a.json'], **k)
        add('two inputs', f, ['-i', 'a.json', 'b.json', '-o', '{o}'] + u, ['a.json', 'b.json'], **k)
        add('two inputs, each with -i', f, ['-i', 'b.json', '-i', 'a.json', '-o', '{o}'] + u, ['b.json', 'a.json'], **k)
        add('long options', f, u + ['--output', '{o}', '--input', 'a.json', 'b.json', 'c.json'], ['a.json', 'b.json', 'c.json'], **k)
        add('existing longer output', f, ['-i', 'b.json', '-o', '{o}'] + u, ['b.json'], old=big, **k)
        add('existing shorter output', f, ['-i', 'b.json', '-o', '{o}'] + u, ['b.json'], old='old', **k)
        add('output is the input', f, ['-i', 'b.json', '-o', '{o}'] + u, ['b.json'], out='b.json', **k)
        add('both types', f, ['-i', 'both.json', 'n.json', 'c.json', 'c.json', '-o', '{o}'] + u, ['both.json', 'n.json', 'c.json', 'c.json'], **k)
    add('long flag', f, ['-i', 'b.json', '-o', '{o}', '--ugly'], ['b.json'])
    add('names with blank and accent', f, ['-i', 'd-e f.json', 'é.json', '-o', '{o}', '-u'], ['d-e f.json', 'é.json'])
    add('version 40', f, ['-i', 'w.json', '-o', '{o}', '-u'], ['w.json'])
    many = {'r%d.json' % n: NONE() for n in range(40)}
    many.update({'a.json': CARD(), 'b.json': ORD()})
    names = ['r%d.json' % n for n in range(20)] + ['b.json'] + ['r%d.json' % n for n in range(20, 40)] + ['a.json']
    add('42 inputs', many, ['-u', '-o', '{o}', '-i'] + names, names)
    # refused or unreadable input: nothing may change
    for nm, ins in (('versions differ', ['a.json', 'w.json']), ('a type twice', ['a.json', 'v.json']), ('a type twice', ['both.json', 'b.json']), ('no data', ['c.json']),
                    ('not JSON', ['x.json']), ('not JSON, last', ['a.json', 'x.json']), ('empty file', ['a.json', 'e.json']), ('empty file, first', ['e.json', 'a.json']), ('missing file', ['a.json', 'missing.json']),
                    ('missing file, first', ['missing.json', 'a.json']), ('missing file only', ['missing.json']), ('not UTF-8', ['bad.json']), ('not UTF-8, last', ['a.json', 'bad.json']),
                    ('a directory', ['a.json', '.'])):
        for old in (NOTHING, 'old text'):
            for u in (['-u'], []):
                add(nm, f, ['-i'] + ins + ['-o', '{o}'] + u, ins, want='untouched', old=old, ugly=bool(u))
    add('refused, output is the input', f, ['-i', 'c.json', '-o', '{o}', '-u'], ['c.json'], want='untouched', out='c.json')
    # faults
    add('output in a missing directory', f, ['-i', 'a.json', '-o', '{o}', '-u'], ['a.json'], want='untouched', out='no/out.rs')
    for u in (['-u'], []):
        add('full device', f, ['-i', 'a.json', '-o', '/dev/full'] + u, ['a.json'], want='fail', ugly=bool(u))
        for fault in ('short:7', 'short:4096', 'intr', 'fail:1', 'failshort:100'):
            add('write fault ' + fault, f, ['-i', 'a.json', 'b.json', '-o', '{o}'] + u, ['a.json', 'b.json'], want='may_fail', ugly=bool(u), fault=fault, old=big)
        for fault in ('rshort:1', 'rshort:100', 'rintr'):
            add('read fault ' + fault, f, ['-i', 'a.json', 'b.json', '-o', '{o}'] + u, ['a.json', 'b.json'], ugly=bool(u), fault=fault)
        for fault in ('rfail:1', 'rfail:2', 'rfail:3'):
            for old in (NOTHING, 'old text'):
                add('read fault ' + fault, f, ['-i', 'a.json', 'b.json', '-o', '{o}'] + u, ['a.json', 'b.json'], want='untouched', ugly=bool(u), fault=fault, old=old)
        add('output is a directory', f, ['-i', 'a.json', '-o', '{o}'] + u, ['a.json'], want='fail', state='dir', ugly=bool(u))
    add('no rustfmt', f, ['-i', 'a.json', '-o', '{o}'], ['a.json'], want='fail', ugly=False, path='empty')
    add('no rustfmt needed', f, ['-i', 'a.json', '-o', '{o}', '-u'], ['a.json'], path='empty')
    return out + more_cases(f)


def table(n, per=1):
    """a resource with n locales"""
    letters = 'abcdefghijklmnopqrstuvwxyz'
    names = [a + b + c for a in letters for b in letters for c in letters][:n]
    cond = 'i % 100 = 3..10,12,15..17 and v = 0 or f != 4,6,9'
    return gen.resource('37', {x: gen.rules(few=' or '.join([cond] * per), other='') for x in names})


def more_cases(f):
    out = []
    add = lambda *a, **k: out.append(Case(*a, **k))
    f = dict(f)
    ok = f['a.json']
    # inputs that are text but unusual, and such that are not text; twice the same
    odd = {'bom.json': '\ufeff' + ok, 'crlf.json': ok.replace(', ', ',\r\n'), 'blank.json': '\n\t ' + ok + ' \n\n', 'nul.json': ok + '\0', 'two.json': ok + ok, 'garbage.json': ok + '}', 'comma.json': ok + ',',
           'cut.json': ok[:-1], 'latin.json': ok.encode().replace(b'12.1.0', b'\xe9'), 'half.json': ok.encode().replace(b'12.1.0', b'\xe2\x82'), 'utf16.json': ok.encode('utf-16'), 'space.json': ' ', 'nl.json': '\n',
           'null.json': 'null', 'brace.json': '{}', 'list.json': '[]', 'accent.json': ok.replace('12.1.0', '\u00e9\u20ac\U0001f600'), 'comment.json': '// x\n' + ok, 'noversion.json': ok.replace('_cldrVersion', '_x'),
           'tail.json': ok.encode() + b'\xff', 'v.json': ok.replace('"37"', '"37.1"'), 'big.json': table(300), 'nd.json': NONE(), 'pad.json': ok + ' ' * 200000, 'lead.json': '\n' * 70000 + ok}
    for nm in sorted(odd):
        g = dict(f, **{nm: odd[nm]})
        for old in (NOTHING, 'old text'):
            add('input ' + nm, g, ['-i', nm, '-o', '{o}', '-u'], [nm], want='auto', old=old)
        add('input ' + nm, g, ['-i', 'b.json', nm, '-o', '{o}', '-u'], ['b.json', nm], want='auto')
        add('input ' + nm, g, ['-i', nm, 'b.json', '-o', '{o}'], [nm, 'b.json'], want='auto', ugly=False)
    for ins in (['a.json', 'a.json'], ['a.json', 'b.json', 'a.json'], ['c.json', 'a.json', 'c.json'], ['c.json', 'c.json', 'b.json'], ['b.json', 'b.json'], ['c.json', 'c.json'], ['a.json', './a.json'], ['b.json', 'd-e f.json']):
        for u in (['-u'], []):
            add('inputs again', f, ['-i'] + ins + ['-o', '{o}'] + u, ins, want='auto', ugly=bool(u))
        add('inputs again, each with -i', f, [x for i in ins for x in ('-i', i)] + ['-o', '{o}', '-u'], ins, want='auto')
    # what the output is before
    olds = [('empty', ''), ('the code', lambda c, w: c), ('formatted code', lambda c, w: w), ('as long as the code', lambda c, w: 'x' * len(c)), ('as long as formatted code', lambda c, w: 'x' * len(w)), ('the code and more', lambda c, w: c + '\n'),
            ('the code but for the end', lambda c, w: c[:-1] + ' '), ('the beginning of the code', lambda c, w: c[:len(c) // 2]), ('the code twice', lambda c, w: c + c), ('the code but for the middle', lambda c, w: c[:len(c) // 2] + '9' + c[len(c) // 2 + 1:]),
            ('code marked generated', lambda c, w: '// @generated\n' + w), ('code of another version', lambda c, w: c.replace('37', '36')), ('hand-written code', 'fn main() {}\n'), ('not text', b'\xff\xfe'), ('no code', '// do not edit\n')]
    for nm, old in olds:
        for u in (['-u'], []):
            add('existing output: ' + nm, f, ['-i', 'a.json', 'b.json', '-o', '{o}'] + u, ['a.json', 'b.json'], old=old, ugly=bool(u))
            if nm in ('the code', 'formatted code', 'as long as the code'):
                add('read-only output: ' + nm, f, ['-i', 'a.json', 'b.json', '-o', '{o}'] + u, ['a.json', 'b.json'], old=old, ugly=bool(u), state='readonly')
        if nm in ('the code', 'formatted code', 'empty', 'hand-written code'):
            for ins in (['a.json', 'w.json'], ['missing.json'], ['c.json']):
                add('existing output, refused: ' + nm, f, ['-i'] + ins + ['-o', '{o}', '-u'], ins, want='auto', old=old)
    for state in ('link', 'dangling', 'hard', 'readonly'):
        for u in (['-u'], []):
            add('output before: ' + state, f, ['-i', 'a.json', '-o', '{o}'] + u, ['a.json'], old='old text', ugly=bool(u), state=state)
    # names; the ones of the source among them
    texts = [t for t in lits.literals('make_pluralrules')[1] if re.match(r'^[\w.~-]+$', t) and not t.startswith('--')]
    names = ['out', 'out.txt', 'out.rs.in', 'out.json', 'OUT.RS', '.hidden.rs', 'mod.rs', 'lib.rs', 'main.rs', 'a b.rs', '\u00e9.rs', 'sub/out.rs', './out.rs', 'sub/../out.rs', 'out.rs.bk', 'out.tmp', 'rules.rs', 'x' * 120 + '.rs', 'rustfmt', 'out.', 'out.rs~', 'out.rs ', ' out.rs', 'out.rs\n', '$HOME.rs', '%20.rs', '"out.rs"', "'o'.rs"]
    for o in names + ['out' + t for t in texts] + ['out.' + t for t in texts if not t.startswith('.')] + [t + '.rs' for t in texts if not t.startswith('-')] + [t for t in texts if not t.startswith('-') and t.strip('.')]:
        g = dict(f, **{'sub/x': 'x'}) if o.startswith('sub/') else f
        if o in g or len(o.encode()) > 200:
            continue
        for old in (NOTHING, 'old text\n' * 2000):
            add('output name', g, ['-i', 'b.json', '-o', '{o}', '-u'], ['b.json'], out=o, old=old)
        if o in names[:12] or o in texts:
            add('output name', g, ['-i', 'b.json', '-o', '{o}'], ['b.json'], out=o, ugly=False)
    for o in ('-', '-.rs', '-out.rs'):
        add('output name with a dash', f, ['-i', 'b.json', '--output=' + o, '-u'], ['b.json'], out=o)
    for i in ['in', 'in.JSON', '.in.json', 'sub/in.json', './in.json', 'in.txt', 'in.rs', 'x' * 120, 'in.json.bak', 'in*.json', 'in?.json', '~', 'in.json~', '@in', '#in', 'in.json5', 'http:in.json', 'in.json ', ' in.json', '$HOME', '"in.json"'] + ['in' + t for t in texts] + [t for t in texts if not t.startswith('-') and t.strip('.')]:
        if i in f or len(i) > 200:
            continue
        g = dict(f, **{i: ok})
        add('input name', g, ['-i', i, 'b.json', '-o', '{o}', '-u'], [i, 'b.json'], want='auto')
        add('input name, missing', f, ['-i', i, 'b.json', '-o', '{o}', '-u'], [i, 'b.json'], want='auto')
    # rustfmt that talks, fails or does something else: its status is no matter of the tool
    for p in ('noisy', 'status', 'silent', 'loud', 'reads', 'slow'):
        for old in (NOTHING, 'old text'):
            add('rustfmt ' + p, f, ['-i', 'a.json', '-o', '{o}'], ['a.json'], ugly=False, path=p, old=old)
    # long code
    sizes = [3, 40, 130, 260, 700] + [k for k in lits.around('make_pluralrules', 2000) if k > 50][:6]
    for k in sorted(set(sizes)):
        g = {'t.json': table(k), 'b.json': ORD()}
        add('%d locales' % k, g, ['-i', 't.json', 'b.json', '-o', '{o}', '-u'], ['t.json', 'b.json'], want='auto')
        if k in (40, 130, 260):
            add('%d locales' % k, g, ['-i', 't.json', 'b.json', '-o', '{o}'], ['t.json', 'b.json'], want='auto', ugly=False)
    g = {'t.json': table(700, 8)}
    add('long code', g, ['-i', 't.json', '-o', '{o}', '-u'], ['t.json'], want='auto')
    return out


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in fs:
            p = os.path.join(r, x)
            try:
                out[os.path.relpath(p, d)] = open(p, 'rb').read()
            except OSError:
                out[os.path.relpath(p, d)] = None
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + '/'] = b''
    return out


def formatted(code, d):
    p = os.path.join(d, 'expected.rs')
    open(p, 'w').write(code)
    subprocess.run(['rustfmt', p], capture_output=True, timeout=120)
    return open(p, 'rb').read()


WRAPPERS = dict(plain='exec $real "$@"', noisy='echo warning: something >&2\n$real "$@"', status='$real "$@"\nexit 3', silent='exit 0', loud='i=0; while [ $i -lt 3000 ]; do echo "error: a long line of output that nobody reads, number $i" >&2; echo out $i; i=$((i+1)); done\n$real "$@"\nexit 1',
                reads='cat >/dev/null\nexec $real "$@"', slow='sleep 1\nexec $real "$@"')


def wrapper(top, name):
    """a directory with a rustfmt of our own (without the fault of the tool)"""
    w = os.path.join(top, 'bin-' + name)
    if not os.path.isdir(w):
        os.mkdir(w)
        p = os.path.join(w, 'rustfmt')
        open(p, 'w').write('#!/bin/sh\nunset LD_PRELOAD SHIM\nreal=%s\n%s\n' % (shutil.which('rustfmt'), WRAPPERS[name]))
        os.chmod(p, 0o755)
    return w


def text_of(c, i):
    """the content of an input as text, or None"""
    t = c.files.get(i, c.files.get(i[2:] if i.startswith('./') else i))
    if isinstance(t, bytes):
        try:
            return t.decode()
        except UnicodeDecodeError:
            return None
    return t


def judge(cs, tool=None):
    """-> (number of cases, [(description, mismatch)])"""
    from concurrent.futures import ThreadPoolExecutor
    tool = tool or build_tool()
    g = gen.Generator()
    top = tempfile.mkdtemp(prefix='c17-')
    bad = []
    n = 0
    try:
        shim = build_shim(top)
        cs = [c for c in cs if shim or not c.fault]
        os.mkdir(os.path.join(top, 'bin-empty'))
        for w in WRAPPERS:
            wrapper(top, w)
        # what the generator makes of the inputs
        code = {}
        asked = {}
        for c in cs:
            t = tuple(text_of(c, i) for i in c.inputs)
            if None not in t and c.want not in ('fail', 'untouched'):
                asked.setdefault(t, None)
        keys = sorted(asked)
        for k, a in zip(keys, g.run([list(k) for k in keys])):
            code[k] = a[1] if a[0] == 'ok' else None
        need = sorted({code[t] for c in cs for t in [tuple(text_of(c, i) for i in c.inputs)] if code.get(t) and (not c.ugly or callable(c.old))})
        with ThreadPoolExecutor(8) as ex:
            def one(k):
                d = os.path.join(top, 'f%d' % k)
                os.mkdir(d)
                return formatted(need[k], d)
            fmt = dict(zip(need, ex.map(one, range(len(need)))))
            for c, (done, m) in zip(cs, ex.map(lambda k: scenario(tool, top, shim, k, cs[k], code, fmt), range(len(cs)))):
                n += done
                if m:
                    bad.append((describe(c), m))
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', top])
        shutil.rmtree(top, ignore_errors=True)
    return n, bad


def scenario(tool, top, shim, k, c, code, fmt):
    """-> (1 if it was run, mismatch or None)"""
    made = code.get(tuple(text_of(c, i) for i in c.inputs))
    want = c.want
    if want == 'auto':
        want = 'untouched' if made is None else 'ok'
    if want in ('ok', 'may_fail') and made is None:
        return 0, None                                               # a matter of C15
    d = os.path.join(top, 'd%d' % k)
    os.mkdir(d)
    for nm, t in c.files.items():
        os.makedirs(os.path.dirname(os.path.join(d, nm)), exist_ok=True)
        open(os.path.join(d, nm), 'wb').write(t if isinstance(t, bytes) else t.encode())
    out = os.path.join(d, c.out)
    old = c.old
    if callable(old):
        m2 = made if made is not None else 'pub fn x() {}'
        old = old(m2, (fmt[made].decode() if made in fmt else m2))
    if c.state in ('link', 'dangling', 'hard'):
        real = os.path.join(d, 'real.rs')
        if c.state != 'dangling':
            open(real, 'w').write(old)
        os.symlink('real.rs', out) if c.state != 'hard' else os.link(real, out)
    elif c.state == 'dir':
        os.mkdir(out)
    elif old is not NOTHING:
        open(out, 'wb').write(old if isinstance(old, bytes) else old.encode())
        if c.state == 'readonly':
            os.chmod(out, 0o444)
    before = snapshot(d)
    e = dict(os.environ)
    if c.fault:
        e['LD_PRELOAD'], e['SHIM'] = shim, c.fault
    if c.path or c.fault:
        w = os.path.join(top, 'bin-' + (c.path or 'plain'))
        e['PATH'] = w if c.path == 'empty' else w + ':' + e['PATH']
    # its output goes to a file: a pipe would also wait for what the tool leaves running behind it
    with open(os.path.join(top, 'e%d' % k), 'w+b') as log:
        try:
            r = subprocess.run([tool] + [a.replace('{o}', c.out) for a in c.args], cwd=d, env=e, stdout=log, stderr=log, timeout=120, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return 1, 'no end within 120 s'
        log.seek(0)
        said = log.read().decode(errors='replace')[-200:]
    after = snapshot(d)
    m = None
    if want == 'untouched':
        if r.returncode == 0:
            m = 'the tool reports success'
        elif after != before:
            m = 'files changed: %s' % sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
    elif want == 'fail':
        if r.returncode == 0:
            m = 'the tool reports success'
    else:
        need = made.encode() if c.ugly or c.path == 'silent' else fmt[made]
        key = os.path.relpath(out, d)
        got = after.pop(key, None)
        before.pop(key, None)
        if c.state in ('link', 'dangling', 'hard'):
            after.pop('real.rs', None)
            before.pop('real.rs', None)
        if r.returncode != 0:
            if want == 'ok':
                m = 'the tool fails: ' + said
        elif got != need:
            m = 'the output file holds %s' % ('nothing' if got is None else '%d bytes instead of %d%s' % (len(got), len(need), ' (unformatted)' if got == made.encode() else ''))
        elif after != before:
            m = 'other files changed: %s' % sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
    shutil.rmtree(d, ignore_errors=True)
    return 1, m


def describe(c):
    return '%s: make_pluralrules %s%s%s' % (c.name, ' '.join(c.args)[:200].replace('{o}', c.out), '' if c.old is NOTHING and not c.state else ' (the output exists)', ' [%s]' % c.fault if c.fault else '')
