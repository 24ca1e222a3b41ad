"""Contract of the command line tool (C17) and its proof from the MIR of the binary.

The file system and the child process are ghost state: a trace of events kept in a memory cell, so that the loop rule of mirvc/tok.py
accounts for it.  The inputs are a list of unknown length of paths, each readable or not.

  readfail path | refused | create path | createfail | write path bytes | writefail | short | fmt path | fmtfail

main: on every path through the program
  - it ends with success only if the trace is  create out; write out CODE; fmt out  (without fmt if asked for unformatted code),
    where CODE is what generate_rs gives for the contents of all inputs in their order, and no call failed
  - it ends without success only if some call failed or generate_rs refused
  - if an input is not readable or is refused, the trace has no create and no write"""
import os, re
import z3
from mirvc import mir, sym, tok, stdc, autom as A
from mirvc.mir import Unsupported
from mirvc.sym import Agg, Ref, State, Leaf, Str, Opaque, norm_ty, strip_ref
from mirvc.tok import Seg, string, special, contract
from .common import REPO, emit_bin_mir
from .genvc import Broken
from . import tool

SRC = os.path.join(REPO, 'make_pluralrules', 'src')
ret = stdc.ret
IOERR = Opaque(('io::Error',))


class ToolEngine(tok.TokEngine):
    trace = None

    def event(self, st, *e):
        v = st.mem[self.trace]
        st.mem[self.trace] = Agg('Trace', None, v.fs + (Agg('event', None, e),))

    def written(self, st):
        # events of earlier rounds of a loop: `flat` admits only failed reads there
        return any(e.fs[0] in ('create', 'open', 'write', 'buffered') for e in st.mem[self.trace].fs if not special(e))


# ---- usage strings --------------------------------------------------------------------------------------
class Arg:
    def __init__(self, name):
        self.name, self.short, self.long, self.multiple, self.required, self.value = name, None, None, False, False, False

    def key(self):
        return (self.short, self.long, self.multiple, self.required, self.value)


def usage(line):
    """one line of args_from_usage (clap 2)"""
    m = re.match(r'^\s*([<\[])([\w-]+)[>\]]\s*(.*)$', line, re.S)
    if not m:
        raise Unsupported('usage ' + line)
    a = Arg(m.group(2))
    a.required = m.group(1) == '<'
    rest = re.sub(r"'[^']*'\s*$", '', m.group(3)).strip()
    m = re.match(r'^(?:-(\w))?\s*,?\s*(?:--([\w-]+))?\s*(?:[= ]\s*<(\w+)>)?(\.\.\.)?\s*$', rest)
    if not m or not (m.group(1) or m.group(2)):
        raise Unsupported('usage ' + line)
    a.short, a.long, a.value, a.multiple = m.group(1), m.group(2), bool(m.group(3)), bool(m.group(4))
    return a


def text_of(ex, st, v):
    s = stdc.as_str(ex, st, ex.deep(st, v))
    if s is None:
        raise Unsupported('text %r' % (v,))
    p = st.norm(s.ps)
    if all(isinstance(x, bytes) for x in p):
        return b''.join(p).decode()
    return None


def path_of(ex, st, v):
    v = ex.deep(st, v)
    while isinstance(v, Agg) and v.ty in ('Path', 'PathBuf', 'OsStr', 'OsString'):
        v = v.fs[0]
    s = stdc.as_str(ex, st, v)
    if s is None:
        raise Unsupported('path %r' % (v,))
    return st.norm(s.ps)


def setup(G):
    """engine with the contracts of clap, std::fs, std::process and generate_rs"""
    ex = ToolEngine(G.prog, G.structs, [])
    st = State()
    ex.trace = st.new(Agg('Trace', None, ()))
    path, content, out, code = (st.atom(n, A.UTF8) for n in ('path', 'content', 'output', 'code'))
    ok = z3.Bool('readable')
    n = [0]
    opened = z3.Bool('opened')                                       # there, but perhaps not readable as text
    paths = ex.bag('inputs', [ok, opened])
    ex.axioms.append(paths.count >= 1)
    ugly = z3.Bool('ugly')
    W = dict(path=path, content=content, out=out, code=code, paths=paths, ugly=ugly, args={}, ok=ok)
    T = {}

    def con(*keys):
        def deco(f):
            for k in keys:
                T[k] = f
            return f
        return deco

    # clap ---------------------------------------------------------------------------------------------
    @con('App::new', 'App::version', 'App::about', 'App::author', 'App::setting', 'App::global_setting', 'App::long_about')
    def _(ex, st, c, v):
        return ret(st, v[0] if c.method != 'new' else Agg('clap::App', None, (Opaque(('args',), ()),)))

    def with_args(app, new):
        return Agg('clap::App', None, (Opaque(('args',), app.fs[0].data + tuple(new)),))

    @con('App::args_from_usage')
    def _(ex, st, c, v):
        t = text_of(ex, st, v[1])
        if t is None:
            raise Unsupported('usage text')
        return ret(st, with_args(v[0], [usage(l) for l in t.split('\n') if l.strip()]))

    @con('App::arg_from_usage')
    def _(ex, st, c, v):
        return ret(st, with_args(v[0], [usage(text_of(ex, st, v[1]))]))

    @con('App::arg')
    def _(ex, st, c, v):
        a = v[1]
        if not (isinstance(a, Agg) and a.ty == 'clap::Arg'):
            raise Unsupported('App::arg')
        return ret(st, with_args(v[0], [a.fs[0].data]))

    @con('Arg::with_name', 'Arg::from_usage')
    def _(ex, st, c, v):
        t = text_of(ex, st, v[0])
        return ret(st, Agg('clap::Arg', None, (Opaque(('arg',), Arg(t) if c.method == 'with_name' else usage(t)),)))

    @con('Arg::short', 'Arg::long', 'Arg::help', 'Arg::value_name', 'Arg::required', 'Arg::takes_value', 'Arg::multiple')
    def _(ex, st, c, v):
        import copy
        a = copy.copy(v[0].fs[0].data)
        if c.method in ('short', 'long'):
            setattr(a, c.method, text_of(ex, st, v[1]).lstrip('-'))
        elif c.method == 'value_name':
            a.value = True
        elif c.method != 'help':
            b = v[1]
            if isinstance(b, z3.ExprRef):
                b = z3.simplify(b)
                b = True if z3.is_true(b) else False if z3.is_false(b) else None
            if not isinstance(b, bool):
                raise Unsupported('Arg::' + c.method)
            setattr(a, dict(takes_value='value').get(c.method, c.method), b)
        return ret(st, Agg('clap::Arg', None, (Opaque(('arg',), a),)))

    @con('App::get_matches')
    def _(ex, st, c, v):
        W['args'] = {a.name: a for a in v[0].fs[0].data}
        W['declared'] = sorted((a.key() for a in v[0].fs[0].data), key=repr)
        return ret(st, Agg('clap::ArgMatches', None, ()))

    def lookup(ex, st, v):
        nm = text_of(ex, st, v[1])
        a = W['args'].get(nm)
        if a is None:
            return None
        return a.long

    @con('ArgMatches::values_of')
    def _(ex, st, c, v):
        w = lookup(ex, st, v)
        if w is None:
            return ret(st, stdc.NONE)
        if w != 'input':
            raise Unsupported('values_of')
        return ret(st, stdc.some(Agg('Iter', None, ((Seg([(paths, True, (Str((path,)),))]),),))))

    @con('ArgMatches::value_of')
    def _(ex, st, c, v):
        w = lookup(ex, st, v)
        if w is None:
            return ret(st, stdc.NONE)
        if w == 'output':
            return ret(st, stdc.some(Str((out,))))
        raise Unsupported('value_of ' + str(w))

    @con('ArgMatches::is_present')
    def _(ex, st, c, v):
        w = lookup(ex, st, v)
        if w is None:
            return ret(st, z3.BoolVal(False))
        return ret(st, ugly if w == 'ugly' else z3.BoolVal(True) if w in ('input', 'output') else None)

    @con('ArgMatches::occurrences_of')
    def _(ex, st, c, v):
        raise Unsupported('occurrences_of')

    # files --------------------------------------------------------------------------------------------
    @con('Path::new', 'PathBuf::from', 'AsRef::as_ref', 'Path::to_path_buf', 'PathBuf::as_path', 'Path::to_owned')
    def _(ex, st, c, v):
        if c.method == 'as_ref' and 'Path' not in (c.trait or '') and 'OsStr' not in (c.trait or ''):
            return None
        return ret(st, v[0])

    def reading(ex, st, p, ok=ok):
        if ex.written(st):
            raise Unsupported('reading after writing')
        if p != st.norm((path,)):
            raise Unsupported('reading another file')
        out = []
        for b, s in zip((True, False), ex.branch(st, ok)):
            if s is None:
                continue
            if not b:
                ex.event(s, 'readfail')
            out.append((b, s))
        return out

    @con('fs::read_to_string')
    def _(ex, st, c, v):
        return [Leaf(s, 'return', stdc.ok(string(content)) if b else stdc.err(IOERR)) for b, s in reading(ex, st, path_of(ex, st, v[0]))]

    # in two steps: the file is there and can be read; what it holds is text
    @con('File::open', 'fs::read')
    def _(ex, st, c, v):
        p = path_of(ex, st, v[0])
        return [Leaf(s, 'return', stdc.ok(Agg('FileIn' if c.method == 'open' else 'RawText', None, (p,))) if b else stdc.err(IOERR)) for b, s in reading(ex, st, p, opened)]

    @con('Read::read_to_string')
    def _(ex, st, c, v):
        f = ex.deep(st, v[0])
        if not (isinstance(f, Agg) and f.ty == 'FileIn'):
            return None
        ref = v[0]
        while isinstance(ex.load(st, ref), Ref):
            ref = ex.load(st, ref)
        dst = v[1]
        while isinstance(ex.load(st, dst), Ref):
            dst = ex.load(st, dst)
        old = stdc.as_str(ex, st, ex.load(st, dst))
        if old is None:
            raise Unsupported('read_to_string')
        out = []
        for b, s in reading(ex, st, f.fs[0]):
            ex.store(s, ref, Agg('FileRead', None, ()))
            if b:
                ex.store(s, dst, string(*(tuple(old.ps) + (content,))))
            out.append(Leaf(s, 'return', stdc.ok(s.length((content,))) if b else stdc.err(IOERR)))
        return out

    @con('String::from_utf8', 'str::from_utf8')
    def _(ex, st, c, v):
        x = ex.deep(st, v[0])
        if not (isinstance(x, Agg) and x.ty == 'RawText'):
            return None
        t = string(content) if 'String' in c.key else Str((content,))
        return [Leaf(s, 'return', stdc.ok(t) if b else stdc.err(IOERR)) for b, s in reading(ex, st, x.fs[0])]

    def creating(ex, st, p):
        s1, s2 = st.fork(), st.fork()
        ex.event(s1, 'create', p)
        ex.event(s2, 'createfail')
        return s1, s2

    @con('File::create')
    def _(ex, st, c, v):
        p = path_of(ex, st, v[0])
        s1, s2 = creating(ex, st, p)
        return [Leaf(s1, 'return', stdc.ok(Agg('File', None, (p,)))), Leaf(s2, 'return', stdc.err(IOERR))]

    def bytes_of(ex, st, v):
        x = ex.deep(st, v)
        s = stdc.as_str(ex, st, x)
        if s is None and isinstance(x, Agg) and x.ty == 'bytes' and len(x.fs) == 1:
            s = stdc.as_str(ex, st, x.fs[0])
        if s is None:
            raise Unsupported('bytes %r' % (x,))
        return st.norm(s.ps)

    def writing(ex, st, p, b, how='write'):
        s1, s2 = st.fork(), st.fork()
        ex.event(s1, how, p, b)
        ex.event(s2, 'writefail')
        return s1, s2

    @con('Write::write_all')
    def _(ex, st, c, v):
        f = ex.deep(st, v[0])
        if not (isinstance(f, Agg) and f.ty in ('File', 'BufWriter')):
            return None
        buffered = f.ty == 'BufWriter'
        if buffered:
            f = f.fs[0]
        s1, s2 = writing(ex, st, f.fs[0], bytes_of(ex, st, v[1]), 'buffered' if buffered else 'write')
        return [Leaf(s1, 'return', stdc.ok(Agg('tuple', None, ()))), Leaf(s2, 'return', stdc.err(IOERR))]

    @con('Write::write_fmt')
    def _(ex, st, c, v):
        f = ex.deep(st, v[0])
        out = []
        for l in stdc.TABLE['fmt::format'](ex, st, stdc.Call('std::fmt::format', ['?'], 'String', None), [v[1]]):
            out += T['Write::write_all'](ex, l.st, c, [v[0], l.val]) or []
        return out or None

    @con('OpenOptions::new', 'File::options')
    def _(ex, st, c, v):
        return ret(st, Agg('OpenOptions', None, ()))

    @con('OpenOptions::write', 'OpenOptions::create', 'OpenOptions::truncate')
    def _(ex, st, c, v):
        b = v[1]
        b = z3.simplify(b) if isinstance(b, z3.ExprRef) else z3.BoolVal(bool(b))
        x = ex.load(st, v[0])
        if z3.is_true(b):
            ex.store(st, v[0], Agg('OpenOptions', None, x.fs + (c.method,)))
        elif not z3.is_false(b) or c.method in x.fs:
            raise Unsupported('open options')
        return ret(st, v[0])

    @con('OpenOptions::open')
    def _(ex, st, c, v):
        o = ex.deep(st, v[0])
        p = path_of(ex, st, v[1])
        s1, s2 = st.fork(), st.fork()
        ex.event(s1, 'create' if set(o.fs) == {'write', 'create', 'truncate'} else 'open', p)
        ex.event(s2, 'createfail')
        return [Leaf(s1, 'return', stdc.ok(Agg('File', None, (p,)))), Leaf(s2, 'return', stdc.err(IOERR))]

    # a buffered writer: what is written may stay in the buffer until flush; at the latest it is written, errors ignored, when dropped
    @con('BufWriter::new', 'BufWriter::with_capacity')
    def _(ex, st, c, v):
        f = v[-1]
        if not (isinstance(f, Agg) and f.ty == 'File'):
            raise Unsupported('BufWriter')
        return ret(st, Agg('BufWriter', None, (f,)))

    @con('Write::write')
    def _(ex, st, c, v):
        f = ex.deep(st, v[0])
        if not (isinstance(f, Agg) and f.ty == 'File'):
            return None
        s1, s2 = writing(ex, st, f.fs[0], bytes_of(ex, st, v[1]))
        s3 = st.fork()
        ex.event(s3, 'short')
        n = z3.Int(tok.fresh('written'))
        return [Leaf(s1, 'return', stdc.ok(n)), Leaf(s2, 'return', stdc.err(IOERR)), Leaf(s3, 'return', stdc.ok(n))]

    @con('Write::flush', 'File::sync_all', 'File::sync_data')
    def _(ex, st, c, v):
        s2 = st.fork()
        ex.event(s2, 'writefail')
        if c.method == 'flush' and ex.deep(st, v[0]).ty == 'BufWriter':
            st.mem[ex.trace] = Agg('Trace', None, [Agg('event', None, ('write',) + e.fs[1:]) if isinstance(e, Agg) and e.fs[0] == 'buffered' else e for e in st.mem[ex.trace].fs])
        return [Leaf(st, 'return', stdc.ok(Agg('tuple', None, ()))), Leaf(s2, 'return', stdc.err(IOERR))]

    @con('fs::write')
    def _(ex, st, c, v):
        p, b = path_of(ex, st, v[0]), bytes_of(ex, st, v[1])
        s1, s2 = creating(ex, st, p)
        s3, s4 = writing(ex, s1, p, b)
        U = Agg('tuple', None, ())
        return [Leaf(s2, 'return', stdc.err(IOERR)), Leaf(s3, 'return', stdc.ok(U)), Leaf(s4, 'return', stdc.err(IOERR))]

    # the generator ------------------------------------------------------------------------------------
    @con('make_pluralrules::generate_rs', 'generate_rs')
    def _(ex, st, c, v):
        r, seq = tok.seq_at(ex, st, v[0])
        fs = tuple(ex.deep(st, x) for x in seq.fs)
        good = len(fs) == 1 and isinstance(fs[0], Seg) and fs[0].order is None and len(fs[0].live()) == 1
        if good:
            b, g, its = fs[0].live()[0]
            good = b is paths and (g is True or ex.entails(st, ex.cnt(b, g) == b.count)) and len(its) == 1 and tok.same(strip_refs(ex, st, its[0]), string(content))
        if not good:
            raise Broken('generate_rs is called on something else than the contents of the inputs, in order', [])
        s2 = st.fork()
        ex.event(s2, 'refused')
        return [Leaf(st, 'return', string(code)), Leaf(s2, 'panic', 'refused')]

    @con('String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'String::as_str')
    def _(ex, st, c, v):
        s = stdc.as_str(ex, st, ex.deep(st, v[0]))
        return None if s is None else ret(st, s if c.method != 'into_bytes' else Agg('String', None, (s,)))

    # rustfmt ------------------------------------------------------------------------------------------
    @con('Command::new')
    def _(ex, st, c, v):
        return ret(st, Agg('Command', None, (Opaque(('cmd',), (text_of(ex, st, v[0]),)), Agg('Vec', None, ()))))

    def add_arg(ex, st, r, new):
        x = ex.load(st, r)
        ex.store(st, r, Agg('Command', None, (x.fs[0], Agg('Vec', None, x.fs[1].fs + tuple(new)))))

    @con('Command::arg')
    def _(ex, st, c, v):
        add_arg(ex, st, v[0], [string(*path_of(ex, st, v[1]))])
        return ret(st, v[0])

    @con('Command::args')
    def _(ex, st, c, v):
        x = ex.deep(st, v[1])
        if not (isinstance(x, Agg) and x.ty in ('array', 'Vec')) or any(special(i) for i in x.fs):
            raise Unsupported('Command::args')
        add_arg(ex, st, v[0], [string(*path_of(ex, st, i)) for i in x.fs])
        return ret(st, v[0])

    @con('Command::stdout', 'Command::stderr', 'Command::stdin')
    def _(ex, st, c, v):
        return ret(st, v[0])

    @con('Stdio::null', 'Stdio::inherit', 'Stdio::piped')
    def _(ex, st, c, v):
        if c.method == 'piped':                                      # rustfmt may then wait for somebody to read
            raise Unsupported('piped output')
        return ret(st, Opaque(('Stdio',)))

    @con('Command::output', 'Command::status')
    def _(ex, st, c, v):
        x = ex.deep(st, v[0])
        s2 = st.fork()
        ex.event(st, 'fmt', x.fs[0].data[0], tuple(path_of(ex, st, i) for i in x.fs[1].fs))
        ex.event(s2, 'fmtfail')
        return [Leaf(st, 'return', stdc.ok(Opaque(('Output',)))), Leaf(s2, 'return', stdc.err(IOERR))]

    # a process that is started has run when it has been waited for, with nothing done in between
    @con('Command::spawn')
    def _(ex, st, c, v):
        x = ex.deep(st, v[0])
        s2 = st.fork()
        ex.event(st, 'started', x.fs[0].data[0], tuple(path_of(ex, st, i) for i in x.fs[1].fs))
        ex.event(s2, 'fmtfail')
        return [Leaf(st, 'return', stdc.ok(Agg('Child', None, ()))), Leaf(s2, 'return', stdc.err(IOERR))]

    @con('Child::wait', 'Child::wait_with_output')
    def _(ex, st, c, v):
        s2 = st.fork()
        ex.event(st, 'waited')
        ex.event(s2, 'fmtfail')
        return [Leaf(st, 'return', stdc.ok(Opaque(('Output',)))), Leaf(s2, 'return', stdc.err(IOERR))]

    @con('process::exit')
    def _(ex, st, c, v):
        k = v[0]
        k = z3.simplify(k).as_long() if isinstance(k, z3.ExprRef) and z3.is_int_value(z3.simplify(k)) else k
        if not isinstance(k, int):
            raise Unsupported('exit status')
        ex.event(st, 'exit', k)
        return [Leaf(st, 'panic', 'exit %d' % k)]

    @con('io::_print', 'io::_eprint', 'stdio::_print', 'stdio::_eprint')
    def _(ex, st, c, v):
        return ret(st, Agg('tuple', None, ()))

    def pred(callee, tys, dty):
        try:
            return stdc.Call(callee, tys, dty, None).key in T
        except Unsupported:
            return False

    def go(ex, st, callee, vals, tys, dty):
        c = stdc.Call(callee, tys, dty, None)
        stdc.USED[c.key] = stdc.USED.get(c.key, 0) + 1
        return T[c.key](ex, st, c, vals)
    go.__name__ = 'contracts of clap, std::fs, std::process, generate_rs'
    ex.overrides.append((pred, go))
    return ex, st, W


def strip_refs(ex, st, v):
    return ex.deep(st, v)


WANT = sorted([('i', 'input', True, True, True), ('o', 'output', False, True, True), ('u', 'ugly', False, False, False)], key=repr)
FAULTS = ('createfail', 'writefail', 'short', 'fmtfail')


def succeeds(ex, st, v):
    """does this value of main mean status 0?"""
    v = ex.deep(st, v)
    if isinstance(v, Agg) and v.ty == 'Result':
        return v.var == 'Ok'
    if isinstance(v, Agg) and v.ty in ('tuple', '()') and not v.fs:
        return True
    raise Unsupported('result of main %r' % (v,))


def flat(ex, st, tr):
    """the events of a trace; what happens in a loop over the inputs at least once is listed once"""
    out = []
    for e in tr:
        if isinstance(e, Seg):
            for b, g, its in e.live():
                if not its or ex.entails(st, ex.cnt(b, g) == 0):
                    continue
                ev = flat(ex, st, its)
                if any(x[0] != 'readfail' for x in ev) or not ex.entails(st, ex.cnt(b, g) >= 1):
                    raise Unsupported('effects in a loop')
                out += ev
        elif isinstance(e, Agg) and e.ty == 'event':
            out.append(e.fs)
        elif not special(e):
            raise Unsupported('trace %r' % (e,))
    return out


def waited(ev):
    out = []
    for e in ev:
        if e[0] == 'waited' and out and out[-1][0] == 'started':
            out[-1] = ('fmt',) + tuple(out[-1][1:])
        else:
            out.append(e)
    return out


def prove_main(G):
    ck = G.ck
    mains = [f for f in G.prog.fns if f.kind == 'fn' and f.name == 'main']
    if len(mains) != 1:
        raise Unsupported('main')
    ex, st, W = setup(G)
    leaves = ex.run(mains[0], [], st)
    G.done(ex)
    ck.functions.add('main')
    if 'declared' not in W:
        raise Unsupported('no argument parser')
    if W['declared'] != WANT:
        raise Broken('declared arguments %s' % (W['declared'],), [])
    ck.ok('arguments: -i/--input one or more, -o/--output one, -u/--ugly flag')
    out, code = st.norm((W['out'],)), st.norm((W['code'],))
    for n, l in enumerate(leaves):
        if l.kind == 'unreachable':
            continue
        prem = ex.axioms + [c for c in l.st.pc if z3.is_expr(c)]
        tr = l.st.mem[ex.trace].fs
        nm = 'main, path %d' % n
        ev = waited(flat(ex, l.st, tr))
        kinds = [e[0] for e in ev]
        if ('exit' in kinds) and ev[-1][1] == 0 or l.kind == 'return' and succeeds(ex, l.st, l.val):
            good = []
            for u in (True, False):
                want = [('create', out), ('write', out, code)] + ([] if u else [('fmt', 'rustfmt', (out,))])
                good.append([e for e in ev if e[0] != 'exit'] == want)
            g = z3.And(z3.Implies(W['ugly'], z3.BoolVal(good[0])), z3.Implies(z3.Not(W['ugly']), z3.BoolVal(good[1])))
            m = ck.prove(nm + ': success only with the code in the output, formatted unless asked otherwise', prem, g)
            if m is not None:
                raise Broken('main ends with success after %s' % show(ev), [])
        elif l.kind in ('return', 'panic'):
            if not any(k in FAULTS or k in ('readfail', 'refused') for k in kinds):
                m = ck.prove(nm + ': failure only after a failed call', prem, z3.BoolVal(False))
                if m is not None:
                    raise Broken('main fails (%s) after %s' % (l.val, show(ev)), [])
            else:
                ck.ok(nm + ': fails after %s' % kinds[-1], 'symbolic execution')
            if 'readfail' in kinds or 'refused' in kinds:
                if any(k in ('create', 'open', 'write', 'buffered', 'short', 'fmt', 'started', 'createfail', 'writefail') for k in kinds):
                    raise Broken('files are touched although an input is unreadable or refused: %s' % show(ev), [])
                ck.ok(nm + ': nothing is touched', 'symbolic execution')
        else:
            raise Unsupported('path ' + l.kind)


def show(ev):
    return ', '.join(str(e[0]) for e in ev) or 'nothing'


class Main:
    def __init__(self, ck):
        import time
        self.ck = ck
        t = time.time()
        self.text = emit_bin_mir('gen', 'make_pluralrules', 'make_pluralrules')
        self.prog = mir.Program(self.text, SRC)
        self.structs = dict(mir.parse_structs(SRC))
        ck.extra['mir_s'] = round(time.time() - t, 2)

    def done(self, ex):
        self.ck.functions |= {n for n in ex.unfolded}
        self.ck.contracts_used |= set(stdc.USED)
        for n, k in ex.loops.items():
            d = self.ck.extra.setdefault('loops_by_rule', {})
            d[n] = d.get(n, 0) + k


def check(ck, judged):
    """judged() -> (number of cases, mismatches) of the real tool"""
    def go():
        G = Main(ck)
        try:
            prove_main(G)
        except Broken as e:
            n, bad = judged()
            if bad:
                ck.fail('main', e.what, [(bad[0][0], lambda: bad[0][1])])
            else:
                ck.fail('main', '%s (not seen in %d scenarios of the real tool)' % (e.what, n), [])
    ck.part('contract of main', go)
