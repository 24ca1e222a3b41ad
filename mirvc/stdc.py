"""Contracts assumed on library functions (std, unic-langid).  Each entry gives the complete list of
outcomes of a call; a function without an entry is `Unsupported`."""
import re
import z3
from .mir import Unsupported
from . import autom as A
from .sym import (_ids, Agg, Atom, Ref, FnItem, Closure, Opaque, F, Str, Leaf, UNIT, INT_RANGE, Infeasible, conj, disj, neg, f_cmp, wrap,
                  path_segments, strip_generics, generic_args, norm_ty, strip_ref, base_ty, INF, ANY)

USED = {}


def some(v): return Agg('Option', 'Some', (v,))
NONE = Agg('Option', 'None', ())
def ok(v): return Agg('Result', 'Ok', (v,))
def err(v): return Agg('Result', 'Err', (v,))
def ret(st, v): return [Leaf(st, 'return', v)]
def panic(st, msg): return Leaf(st, 'panic', msg)


class Call:
    def __init__(self, callee, tys, dty, fn):
        self.callee, self.tys, self.dty, self.fn = callee, tys, dty, fn
        m = re.match(r'^<(.*) as (.*?)>::([\w]+)(?:::<(.*)>)?$', callee, re.S)
        self.selfty = self.trait = None
        if m:
            # the `as` must be the top-level one
            inner = callee[1:_close_as(callee)]
            k = _top_as(inner)
            self.selfty, self.trait = inner[:k], inner[k + 4:]
            tail = callee[_close_as(callee) + 1:].lstrip(':')
            self.method = strip_generics(tail)
            self.margs = generic_args(tail) if '<' in tail else []
            self.key = '%s::%s' % (base_ty(self.trait), self.method)
            self.targs = generic_args(self.trait)
        else:
            segs = path_segments(callee)
            self.method = strip_generics(segs[-1])
            self.margs = generic_args(segs[-1]) if '<' in segs[-1] else []
            own = segs[-2] if len(segs) > 1 else ''
            mi = re.match(r'^(?:\w+::)?<impl (.*)>$', own, re.S)
            if mi:
                t = mi.group(1)
                if t.startswith('['):
                    own = 'slice'
                elif re.match(r'^\w+$', t):
                    own = t
                else:
                    own = base_ty(t)
                self.selfty = t
            else:
                self.selfty = own
                g = re.match(r'^(\w+)(?:::)?(<.*>)?$', own, re.S)
                own = g.group(1) if g else own
            self.key = '%s::%s' % (own, self.method) if own else self.method
            self.targs = generic_args(self.selfty) if '<' in (self.selfty or '') else []


def _close_as(c):
    from .mir import find_close
    return find_close(c, 0)


def _top_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
    raise Unsupported('no `as` in ' + s[:80])


TABLE = {}


def contract(*keys):
    def deco(f):
        for k in keys:
            TABLE[k] = f
        return f
    return deco


INTS = set(INT_RANGE) - {'char'}


def call(ex, st, callee, vals, tys, dty, fn):
    c = Call(callee, tys, dty, fn)
    own = c.key.split('::')[0]
    keys = [c.key]
    if own in INTS:
        keys.append('int::' + c.method)
    if own in ('f64', 'f32'):
        keys.append('float::' + c.method)
    for k in keys:
        if k in TABLE:
            USED[k] = USED.get(k, 0) + 1
            r = TABLE[k](ex, st, c, vals)
            if r is not None:
                return r
    raise Unsupported('no contract for `%s`' % callee[:200])


def call_opaque(ex, st, fv, args):
    """an unknown but fixed function: equal arguments give the same result"""
    return ret(st, Opaque(('apply', fv.tag, tuple(show(ex.deep(st, a)) for a in args)), [ex.deep(st, a) for a in args]))


def show(v):
    return repr(v)


def seq_items(ex, st, v):
    """items of a Vec / array / slice reached through references -> (Ref to sequence, Agg)"""
    r = v
    while isinstance(r, Ref):
        x = ex.load(st, r)
        if isinstance(x, Agg) and x.ty in ('array', 'Vec', 'bytes'):
            return r, x
        if isinstance(x, Agg) and x.ty == 'Box':
            r = x.fs[0]; continue
        r = x
    if isinstance(r, Agg) and r.ty in ('array', 'Vec', 'bytes'):
        return None, r
    raise Unsupported('not a sequence: %r' % (r,))


# ---- equality --------------------------------------------------------------------------------
LANG = {}


def langid_code(v):
    if v.names == ('__code',):
        return v.fs[0]
    k = repr(v)
    return LANG.setdefault(k, len(LANG) + 1)


def veq(ex, st, a, b):
    a, b = ex.deep(st, a), ex.deep(st, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.ty == 'LanguageIdentifier' and b.ty == 'LanguageIdentifier':
            return langid_code(a) == langid_code(b)
        if a.var != b.var:
            return False
        if len(a.fs) != len(b.fs):
            return False
        return conj(*[veq(ex, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, F):
        return f_cmp('Eq', a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        x, y = st.norm(a.ps), st.norm(b.ps)
        if x == y:
            return True
        if all(isinstance(p, bytes) for p in x + y):
            return False
        raise Unsupported('string equality')
    if isinstance(a, (bool, int)) or z3.is_expr(a):
        r = a == b
        return r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a == b:
            return True
    raise Unsupported('equality of %r and %r' % (a, b))


def fork_bool(ex, st, c, t, f):
    """outcomes t / f (functions of state) under condition c"""
    a, b = ex.branch(st, c)
    out = []
    if a is not None:
        out += ret(a, t)
    if b is not None:
        out += ret(b, f)
    return out


@contract('PartialEq::eq')
def _(ex, st, c, v):
    a, b = ex.deep(st, v[0]), ex.deep(st, v[1])
    sa, sb = as_str(ex, st, a), as_str(ex, st, b)
    if sa is not None and sb is not None:
        return str_eq(ex, st, sa, sb, False)
    return ret(st, veq(ex, st, v[0], v[1]))


@contract('PartialEq::ne')
def _(ex, st, c, v):
    a, b = ex.deep(st, v[0]), ex.deep(st, v[1])
    sa, sb = as_str(ex, st, a), as_str(ex, st, b)
    if sa is not None and sb is not None:
        return str_eq(ex, st, sa, sb, True)
    return ret(st, neg(veq(ex, st, v[0], v[1])))


def as_str(ex, st, v):
    if isinstance(v, Str):
        return v
    if isinstance(v, Agg) and v.ty == 'String':
        return v.fs[0]
    return None


def str_eq(ex, st, a, b, ne):
    x, y = st.norm(a.ps), st.norm(b.ps)
    if x == y:
        return ret(st, not ne)
    if all(isinstance(p, bytes) for p in x):
        x, y = y, x
    if not all(isinstance(p, bytes) for p in y):
        raise Unsupported('string equality')
    d = A.lit_dfa(b''.join(y))
    out = []
    for s in st.restrict(x, d):
        out += ret(s, not ne)
    for s in st.restrict(x, A.compl(d)):
        out += ret(s, ne)
    return out


for _op, _k in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    def _mk(k):
        def f(ex, st, c, v):
            a, b = ex.deep(st, v[0]), ex.deep(st, v[1])
            if isinstance(a, F):
                return ret(st, f_cmp(k, a, b))
            if not (isinstance(a, int) or z3.is_expr(a)):
                raise Unsupported('comparison of %r' % (a,))
            return ret(st, {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[k]())
        return f
    TABLE['PartialOrd::' + _op] = _mk(_k)


@contract('Ord::cmp', 'PartialOrd::partial_cmp')
def _(ex, st, c, v):
    a, b = ex.deep(st, v[0]), ex.deep(st, v[1])
    w = (lambda x: some(x)) if c.method == 'partial_cmp' else (lambda x: x)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty == 'LanguageIdentifier' and c.method == 'cmp':
        return ret(st, Opaque(('langcmp', repr(a), repr(b)), (a, b)))
    if isinstance(a, F) or not ((isinstance(a, int) or z3.is_arith(a)) and (isinstance(b, int) or z3.is_arith(b))):
        raise Unsupported('cmp of %r' % (a,))
    out = []
    lt, rest = ex.branch(st, a < b)
    if lt is not None:
        out += ret(lt, w(Agg('Ordering', 'Less', ())))
    if rest is not None:
        eq, gt = ex.branch(rest, a == b)
        if eq is not None:
            out += ret(eq, w(Agg('Ordering', 'Equal', ())))
        if gt is not None:
            out += ret(gt, w(Agg('Ordering', 'Greater', ())))
    return out


for _nm, _set in (('is_eq', ('Equal',)), ('is_ne', ('Less', 'Greater')), ('is_lt', ('Less',)), ('is_gt', ('Greater',)),
                  ('is_le', ('Less', 'Equal')), ('is_ge', ('Greater', 'Equal'))):
    def _mk(s):
        return lambda ex, st, c, v: ret(st, ex.deep(st, v[0]).var in s)
    TABLE['Ordering::' + _nm] = _mk(_set)


@contract('Ordering::reverse')
def _(ex, st, c, v):
    return ret(st, Agg('Ordering', {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[v[0].var], ()))


@contract('intrinsics::discriminant_value')
def _(ex, st, c, v):
    return ret(st, ex.discr(ex.deep(st, v[0])))


@contract('mem::discriminant')
def _(ex, st, c, v):
    return ret(st, Agg('Discriminant', None, (ex.discr(ex.deep(st, v[0])),)))


# ---- Option / Result -------------------------------------------------------------------------
def on_variant(good):
    pass


def each(leaves, f):
    out = []
    for l in leaves:
        if l.kind == 'return':
            out += ret(l.st, f(l.val))
        else:
            out.append(l)
    return out


@contract('Result::map', 'Option::map')
def _(ex, st, c, v):
    x = v[0]
    if x.var in ('Ok', 'Some'):
        return each(ex.call_value(st, v[1], [x.fs[0]]), lambda r: Agg(x.ty, x.var, (r,)))
    return ret(st, x)


@contract('Result::map_err')
def _(ex, st, c, v):
    x = v[0]
    if x.var == 'Err':
        return each(ex.call_value(st, v[1], [x.fs[0]]), err)
    return ret(st, x)


@contract('Result::and_then', 'Option::and_then')
def _(ex, st, c, v):
    x = v[0]
    if x.var in ('Ok', 'Some'):
        return ex.call_value(st, v[1], [x.fs[0]])
    return ret(st, x)


@contract('Result::or_else')
def _(ex, st, c, v):
    x = v[0]
    if x.var == 'Err':
        return ex.call_value(st, v[1], [x.fs[0]])
    return ret(st, x)


@contract('Option::or_else')
def _(ex, st, c, v):
    return ex.call_value(st, v[1], []) if v[0].var == 'None' else ret(st, v[0])


@contract('Option::or', 'Result::or')
def _(ex, st, c, v):
    return ret(st, v[0] if v[0].var in ('Some', 'Ok') else v[1])


@contract('Option::and', 'Result::and')
def _(ex, st, c, v):
    return ret(st, v[1] if v[0].var in ('Some', 'Ok') else v[0])


@contract('Option::filter')
def _(ex, st, c, v):
    if v[0].var == 'None':
        return ret(st, NONE)
    x = v[0]
    out = []
    for l in ex.call_value(st, v[1], [Ref(st.new(x.fs[0]))]):
        if l.kind != 'return':
            out.append(l); continue
        out += fork_bool(ex, l.st, l.val, x, NONE)
    return out


@contract('Option::ok_or')
def _(ex, st, c, v):
    return ret(st, ok(v[0].fs[0]) if v[0].var == 'Some' else err(v[1]))


@contract('Option::ok_or_else')
def _(ex, st, c, v):
    if v[0].var == 'Some':
        return ret(st, ok(v[0].fs[0]))
    return each(ex.call_value(st, v[1], []), err)


@contract('Result::ok')
def _(ex, st, c, v):
    return ret(st, some(v[0].fs[0]) if v[0].var == 'Ok' else NONE)


@contract('Result::err')
def _(ex, st, c, v):
    return ret(st, some(v[0].fs[0]) if v[0].var == 'Err' else NONE)


@contract('Result::unwrap_or', 'Option::unwrap_or')
def _(ex, st, c, v):
    return ret(st, v[0].fs[0] if v[0].var in ('Ok', 'Some') else v[1])


@contract('Result::unwrap_or_else', 'Option::unwrap_or_else')
def _(ex, st, c, v):
    if v[0].var in ('Ok', 'Some'):
        return ret(st, v[0].fs[0])
    return ex.call_value(st, v[1], [v[0].fs[0]] if v[0].var == 'Err' else [])


def default_of(ty):
    ty = ty.strip()
    if ty in INTS:
        return 0
    if ty == 'bool':
        return False
    if ty == 'f64':
        return F(z3.RealVal(0))
    if ty == '&str':
        return Str(())
    raise Unsupported('Default of ' + ty)


@contract('Result::unwrap_or_default', 'Option::unwrap_or_default')
def _(ex, st, c, v):
    if v[0].var in ('Ok', 'Some'):
        return ret(st, v[0].fs[0])
    return ret(st, default_of(c.dty))


@contract('Default::default')
def _(ex, st, c, v):
    return ret(st, default_of(c.selfty))


@contract('Result::unwrap', 'Option::unwrap', 'Result::expect', 'Option::expect')
def _(ex, st, c, v):
    if v[0].var in ('Ok', 'Some'):
        return ret(st, v[0].fs[0])
    return [panic(st, c.method + ' on ' + v[0].var)]


@contract('Result::is_ok', 'Option::is_some')
def _(ex, st, c, v):
    return ret(st, ex.deep(st, v[0]).var in ('Ok', 'Some'))


@contract('Result::is_err', 'Option::is_none')
def _(ex, st, c, v):
    return ret(st, ex.deep(st, v[0]).var in ('Err', 'None'))


@contract('Option::is_some_and', 'Result::is_ok_and')
def _(ex, st, c, v):
    if v[0].var in ('Some', 'Ok'):
        return ex.call_value(st, v[1], [v[0].fs[0]])
    return ret(st, False)


@contract('Option::is_none_or')
def _(ex, st, c, v):
    if v[0].var == 'Some':
        return ex.call_value(st, v[1], [v[0].fs[0]])
    return ret(st, True)


@contract('Option::map_or', 'Result::map_or')
def _(ex, st, c, v):
    if v[0].var in ('Some', 'Ok'):
        return ex.call_value(st, v[2], [v[0].fs[0]])
    return ret(st, v[1])


@contract('Option::map_or_else', 'Result::map_or_else')
def _(ex, st, c, v):
    if v[0].var in ('Some', 'Ok'):
        return ex.call_value(st, v[2], [v[0].fs[0]])
    return ex.call_value(st, v[1], [v[0].fs[0]] if v[0].var == 'Err' else [])


@contract('Option::as_ref', 'Result::as_ref', 'Option::as_mut')
def _(ex, st, c, v):
    r = v[0]
    x = ex.load(st, r)
    while isinstance(x, Ref):
        r = x
        x = ex.load(st, r)
    if x.var in ('None',):
        return ret(st, NONE)
    return ret(st, Agg(x.ty, x.var, (Ref(r.cell, r.path + (0,)),)))


@contract('Option::copied', 'Option::cloned')
def _(ex, st, c, v):
    return ret(st, NONE if v[0].var == 'None' else some(ex.load(st, v[0].fs[0])))


@contract('Option::as_deref')
def _(ex, st, c, v):
    x = ex.deep(st, v[0])
    if x.var == 'None':
        return ret(st, NONE)
    s = as_str(ex, st, x.fs[0])
    if s is None:
        raise Unsupported('as_deref')
    return ret(st, some(s))


@contract('Try::branch')
def _(ex, st, c, v):
    x = v[0]
    if x.var in ('Ok', 'Some'):
        return ret(st, Agg('ControlFlow', 'Continue', (x.fs[0],)))
    return ret(st, Agg('ControlFlow', 'Break', (x,)))


@contract('Try::from_output')
def _(ex, st, c, v):
    return ret(st, Agg(base_ty(c.selfty), {'Result': 'Ok', 'Option': 'Some'}[base_ty(c.selfty)], (v[0],)))


@contract('FromResidual::from_residual')
def _(ex, st, c, v):
    x = v[0]
    if x.var == 'None':
        return ret(st, NONE)
    # From<E> for E is the identity; other conversions are not assumed
    if x.var == 'Err':
        a = generic_args(c.selfty)
        b = generic_args(c.targs[0]) if c.targs else []
        if len(a) == 2 and len(b) == 2 and norm_ty(a[1]) == norm_ty(b[1]):
            return ret(st, x)
        return each(ex.call(st, '<%s as std::convert::From<%s>>::from' % (a[1], b[1]), [x.fs[0]], [b[1]], a[1], c.fn), err)
    raise Unsupported('from_residual')


# ---- conversions -----------------------------------------------------------------------------
@contract('Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow')
def _(ex, st, c, v):
    if c.method == 'borrow':
        return ret(st, v[0])
    x = ex.load(st, v[0]) if isinstance(v[0], Ref) else v[0]
    if c.method == 'to_owned':
        s = as_str(ex, st, x)
        if s is not None:
            return ret(st, Agg('String', None, (s,)))
    return ret(st, x)


@contract('Into::into', 'From::from')
def _(ex, st, c, v):
    if c.trait and base_ty(c.trait) == 'Into':
        src, dst = c.selfty, c.targs[0]
    else:
        src, dst = (c.targs[0] if c.targs else '?'), c.selfty
    x = v[0]
    if isinstance(x, Opaque) and x.tag[0] == 'generic':
        return ret(st, x.data)
    if norm_ty(src) == norm_ty(dst):
        return ret(st, x)
    if src in INT_RANGE and dst in INT_RANGE:
        return ret(st, x)
    if src in INTS and dst == 'f64' and src in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32'):
        return ret(st, F(st.to_double(x), False, x < 0))
    if src == 'f32' and dst == 'f64':
        return ret(st, x)
    s = as_str(ex, st, x)
    if s is not None and base_ty(dst) == 'String':
        return ret(st, Agg('String', None, (s,)))
    if ex.local_type(dst) and c.trait and base_ty(c.trait) == 'Into':
        return ex.call(st, '<%s as std::convert::From<%s>>::from' % (dst, src), v, [src], dst, c.fn)
    if norm_ty(dst).replace(' ', '').startswith(('Box<dynError', 'std::boxed::Box<dynstd::error::Error', 'Box<dynstd::error::Error')):
        return ret(st, Opaque(('Box<dyn Error>',)))
    raise Unsupported('conversion %s -> %s' % (src, dst))


@contract('TryInto::try_into', 'TryFrom::try_from')
def _(ex, st, c, v):
    x = v[0]
    if isinstance(x, Opaque) and x.tag[0] == 'generic':
        out = []
        for val in x.data:
            s = st.fork()
            s.ghost['conversion'] = val
            out += ret(s, val)
        return out
    if c.trait and base_ty(c.trait) == 'TryInto':
        src, dst = c.selfty, c.targs[0]
    else:
        src, dst = (c.targs[0] if c.targs else '?'), c.selfty
    if src in INTS and dst in INTS:
        lo, hi = INT_RANGE[dst]
        return fork_bool(ex, st, conj(x >= lo, x <= hi), ok(x), err(Opaque(('TryFromIntError',))))
    if ex.local_type(dst):
        for tr in ('TryFrom', 'From'):
            nm = '<%s as std::convert::%s<%s>>::%s' % (dst, tr, src, 'try_from' if tr == 'TryFrom' else 'from')
            f = ex.resolve(nm, [src], '?', v)
            if f is not None:
                ex.unfolded.add(f.name)
                r = ex.run(f, v, st)
                return r if tr == 'TryFrom' else each(r, ok)
    raise Unsupported('conversion %s -> %s' % (src, dst))


@contract('AsRef::as_ref', 'Deref::deref', 'String::as_str', 'DerefMut::deref_mut', 'str::as_ref', 'String::as_ref', 'Vec::as_slice')
def _(ex, st, c, v):
    x = ex.deep(st, v[0])
    if isinstance(x, Opaque) and x.tag[0] == 'generic':
        return ret(st, x.data)
    s = as_str(ex, st, x)
    if s is not None:
        return ret(st, s)
    r = v[0]
    while isinstance(r, Ref):
        y = ex.load(st, r)
        if isinstance(y, Agg) and y.ty in ('Vec', 'array'):
            return ret(st, r)
        if isinstance(y, Agg) and y.ty == 'Box':
            return ret(st, y.fs[0])
        r = y
    raise Unsupported('deref of %r' % (x,))


@contract('ToString::to_string')
def _(ex, st, c, v):
    x = ex.deep(st, v[0])
    s = as_str(ex, st, x)
    if s is not None:
        return ret(st, Agg('String', None, (s,)))
    if isinstance(x, int) and not isinstance(x, bool) and c.selfty in INTS:
        return ret(st, Agg('String', None, (Str((str(x).encode(),)),)))
    if isinstance(x, int) and c.selfty == 'char':
        return ret(st, Agg('String', None, (Str((chr(x).encode(),)),)))
    if c.selfty in INTS and z3.is_expr(x):
        return [Leaf(s, 'return', Agg('String', None, (Str(ps),))) for s, ps in display_int(ex, st, x)]
    if isinstance(x, F):
        return [Leaf(s, 'return', Agg('String', None, (Str(ps),))) for s, ps in display_float(ex, st, x, c.selfty)]
    if isinstance(x, Opaque) and x.tag[0] in ('Box<dyn Error>', 'io::Error', 'ParseIntError', 'ParseFloatError'):
        m = st.atom('M', A.UTF8)                   # the message of an error: any text
        return ret(st, Agg('String', None, (Str((m,)),)))
    raise Unsupported('to_string of %r' % (x,))


CANON = A.compile_re(A.alt(A.ch(ord('0')), A.cat(A.rng('1', '9'), A.star(A.DIGIT))))
FRACT = A.compile_re(A.cat(A.star(A.DIGIT), A.rng('1', '9')))


def display_int(ex, st, x):
    """decimal numeral without leading zeros denoting x"""
    out = []
    a, b = ex.branch(st, x >= 0)
    for s, sign in ((a, b''), (b, b'-')):
        if s is None:
            continue
        d = s.atom('D', CANON); s.set_lang(d, CANON)
        s.assume(s.const('NUM', (d,)) == (x if not sign else -x))
        s.assume(s.length((d,)) < 50)
        out.append((s, ((sign,) if sign else ()) + (d,)))
    return out


def display_float(ex, st, x, ty):
    """Display of a finite float (assumed): the shortest decimal numeral that reads back as the same float, written without
    exponent, without leading zeros in the integer part or trailing zeros in the fraction, at most 17 significant digits,
    with a fraction exactly when the value is not integral; exact for integers below 2^53 (f32: 2^24); under 1100 bytes.
    For f32 the numeral denotes the f32; its nearest double is left open."""
    if x.nan is not False:
        raise Unsupported('Display of a possibly NaN float')
    out = []
    a, b = ex.branch(st, neg(x.neg)) if not isinstance(x.neg, bool) else ((st, None) if not x.neg else (None, st))
    for s0, sign in ((a, b''), (b, b'-')):
        if s0 is None:
            continue
        mag = x.val if not sign else -x.val
        for frac in (False, True):
            s = s0.fork()
            d = s.atom('D', CANON); s.set_lang(d, CANON)
            ps = (d,)
            nd = s.const('NUM', (d,))
            if frac:
                e = s.atom('E', FRACT); s.set_lang(e, FRACT)
                ps = (d, b'.', e)
                s.assume(s.const('NUM', (e,)) < 10 ** 17)
                s.assume(nd < 10 ** 17)
            integral = z3.IsInt(x.val)
            s.assume(z3.Not(integral) if frac else integral)
            s.assume(s.length(ps) < 1100)
            if not frac:
                lim = 2 ** 53 if ty == 'f64' else 2 ** 24
                s.assume(z3.Implies(mag < lim, z3.ToReal(nd) == mag))
            if ty == 'f64':
                s.assume(s.const('DBL', ps) == mag)
            s.ghost['display'] = ps
            s.ghost['displayed'] = (mag, ty)
            if ex.feasible(s):
                out.append((s, ((sign,) if sign else ()) + ps))
    return out


# ---- integers --------------------------------------------------------------------------------
def own_int(c):
    t = c.key.split('::')[0]
    return t if t in INT_RANGE else (c.selfty if c.selfty in INT_RANGE else None)


@contract('int::checked_abs')
def _(ex, st, c, v):
    lo, hi = INT_RANGE[own_int(c)]
    x = v[0]
    out = []
    a, b = ex.branch(st, x == lo)
    if a is not None:
        out += ret(a, NONE)
    if b is not None:
        out += ret(b, some(abs(x) if isinstance(x, int) else z3.If(x < 0, -x, x)))
    return out


@contract('int::unsigned_abs')
def _(ex, st, c, v):
    x = v[0]
    return ret(st, abs(x) if isinstance(x, int) else z3.If(x < 0, -x, x))


@contract('int::wrapping_abs')
def _(ex, st, c, v):
    x = v[0]
    return ret(st, wrap(abs(x) if isinstance(x, int) else z3.If(x < 0, -x, x), own_int(c)))


@contract('int::saturating_abs')
def _(ex, st, c, v):
    x = v[0]
    lo, hi = INT_RANGE[own_int(c)]
    return ret(st, min(abs(x), hi) if isinstance(x, int) else z3.If(x < 0, z3.If(x == lo, z3.IntVal(hi), -x), x))


@contract('int::abs')
def _(ex, st, c, v):
    x = v[0]
    lo, hi = INT_RANGE[own_int(c)]
    a, b = ex.branch(st, x == lo)
    out = []
    if a is not None:
        out.append(panic(a, 'abs overflow'))
    if b is not None:
        out += ret(b, abs(x) if isinstance(x, int) else z3.If(x < 0, -x, x))
    return out


def _arith(op, a, b):
    if op == 'mul' and z3.is_expr(a) and z3.is_expr(b):
        raise Unsupported('nonlinear')
    return a + b if op == 'add' else a - b if op == 'sub' else a * b


for _o in ('add', 'sub', 'mul', 'neg'):
    def _mk(o):
        def res(v):
            return -v[0] if o == 'neg' else _arith(o, v[0], v[1])

        def chk(ex, st, c, v):
            lo, hi = INT_RANGE[own_int(c)]
            r = res(v)
            return fork_bool(ex, st, conj(r >= lo, r <= hi), some(r), NONE)

        def wr(ex, st, c, v):
            return ret(st, wrap(res(v), own_int(c)))

        def sat(ex, st, c, v):
            lo, hi = INT_RANGE[own_int(c)]
            r = res(v)
            if isinstance(r, int):
                return ret(st, max(lo, min(hi, r)))
            return ret(st, z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r)))

        def ovf(ex, st, c, v):
            lo, hi = INT_RANGE[own_int(c)]
            r = res(v)
            return ret(st, Agg('tuple', None, (wrap(r, own_int(c)), disj(r < lo, r > hi))))
        return chk, wr, sat, ovf
    _c, _w, _s, _v = _mk(_o)
    TABLE['int::checked_' + _o], TABLE['int::wrapping_' + _o] = _c, _w
    TABLE['int::saturating_' + _o], TABLE['int::overflowing_' + _o] = _s, _v


@contract('int::pow')
def _(ex, st, c, v):
    if isinstance(v[0], int) and isinstance(v[1], int):
        r = v[0] ** v[1]
        lo, hi = INT_RANGE[own_int(c)]
        return ret(st, r) if lo <= r <= hi else [panic(st, 'pow overflow')]
    raise Unsupported('pow')


@contract('int::rem_euclid')
def _(ex, st, c, v):
    if isinstance(v[1], int) and v[1] > 0:
        return ret(st, v[0] % v[1])
    raise Unsupported('rem_euclid')


@contract('int::is_positive')
def _(ex, st, c, v): return ret(st, v[0] > 0)


@contract('int::is_negative')
def _(ex, st, c, v): return ret(st, v[0] < 0)


@contract('int::is_multiple_of')
def _(ex, st, c, v):
    if isinstance(v[1], int) and v[1] > 0:
        return ret(st, v[0] % v[1] == 0)
    raise Unsupported('is_multiple_of')


@contract('Ord::min', 'Ord::max', 'cmp::min', 'cmp::max')
def _(ex, st, c, v):
    a, b = v
    if not all(isinstance(x, int) or z3.is_arith(x) for x in v):
        raise Unsupported(c.method)
    if isinstance(a, int) and isinstance(b, int):
        return ret(st, min(a, b) if c.method == 'min' else max(a, b))
    return ret(st, z3.If((a <= b) if c.method == 'min' else (a >= b), a, b))


# ---- floats ----------------------------------------------------------------------------------
@contract('float::abs')
def _(ex, st, c, v):
    x = v[0]
    if isinstance(x.neg, bool):
        return ret(st, F(z3.simplify(-x.val) if x.neg else x.val, x.nan, False))
    a, b = ex.branch(st, x.neg)
    return (ret(a, F(-x.val, x.nan, False)) if a is not None else []) + (ret(b, F(x.val, x.nan, False)) if b is not None else [])


@contract('float::is_nan')
def _(ex, st, c, v): return ret(st, v[0].nan)


@contract('float::is_sign_negative')
def _(ex, st, c, v): return ret(st, v[0].neg)


@contract('float::is_sign_positive')
def _(ex, st, c, v): return ret(st, neg(v[0].neg))


@contract('float::is_finite')
def _(ex, st, c, v): return ret(st, conj(neg(v[0].nan), v[0].val < z3.RealVal(INF), v[0].val > -z3.RealVal(INF)))


@contract('float::is_infinite')
def _(ex, st, c, v): return ret(st, conj(neg(v[0].nan), disj(v[0].val >= z3.RealVal(INF), v[0].val <= -z3.RealVal(INF))))


def _trunc(x):
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))


@contract('float::trunc')
def _(ex, st, c, v): return ret(st, F(_trunc(v[0].val), v[0].nan, v[0].neg))


@contract('float::floor')
def _(ex, st, c, v): return ret(st, F(z3.ToReal(z3.ToInt(v[0].val)), v[0].nan, v[0].neg))


@contract('float::fract')
def _(ex, st, c, v):
    # exact for finite doubles
    return ret(st, F(v[0].val - _trunc(v[0].val), v[0].nan, v[0].neg))


# ---- ranges ----------------------------------------------------------------------------------
@contract('RangeInclusive::new')
def _(ex, st, c, v): return ret(st, Agg('RangeInclusive', None, (v[0], v[1], False), ('start', 'end', 'exhausted')))


def _le(a, b):
    return f_cmp('Le', a, b) if isinstance(a, F) else a <= b


def _lt(a, b):
    return f_cmp('Lt', a, b) if isinstance(a, F) else a < b


@contract('RangeInclusive::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains',
          'RangeBounds::contains')
def _(ex, st, c, v):
    r, x = ex.deep(st, v[0]), ex.deep(st, v[1])
    g = dict(zip(r.names, r.fs))
    cs = []
    if 'start' in g:
        cs.append(_le(ex.deep(st, g['start']), x))
    if 'end' in g:
        e = ex.deep(st, g['end'])
        cs.append(_le(x, e) if r.ty in ('RangeInclusive', 'RangeToInclusive') else _lt(x, e))
    return ret(st, conj(*cs))


@contract('RangeInclusive::start')
def _(ex, st, c, v): return ret(st, Ref(v[0].cell, v[0].path + (0,)))


@contract('RangeInclusive::end')
def _(ex, st, c, v): return ret(st, Ref(v[0].cell, v[0].path + (1,)))


# ---- strings ---------------------------------------------------------------------------------
def byte_set(ex, st, f, byref=False, chars=True):
    """the bytes for which a predicate on chars (bytes) is true: evaluated on every ASCII char (byte); a predicate on chars has
    to be constant above ASCII, where it then covers all bytes of multi-byte characters"""
    out = set()

    def ev(x):
        r = set()
        s = st.fork()
        for lf in ex.call_value(s, f, [byref(s, x) if callable(byref) else Ref(s.new(x)) if byref else x]):
            if lf.kind != 'return':
                raise Unsupported('predicate on characters')
            b = lf.val
            if z3.is_expr(b):
                b = True if ex.entails(lf.st, b) else False if ex.entails(lf.st, z3.Not(b)) else None
            if not isinstance(b, bool):
                raise Unsupported('predicate on characters')
            r.add(b)
        if len(r) != 1:
            raise Unsupported('predicate on characters')
        return r.pop()
    for b in range(128 if chars else 256):
        if ev(b):
            out.add(b)
    if chars:
        c = z3.Int('char_any')
        st = st.fork()
        st.assume(z3.And(c >= 128, c <= 0x10ffff))
        if ev(c):
            out |= set(range(128, 256))
    return frozenset(out)


def pattern(ex, st, p):
    """a char or literal string pattern -> bytes; a set of characters or a predicate -> frozenset of bytes"""
    if isinstance(p, Closure) or isinstance(p, FnItem):
        return byte_set(ex, st, p)
    if isinstance(p, (Ref, Agg)):
        q = ex.deep(st, p)
        if isinstance(q, Agg) and q.ty == 'array' and q.fs and all(isinstance(x, int) and x < 128 for x in q.fs):
            return frozenset(q.fs) if len(set(q.fs)) > 1 else bytes([q.fs[0]])
    if isinstance(p, int):
        return chr(p).encode()
    p = ex.deep(st, p)
    s = as_str(ex, st, p)
    if s is not None:
        n = st.norm(s.ps)
        if all(isinstance(x, bytes) for x in n):
            return b''.join(n)
    if isinstance(p, int):
        return chr(p).encode()
    raise Unsupported('string pattern %r' % (p,))


def the_str(ex, st, v):
    s = as_str(ex, st, ex.deep(st, v))
    if s is None:
        raise Unsupported('string expected, got %r' % (v,))
    return s


def starts(ex, st, ps, pat):
    """-> list of (state, True, rest) / (state, False, None)"""
    if isinstance(pat, frozenset):
        if any(b >= 128 for b in pat):
            raise Unsupported('prefix predicate')
        one = A.compile_re(('ch', pat))
        d = A.compile_re(A.cat(('ch', pat), A.star(A.ANYB)))
        return [(s2, True, y) for s in st.restrict(ps, d) for s2, x, y in s.split_at(ps, one, ANY)] + \
               [(s, False, None) for s in st.restrict(ps, A.compl(d))]
    d = A.compile_re(A.cat(A.lit(pat), A.star(A.ANYB)))
    out = []
    if not A.accepts_inter(st.dfa_of(ps), d):
        return [(st, False, None)]
    n = st.norm(ps)
    if n and isinstance(n[0], bytes) and n[0].startswith(pat):
        return [(st, True, ((n[0][len(pat):],) if n[0][len(pat):] else ()) + n[1:])]
    for s in st.restrict(ps, d):
        # make the prefix literal
        for s2, x, y in s.split_at(ps, A.lit_dfa(pat), ANY):
            out.append((s2, True, y))
    for s in st.restrict(ps, A.compl(d)):
        out.append((s, False, None))
    return out


def ends(ex, st, ps, pat):
    if isinstance(pat, frozenset):
        if any(b >= 128 for b in pat):
            raise Unsupported('suffix predicate')
        one = A.compile_re(('ch', pat))
        d = A.compile_re(A.cat(A.star(A.ANYB), ('ch', pat)))
        return [(s2, True, x) for s in st.restrict(ps, d) for s2, x, y in s.split_at(ps, ANY, one)] + \
               [(s, False, None) for s in st.restrict(ps, A.compl(d))]
    d = A.compile_re(A.cat(A.star(A.ANYB), A.lit(pat)))
    out = []
    for s in st.restrict(ps, d):
        for s2, x, y in s.split_at(ps, ANY, A.lit_dfa(pat)):
            out.append((s2, True, x))
    for s in st.restrict(ps, A.compl(d)):
        out.append((s, False, None))
    return out


@contract('str::starts_with')
def _(ex, st, c, v):
    return [Leaf(s, 'return', b) for s, b, _ in starts(ex, st, the_str(ex, st, v[0]).ps, pattern(ex, st, v[1]))]


@contract('str::ends_with')
def _(ex, st, c, v):
    return [Leaf(s, 'return', b) for s, b, _ in ends(ex, st, the_str(ex, st, v[0]).ps, pattern(ex, st, v[1]))]


@contract('str::strip_prefix')
def _(ex, st, c, v):
    return [Leaf(s, 'return', some(Str(r)) if b else NONE) for s, b, r in starts(ex, st, the_str(ex, st, v[0]).ps, pattern(ex, st, v[1]))]


@contract('str::strip_suffix')
def _(ex, st, c, v):
    return [Leaf(s, 'return', some(Str(r)) if b else NONE) for s, b, r in ends(ex, st, the_str(ex, st, v[0]).ps, pattern(ex, st, v[1]))]


HIGH = A.compile_re(A.cat(A.star(A.ANYB), ('ch', frozenset(range(128, 256))), A.star(A.ANYB)))


def find_first(st, ps, pat, last=False, bytewise=False):
    """first (last) occurrence of a one-byte pattern: list of (state, None) / (state, (before, after))"""
    if not isinstance(pat, frozenset):
        if len(pat) > 1:
            free = A.compl(A.compile_re(A.cat(A.star(A.ANYB), A.lit(pat), A.star(A.ANYB))))
            here, any_ = A.lit_dfa(pat), ANY
            if last:                                         # pat[1:] ++ what follows is free of pat
                after = A.minimize(free.trans, free.delta(free.start, pat[1:]), free.finals)
                cuts = st.split_at(ps, ANY, A.concat_dfa(here, after))
            else:                                            # what precedes ++ pat[:-1] is free of pat
                before = A.minimize(free.trans, free.start, frozenset(q for q in range(len(free.trans)) if free.delta(q, pat[:-1]) in free.finals))
                cuts = st.split_at(ps, before, A.concat_dfa(here, ANY))
            out = [(s, None) for s in st.restrict(ps, free)]
            for s, x, y in cuts:
                for s2, x2, y2 in s.split_at(y, here, ANY):
                    out.append((s2, (s2.norm(x), s2.norm(y2))))
            return out
        if not pat:
            raise Unsupported('find of the empty pattern')
        pat = frozenset(pat)
    if any(b >= 128 for b in pat) and not bytewise:
        if A.accepts_inter(st.dfa_of(ps), HIGH):
            raise Unsupported('find of a predicate true of non-ASCII characters')
        pat = frozenset(b for b in pat if b < 128)
    rest = ('ch', frozenset(set(range(256)) - pat))
    no = A.compile_re(A.star(rest))
    tail = A.compile_re(A.cat(('ch', pat), A.star(A.ANYB)))
    tail1 = A.compile_re(A.cat(('ch', pat), A.star(rest)))
    out = [(s, None) for s in st.restrict(ps, no)]
    for s, x, y in (st.split_at(ps, ANY, tail1) if last else st.split_at(ps, no, tail)):
        for s2, x2, y2 in s.split_at(y, A.compile_re(('ch', pat)), ANY):
            out.append((s2, (s2.norm(x), s2.norm(y2))))
    return out


@contract('str::find', 'str::rfind')
def _(ex, st, c, v):
    p = the_str(ex, st, v[0]).ps
    out = []
    for s, r in find_first(st, p, pattern(ex, st, v[1]), c.method == 'rfind'):
        out += ret(s, NONE if r is None else some(s.length(r[0])))
    return out


@contract('str::split_once', 'str::rsplit_once')
def _(ex, st, c, v):
    p = the_str(ex, st, v[0]).ps
    out = []
    for s, r in find_first(st, p, pattern(ex, st, v[1]), c.method == 'rsplit_once'):
        out += ret(s, NONE if r is None else some(Agg('tuple', None, (Str(r[0]), Str(r[1])))))
    return out


@contract('str::contains')
def _(ex, st, c, v):
    p = the_str(ex, st, v[0]).ps
    pat = pattern(ex, st, v[1])
    d = A.compile_re(A.cat(A.star(A.ANYB), ('ch', pat) if isinstance(pat, frozenset) else A.lit(pat), A.star(A.ANYB)))
    return [Leaf(s, 'return', True) for s in st.restrict(p, d)] + [Leaf(s, 'return', False) for s in st.restrict(p, A.compl(d))]


@contract('str::len', 'String::len')
def _(ex, st, c, v):
    return ret(st, st.length(the_str(ex, st, v[0]).ps))


@contract('str::is_empty', 'String::is_empty')
def _(ex, st, c, v):
    p = the_str(ex, st, v[0]).ps
    d = A.compile_re(A.EPS)
    if not A.accepts_inter(st.dfa_of(p), d):
        return ret(st, False)
    return [Leaf(s, 'return', True) for s in st.restrict(p, d)] + [Leaf(s, 'return', False) for s in st.restrict(p, A.compl(d))]


def one_of(pat):
    if isinstance(pat, frozenset):
        return pat
    if len(pat) != 1:
        raise Unsupported('multi-byte pattern')
    return frozenset(pat)


@contract('str::trim_end_matches', 'str::trim_right_matches')
def _(ex, st, c, v):
    p = the_str(ex, st, v[0]).ps
    pat = pattern(ex, st, v[1])
    if isinstance(pat, bytes) and len(pat) > 1:
        z, w = A.compile_re(A.star(A.lit(pat))), A.compl(A.compile_re(A.cat(A.star(A.ANYB), A.lit(pat))))
        return [Leaf(s, 'return', Str(x)) for s, x, y in st.split_at(p, w, z)]
    pat = one_of(pat)
    z = A.compile_re(A.star(('ch', pat)))
    ne = A.compile_re(A.alt(A.EPS, A.cat(A.star(A.ANYB), ('ch', frozenset(set(range(256)) - pat)))))
    return [Leaf(s, 'return', Str(x)) for s, x, y in st.split_at(p, ne, z)]


@contract('str::trim_start_matches', 'str::trim_left_matches')
def _(ex, st, c, v):
    p = the_str(ex, st, v[0]).ps
    pat = pattern(ex, st, v[1])
    if isinstance(pat, bytes) and len(pat) > 1:
        z, w = A.compile_re(A.star(A.lit(pat))), A.compl(A.compile_re(A.cat(A.lit(pat), A.star(A.ANYB))))
        return [Leaf(s, 'return', Str(y)) for s, x, y in st.split_at(p, z, w)]
    pat = one_of(pat)
    z = A.compile_re(A.star(('ch', pat)))
    ns = A.compile_re(A.alt(A.EPS, A.cat(('ch', frozenset(set(range(256)) - pat)), A.star(A.ANYB))))
    return [Leaf(s, 'return', Str(y)) for s, x, y in st.split_at(p, z, ns)]


@contract('str::replace')
def _(ex, st, c, v):
    """only where there is nothing to replace"""
    p = the_str(ex, st, v[0]).ps
    pat = pattern(ex, st, v[1])
    if not pat:
        raise Unsupported('replace of the empty pattern')
    d = A.compile_re(A.cat(A.star(A.ANYB), ('ch', pat) if isinstance(pat, frozenset) else A.lit(pat), A.star(A.ANYB)))
    if A.accepts_inter(st.dfa_of(p), d):
        raise Unsupported('replace in a text')
    return ret(st, Agg('String', None, (Str(p),)))


_WS = [c for c in (0x9, 0xa, 0xb, 0xc, 0xd, 0x20, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)]
WHITE = A.alt(*[A.lit(chr(c).encode()) for c in _WS])           # char::is_whitespace
WS_RUN = A.compile_re(A.star(WHITE))
_STARTS_WS = A.compile_re(A.cat(WHITE, A.star(A.ANYB)))
_ENDS_WS = A.compile_re(A.cat(A.star(A.ANYB), WHITE))


def trim_start(ex, st, ps):
    """list of (state, rest)"""
    ps = st.norm(ps)
    if not A.accepts_inter(st.dfa_of(ps), _STARTS_WS):
        return [(st, ps)]
    # literal white space first, so that pieces stay whole where possible
    k = 0
    while k < len(ps) and isinstance(ps[k], Atom) and A.subset(st.lang[ps[k].id], WS_RUN):
        k += 1
    if k and not A.accepts_inter(st.dfa_of(ps[k:]), _STARTS_WS):
        return [(st, ps[k:])]
    if k < len(ps) and isinstance(ps[k], Atom) and ex.expand_hook:
        xs = ex.expand_hook(st, ps[k])
        if xs is not None:
            return [r for s in xs for r in trim_start(ex, s, s.norm(ps))]
    return [(s, y) for s, x, y in st.split_at(ps, WS_RUN, A.compl(_STARTS_WS))]


def trim_end(ex, st, ps):
    ps = st.norm(ps)
    if not A.accepts_inter(st.dfa_of(ps), _ENDS_WS):
        return [(st, ps)]
    if A.subset(st.dfa_of(ps), WS_RUN):
        return [(st, ())]
    return [(s, x) for s, x, y in st.split_at(ps, A.compl(_ENDS_WS), WS_RUN)]


@contract('str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_left', 'str::trim_right')
def _(ex, st, c, v):
    ps = the_str(ex, st, v[0]).ps
    out = [(st, ps)]
    if c.method in ('trim', 'trim_start', 'trim_left'):
        out = trim_start(ex, st, ps)
    if c.method in ('trim', 'trim_end', 'trim_right'):
        out = [r for s, p in out for r in trim_end(ex, s, p)]
    return [Leaf(s, 'return', Str(p)) for s, p in out]


# ---- formatting: literal text and plain `{}` of strings, integers and floats; otherwise any text ------
@contract('Argument::new_display')
def _(ex, st, c, v):
    return ret(st, Agg('FmtArg', None, (v[0],), (c.margs[0] if c.margs else '?',)))


@contract('Argument::new_debug', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def _(ex, st, c, v):
    return ret(st, Opaque(('fmt',)))


@contract('Arguments::from_str')
def _(ex, st, c, v):
    s = as_str(ex, st, ex.deep(st, v[0]))
    return ret(st, Agg('FmtArgs', None, (s,)) if s is not None else Opaque(('fmt',)))


@contract('Arguments::new')
def _(ex, st, c, v):
    """the template: n < 128 literal bytes follow; 0xc0 the next argument, plainly displayed; 0 the end"""
    try:
        t, args = list(ex.deep(st, v[0]).fs), list(ex.deep(st, v[1]).fs)
        out, i = [], 0
        while t[i] != 0:
            if t[i] < 0x80:
                out.append(Str((bytes(t[i + 1:i + 1 + t[i]]),)))
                i += 1 + t[i]
            elif t[i] == 0xc0 and isinstance(args[0], Agg) and args[0].ty == 'FmtArg':
                out.append(args.pop(0))
                i += 1
            else:
                return ret(st, Opaque(('fmt',)))
        if i == len(t) - 1 and not args:
            return ret(st, Agg('FmtArgs', None, tuple(out)))
    except (AttributeError, IndexError, TypeError):
        pass
    return ret(st, Opaque(('fmt',)))


@contract('fmt::format', 'format')
def _(ex, st, c, v):
    if isinstance(v[0], Agg) and v[0].ty == 'FmtArgs':
        outs = [(st, ())]
        for p in v[0].fs:
            nxt = []
            for s, ps in outs:
                if isinstance(p, Str):
                    nxt.append((s, ps + tuple(p.ps)))
                    continue
                try:
                    r = getattr(ex, 'to_string', TABLE['ToString::to_string'])(ex, s.fork(), Call('<%s as ToString>::to_string' % (re.sub(r'^&+', '', p.names[0])), ['?'], 'String', None), [p.fs[0]])
                except Unsupported:
                    nxt.append((s, ps + (s.atom('formatted', A.UTF8),)))
                    continue
                for lf in r:
                    nxt.append((lf.st, ps + tuple(lf.val.fs[0].ps)))
            outs = nxt
        return [Leaf(s, 'return', Agg('String', None, (Str(ps),))) for s, ps in outs]
    return ret(st, Agg('String', None, (Str((st.atom('formatted', A.UTF8),)),)))


@contract('hint::must_use')
def _(ex, st, c, v):
    return ret(st, v[0])


def slice_at(ex, st, ps, pos):
    """split a string at byte offset pos -> list of (state, ok, before, after); ok=False means the cut panics"""
    ps = st.norm(ps)
    if isinstance(pos, int):
        # cut after exactly `pos` bytes
        n = A.compile_re(A.cat(*([A.ANYB] * pos)))
        short = A.compile_re(A.EPS) if pos else None
        out = []
        if pos > 0:
            less = A.compile_re(A.alt(*[A.cat(*([A.ANYB] * k)) for k in range(pos)]))
            out += [(s, False, None, None) for s in st.restrict(ps, less)]
        for s, x, y in st.split_at(ps, n, ANY):
            good = A.subset(s.dfa_of(x), A.UTF8)
            if not good:
                for s2 in s.restrict(x, A.UTF8):
                    out.append((s2, True, s2.norm(x), s2.norm(y)))
                for s2 in s.restrict(x, A.compl(A.UTF8)):
                    out.append((s2, False, None, None))
            else:
                out.append((s, True, s.norm(x), s.norm(y)))
        return out
    acc = 0
    for i in range(len(ps) + 1):
        e = (acc == pos)
        if (isinstance(e, bool) and e) or (not isinstance(e, bool) and ex.entails(st, e)):
            x, y = ps[:i], ps[i:]
            if not A.subset(st.dfa_of(x), A.UTF8):
                raise Unsupported('character boundary')
            return [(st, True, x, y)]
        if i < len(ps):
            p = ps[i]
            if isinstance(p, bytes):
                for j in range(1, len(p)):
                    if ex.entails(st, acc + j == pos):
                        return [(st, True, ps[:i] + (p[:j],), (p[j:],) + ps[i + 1:])]
            acc = acc + st.plen(p)
    # a few bytes behind the end of a known part
    acc = 0
    for i in range(len(ps) + 1):
        for j in (1, 2, 3):
            if ex.entails(st, acc + j == pos):
                if not A.subset(st.dfa_of(ps[:i]), A.UTF8):
                    raise Unsupported('character boundary')
                out = []
                for s, k, x, y in slice_at(ex, st, ps[i:], j):
                    b = s.norm(ps[:i])
                    out.append((s, True, tuple(b) + tuple(x), y) if k else (s, False, None, None))
                return out
        if i < len(ps):
            acc = acc + st.plen(ps[i])
    raise Unsupported('slice at an offset that is not the end of a known part')


def str_slice(ex, st, ps, r):
    """-> list of (state, ok, Str)"""
    g = dict(zip(r.names or (), r.fs))
    outs = []
    if r.ty == 'RangeFull':
        return [(st, True, Str(ps))]
    if r.ty == 'RangeFrom':
        return [(s, k, Str(y) if k else None) for s, k, x, y in slice_at(ex, st, ps, g['start'])]
    if r.ty == 'RangeTo':
        return [(s, k, Str(x) if k else None) for s, k, x, y in slice_at(ex, st, ps, g['end'])]
    if r.ty == 'Range':
        for s, k, x, y in slice_at(ex, st, ps, g['end']):
            if not k:
                outs.append((s, False, None)); continue
            for s2, k2, x2, y2 in slice_at(ex, s, x, g['start']):
                outs.append((s2, k2, Str(y2) if k2 else None))
        return outs
    raise Unsupported('slice by ' + str(r.ty))


@contract('Index::index')
def _(ex, st, c, v):
    x = ex.deep(st, v[0])
    s = as_str(ex, st, x)
    if s is not None:
        return [Leaf(s2, 'return', r) if k else panic(s2, 'string slice out of range or not on a character boundary')
                for s2, k, r in str_slice(ex, st, s.ps, v[1])]
    r, seq = seq_items(ex, st, v[0])
    if isinstance(v[1], int):
        if not 0 <= v[1] < len(seq.fs):
            return [panic(st, 'index out of bounds')]
        return ret(st, Ref(r.cell, r.path + (v[1],)))
    raise Unsupported('index by %r' % (v[1],))


@contract('str::get')
def _(ex, st, c, v):
    return [Leaf(s2, 'return', some(r) if k else NONE) for s2, k, r in str_slice(ex, st, the_str(ex, st, v[0]).ps, v[1])]


@contract('str::split_at')
def _(ex, st, c, v):
    out = []
    for s, k, x, y in slice_at(ex, st, the_str(ex, st, v[0]).ps, v[1]):
        out.append(Leaf(s, 'return', Agg('tuple', None, (Str(x), Str(y)))) if k else panic(s, 'split_at'))
    return out


def parse_float(ex, st, ps):
    out = []
    for s in st.restrict(ps, A.compl(A.F64)):
        out.append(Leaf(s, 'return', err(Opaque(('ParseFloatError',)))))
    for s0 in st.restrict(ps, A.F64):
        for s1, sg, rest in starts(ex, s0, ps, b'-'):
            body = s1.norm(rest if sg else ps)
            for s2, pl, rest2 in (starts(ex, s1, body, b'+') if not sg else [(s1, False, None)]):
                b2 = s2.norm(rest2 if pl else body)
                for s3 in s2.restrict(b2, A.compile_re(A.ilit('nan'))):
                    out.append(Leaf(s3, 'return', ok(F(z3.RealVal(0), True, sg))))
                for s3 in s2.restrict(b2, A.compile_re(A.alt(A.ilit('inf'), A.ilit('infinity')))):
                    out.append(Leaf(s3, 'return', ok(F(z3.RealVal(-INF if sg else INF), False, sg))))
                for s3 in s2.restrict(b2, A.F64_FINITE):
                    x = s3.const('DBL', b2)
                    out.append(Leaf(s3, 'return', ok(F(-x if sg else x, False, sg))))
    return out


def parse_int(ex, st, ps, ty):
    lo, hi = INT_RANGE[ty]
    if lo < 0:
        out = [Leaf(s, 'return', err(Opaque(('ParseIntError',)))) for s in st.restrict(ps, A.compl(A.I64S))]
        for s0 in st.restrict(ps, A.I64S):
            for s1, mi, rest in starts(ex, s0, ps, b'-'):
                if mi:
                    x = -s1.const('NUM', s1.norm(rest))
                    alts = [(s1, x)]
                else:
                    alts = []
                    for s2, pl, rest2 in starts(ex, s1, ps, b'+'):
                        alts.append((s2, s2.const('NUM', s2.norm(rest2 if pl else ps))))
                for s2, x in alts:
                    yes, no = ex.branch(s2, z3.And(x >= lo, x <= hi))
                    if yes is not None:
                        out.append(Leaf(yes, 'return', ok(x)))
                    if no is not None:
                        out.append(Leaf(no, 'return', err(Opaque(('ParseIntError',)))))
        return out
    out = [Leaf(s, 'return', err(Opaque(('ParseIntError',)))) for s in st.restrict(ps, A.compl(A.U64S))]
    for s0 in st.restrict(ps, A.U64S):
        for s1, pl, rest in starts(ex, s0, ps, b'+'):
            b = s1.norm(rest if pl else ps)
            x = s1.const('NUM', b)
            yes, no = ex.branch(s1, x <= hi)
            if yes is not None:
                out.append(Leaf(yes, 'return', ok(x)))
            if no is not None:
                out.append(Leaf(no, 'return', err(Opaque(('ParseIntError',)))))
    return out


@contract('FromStr::from_str', 'str::parse')
def _(ex, st, c, v):
    ty = c.selfty if c.method == 'from_str' else (c.margs[0] if c.margs else '?')
    ps = the_str(ex, st, v[0]).ps
    if ty == 'f64':
        return parse_float(ex, st, ps)
    if ty in INTS:
        return parse_int(ex, st, ps, ty)
    raise Unsupported('parse into ' + ty)


# a string seen as bytes or characters, from the front or from the back
@contract('str::bytes', 'str::chars', 'str::as_bytes', 'String::as_bytes', 'str::char_indices')
def _(ex, st, c, v):
    return ret(st, Agg('StrBytes', None, (the_str(ex, st, v[0]), False, c.method)))


def str_split(ex, st, c, v, n):
    return ret(st, Agg('StrSplit', None, (some(the_str(ex, st, v[0])), pattern(ex, st, v[-1]), n)))


@contract('str::splitn')
def _(ex, st, c, v):
    if not isinstance(v[1], int):
        raise Unsupported('splitn')
    return str_split(ex, st, c, v, v[1])


@contract('str::split')
def _(ex, st, c, v):
    return str_split(ex, st, c, v, None)


def split_next(ex, st, r, it):
    """Iterator::next of a split: list of leaves; the iterator is advanced in place"""
    rest, pat, n = it.fs
    if rest.var == 'None' or n == 0:
        return ret(st, NONE)
    out = []
    if n == 1:
        ex.store(st, r, Agg('StrSplit', None, (NONE, pat, 0)))
        return ret(st, some(rest.fs[0]))
    for s, hit in find_first(st, rest.fs[0].ps, pat):
        m = None if n is None else n - 1
        if hit is None:
            ex.store(s, r, Agg('StrSplit', None, (NONE, pat, 0)))
            out += ret(s, some(Str(s.norm(rest.fs[0].ps))))
        else:
            ex.store(s, r, Agg('StrSplit', None, (some(Str(hit[1])), pat, m)))
            out += ret(s, some(Str(hit[0])))
    return out


@contract('Add::add')
def _(ex, st, c, v):
    if base_ty(c.selfty) != 'String':
        return None
    a, b = the_str(ex, st, v[0]), the_str(ex, st, v[1])
    return ret(st, Agg('String', None, (Str(st.norm(a.ps + b.ps)),)))


@contract('String::new')
def _(ex, st, c, v): return ret(st, Agg('String', None, (Str(()),)))


# ---- sequences -------------------------------------------------------------------------------
@contract('slice::iter', 'Vec::iter')
def _(ex, st, c, v):
    r, seq = seq_items(ex, st, v[0])
    return ret(st, Agg('Iter', None, (tuple(Ref(r.cell, r.path + (i,)) for i in range(len(seq.fs))),)))


@contract('IntoIterator::into_iter')
def _(ex, st, c, v):
    x = v[0]
    if isinstance(x, Agg) and x.ty in ('Iter', 'MapIter', 'FilterIter', 'ClonedIter', 'EnumIter'):
        return ret(st, x)
    if isinstance(x, Agg) and x.ty in ('Vec', 'array'):
        return ret(st, Agg('Iter', None, (tuple(x.fs),)))
    if isinstance(x, Agg) and x.ty == 'Range' and all(isinstance(y, int) for y in x.fs) and x.fs[1] - x.fs[0] < 2000:
        return ret(st, Agg('Iter', None, (tuple(range(x.fs[0], x.fs[1])),)))
    if isinstance(x, Ref):
        r, seq = seq_items(ex, st, x)
        return ret(st, Agg('Iter', None, (tuple(Ref(r.cell, r.path + (i,)) for i in range(len(seq.fs))),)))
    raise Unsupported('into_iter of %r' % (x,))


def _lazy(ty):
    def f(ex, st, c, v):
        return ret(st, Agg(ty, None, tuple(v)))
    return f


@contract('Iterator::rev')
def _(ex, st, c, v):
    x = v[0]
    if x.ty == 'StrBytes' and x.fs[2] != 'char_indices':
        return ret(st, Agg('StrBytes', None, (x.fs[0], not x.fs[1], x.fs[2])))
    if x.ty == 'Iter':
        return ret(st, Agg('Iter', None, (tuple(reversed(x.fs[0])),)))
    raise Unsupported('rev of %r' % (x,))


@contract('Iterator::take_while')
def _(ex, st, c, v):
    x = v[0]
    if x.ty != 'StrBytes' or x.fs[2] == 'char_indices':
        raise Unsupported('take_while of %r' % (x,))
    b = byte_set(ex, st, v[1], True, x.fs[2] == 'chars')
    return ret(st, Agg('StrRun', None, (x.fs[0], x.fs[1], b, x.fs[2])))


@contract('Iterator::count')
def _(ex, st, c, v):
    x = v[0]
    if x.ty == 'StrRun':
        s0, back, bs, how = x.fs
        if how == 'chars' and any(b >= 128 for b in bs):
            raise Unsupported('count of characters')
        inn = A.compile_re(A.star(('ch', bs)))
        no = ('ch', frozenset(set(range(256)) - bs))
        if back:
            ne = A.compile_re(A.alt(A.EPS, A.cat(A.star(A.ANYB), no)))
            return [Leaf(s, 'return', s.length(y)) for s, a, y in st.split_at(s0.ps, ne, inn)]
        ns = A.compile_re(A.alt(A.EPS, A.cat(no, A.star(A.ANYB))))
        return [Leaf(s, 'return', s.length(a)) for s, a, y in st.split_at(s0.ps, inn, ns)]
    if x.ty == 'StrBytes' and x.fs[2] == 'bytes':
        return ret(st, st.length(x.fs[0].ps))
    out = []
    for s, items in drive(ex, st, x):
        out += [items] if isinstance(items, Leaf) else ret(s, len(items))
    return out


def str_search(ex, st, c, v):
    """position / any / all of a string's bytes or characters; None when it is another iterator"""
    x = ex.deep(st, v[0]) if isinstance(v[0], Ref) else v[0]
    if not isinstance(x, Agg) or x.ty != 'StrBytes':
        return None
    if x.fs[2] == 'char_indices' or isinstance(v[0], Ref) and x.fs[1]:
        raise Unsupported('search in %r' % (x,))
    bs = byte_set(ex, st, v[1], False, x.fs[2] == 'chars')
    ps = x.fs[0].ps
    if c.method in ('position', 'rposition'):
        if x.fs[1] or x.fs[2] == 'chars' and A.accepts_inter(st.dfa_of(ps), HIGH):
            raise Unsupported('position of characters')
        return [Leaf(s, 'return', NONE if r is None else some(s.length(r[0]))) for s, r in find_first(st, ps, bs, c.method == 'rposition', True)]
    if c.method == 'all':
        bs = frozenset(set(range(256)) - bs)
    d = A.compile_re(A.cat(A.star(A.ANYB), ('ch', bs), A.star(A.ANYB)))
    t = c.method == 'any'
    return [Leaf(s, 'return', t) for s in st.restrict(ps, d)] + [Leaf(s, 'return', not t) for s in st.restrict(ps, A.compl(d))]


@contract('Iterator::nth')
def _(ex, st, c, v):
    it = ex.load(st, v[0])
    if not isinstance(v[1], int) or v[1] > 20:
        raise Unsupported('nth')
    sts = [Leaf(st, 'return', UNIT)]
    for _ in range(v[1] + 1):
        nx = []
        for l in sts:
            if l.kind != 'return' or (isinstance(l.val, Agg) and l.val.var == 'None'):
                nx.append(l)
            else:
                nx += TABLE['Iterator::next'](ex, l.st, c, v[:1])
        sts = nx
    return sts


TABLE['Iterator::map'] = _lazy('MapIter')
TABLE['Iterator::filter'] = _lazy('FilterIter')
TABLE['Iterator::filter_map'] = _lazy('FilterMapIter')
TABLE['Iterator::cloned'] = _lazy('ClonedIter')
TABLE['Iterator::copied'] = _lazy('ClonedIter')
TABLE['Iterator::enumerate'] = _lazy('EnumIter')


def drive(ex, st, it):
    """all items of a finite iterator: list of (state, [items]) or panic leaves"""
    if it.ty == 'Iter':
        return [(st, list(it.fs[0]))]
    if it.ty == 'StrSplit':
        out, work = [], [(st, Ref(st.new(it)), [])]
        while work:
            s, r, acc = work.pop()
            if len(acc) > 40:
                raise Unsupported('split of a text of unknown length')
            for l in TABLE['Iterator::next'](ex, s, None, [r]):
                if l.kind != 'return':
                    out.append((l.st, l))
                elif l.val.var == 'None':
                    out.append((l.st, acc))
                else:
                    work.append((l.st, r, acc + [l.val.fs[0]]))
        return out
    if it.ty not in ('EnumIter', 'ClonedIter', 'FilterIter', 'MapIter', 'FilterMapIter'):
        raise Unsupported('iteration over %s' % it.ty)
    out = []
    for s, items in drive(ex, st, it.fs[0]):
        if isinstance(items, Leaf):
            out.append((s, items)); continue
        if it.ty == 'EnumIter':
            out.append((s, [Agg('tuple', None, (i, x)) for i, x in enumerate(items)])); continue
        if it.ty == 'ClonedIter':
            out.append((s, [ex.load(s, x) for x in items])); continue
        work = [(s, [])]
        for x in items:
            nw = []
            for s2, acc in work:
                if isinstance(acc, Leaf):
                    nw.append((s2, acc)); continue
                if it.ty == 'FilterIter':
                    for l in ex.call_value(s2, it.fs[1], [Ref(s2.new(x))]):
                        if l.kind != 'return':
                            nw.append((l.st, l)); continue
                        a, b = ex.branch(l.st, l.val)
                        if a is not None: nw.append((a, acc + [x]))
                        if b is not None: nw.append((b, acc))
                else:
                    for l in ex.call_value(s2, it.fs[1], [x]):
                        if l.kind != 'return':
                            nw.append((l.st, l)); continue
                        if it.ty == 'FilterMapIter':
                            nw.append((l.st, acc + [l.val.fs[0]] if l.val.var == 'Some' else acc))
                        else:
                            nw.append((l.st, acc + [l.val]))
            work = nw
            if len(work) > 3000:
                raise Unsupported('too many iterator paths')
        out += work
    return out


@contract('Iterator::collect')
def _(ex, st, c, v):
    if base_ty(c.dty if c.dty != '?' else c.margs[0]) != 'Vec':
        raise Unsupported('collect into ' + c.dty)
    out = []
    for s, items in drive(ex, st, v[0]):
        out += [items] if isinstance(items, Leaf) else ret(s, Agg('Vec', None, items))
    return out


def literal_chars(ex, fn):
    """ASCII characters and bytes a function (or a closure of it) compares with"""
    out = set()
    fs = [fn] + [f for f in ex.p.fns if f.name.startswith(fn.name + '::')] if fn is not None else []
    for f in fs + [g for f in fs for g in f.promoted.values()]:
        t = ' '.join(' '.join(b) for b in f.blocks.values())
        out |= {ord(x) for x in re.findall(r"const '([^\\'])'", t)} | {ord(x) for x in re.findall(r"'([^\\'])': bb", t)}
        out |= {int(x) for x in re.findall(r'const (\d+)_u8', t)} | {int(x) for x in re.findall(r'[\[ ](\d+): bb', t)}
    return sorted(x for x in out if x < 128)


def char_next(ex, st, r, it, fn):
    """the first byte or character: one path per literal the code compares with, one for all others"""
    text, back, how = it.fs
    if back or how == 'char_indices':
        raise Unsupported('next of %s' % how)
    lits = literal_chars(ex, fn)
    if len(lits) > 24:
        raise Unsupported('next of %s' % how)
    out, work = [], [st]
    tail = Agg('StrTail', None, (text, how))
    for x in lits:
        d = A.compile_re(A.cat(A.ch(x), A.star(A.ANYB)))
        nw = []
        for s in work:
            for s2 in s.restrict(text.ps, d):
                ex.store(s2, r, tail)
                out += ret(s2, some(x))
            nw += s.restrict(text.ps, A.compl(d))
        work = nw
    for s in work:
        for s2 in s.restrict(text.ps, A.compile_re(A.EPS)):
            out += ret(s2, NONE)
        for s2 in s.restrict(text.ps, A.compile_re(A.plus(A.ANYB))):
            v = z3.Int('char_%d' % next(_ids))
            s2.pc += [v >= 0, v < (0x110000 if how == 'chars' else 256)] + [v != y for y in lits]
            ex.store(s2, r, tail)
            out += ret(s2, some(v))
    return out


def byte_cases(ex, st, ps, k, fn):
    """the byte before (k < 0: the last one) or at the front of a non-empty text: (state, byte) for each literal the code compares with,
    and for all other bytes"""
    lits = literal_chars(ex, fn)
    if len(lits) > 24:
        raise Unsupported('a byte of a text')
    out, work = [], st.restrict(ps, A.compile_re(A.plus(A.ANYB)))
    for x in lits:
        d = A.compile_re(A.cat(A.ch(x), A.star(A.ANYB)) if k >= 0 else A.cat(A.star(A.ANYB), A.ch(x)))
        out += [(s2, x) for s in work for s2 in s.restrict(ps, d)]
        work = [s2 for s in work for s2 in s.restrict(ps, A.compl(d))]
    for s in work:
        v = z3.Int('byte_%d' % next(_ids))
        s.pc += [v >= 0, v < 256] + [v != y for y in lits]
        out.append((s, v))
    return out


def text_bytes(ex, st, v):
    """the text whose bytes a slice is, or None"""
    x = ex.deep(st, v) if isinstance(v, Ref) else v
    return x.fs[0] if isinstance(x, Agg) and x.ty == 'StrBytes' and x.fs[2] == 'as_bytes' and not x.fs[1] else None


@contract('slice::first', 'slice::last')
def _(ex, st, c, v):
    t = text_bytes(ex, st, v[0])
    k = 0 if c.method == 'first' else -1
    if t is not None:
        out = [Leaf(s, 'return', NONE) for s in st.restrict(t.ps, A.compile_re(A.EPS))]
        return out + [Leaf(s, 'return', some(Ref(s.new(b)))) for s, b in byte_cases(ex, st, t.ps, k, c.fn)]
    r, x = seq_items(ex, st, v[0])
    return ret(st, some(Ref(r.cell, r.path + (len(x.fs) - 1 if k else 0,))) if x.fs else NONE)


def tail_of(ex, st, it):
    """what is left after the first byte or character"""
    text, how = it.fs
    one = A.compile_re(A.UTF8_CHAR if how == 'chars' else A.ANYB)
    return [(s, Str(rest)) for s, x, rest in st.split_at(text.ps, one, ANY)]


@contract('Chars::as_str')
def _(ex, st, c, v):
    it = ex.load(st, v[0])
    if it.ty == 'StrBytes' and not it.fs[1]:
        return ret(st, it.fs[0])
    if it.ty == 'StrTail':
        return [l for s, t in tail_of(ex, st, it) for l in ret(s, t)]
    raise Unsupported('as_str of %r' % (it,))


@contract('Iterator::next')
def _(ex, st, c, v):
    it = ex.load(st, v[0])
    if it.ty == 'StrSplit':
        return split_next(ex, st, v[0], it)
    if it.ty == 'StrBytes':
        return char_next(ex, st, v[0], it, c.fn if c is not None else None)
    if it.ty == 'StrTail':
        out = []
        for s, t in tail_of(ex, st, it):
            out += char_next(ex, s, v[0], Agg('StrBytes', None, (t, False, it.fs[1])), c.fn if c is not None else None)
        return out
    if it.ty != 'Iter':
        out = []
        for s, items in drive(ex, st, it):
            if isinstance(items, Leaf):
                out.append(items); continue
            ex.store(s, v[0], Agg('Iter', None, (tuple(items[1:]),)))
            out += ret(s, some(items[0]) if items else NONE)
        return out
    items = it.fs[0]
    if not items:
        return ret(st, NONE)
    ex.store(st, v[0], Agg('Iter', None, (tuple(items[1:]),)))
    return ret(st, some(items[0]))


def _search(ex, st, it, pred_args, fv, hit, miss):
    """first item for which the predicate holds"""
    out = []
    for s, items in drive(ex, st, it):
        if isinstance(items, Leaf):
            out.append(items); continue
        work = [s]
        for i, x in enumerate(items):
            nw = []
            for s2 in work:
                for l in ex.call_value(s2, fv, pred_args(s2, x)):
                    if l.kind != 'return':
                        out.append(l); continue
                    a, b = ex.branch(l.st, l.val)
                    if a is not None:
                        out += ret(a, hit(i, x))
                    if b is not None:
                        nw.append(b)
            work = nw
        for s2 in work:
            out += ret(s2, miss)
    return out


def _it(ex, st, v):
    return ex.load(st, v) if isinstance(v, Ref) else v


@contract('Iterator::rposition')
def _(ex, st, c, v):
    r = str_search(ex, st, c, v)
    if r is None:
        raise Unsupported('rposition')
    return r


@contract('Iterator::find')
def _(ex, st, c, v):
    x = ex.deep(st, v[0]) if isinstance(v[0], Ref) else v[0]
    if isinstance(x, Agg) and x.ty == 'StrBytes' and not x.fs[1] and c is not None:
        # the predicate may look at the character, not at its position
        how, text = x.fs[2], x.fs[0]
        pos = z3.Int('pos_%d' % next(_ids))
        bs = byte_set(ex, st, v[1], lambda s, y: Ref(s.new(Agg('tuple', None, (pos, y)) if how == 'char_indices' else y)), how != 'bytes')
        lits = sorted(bs)
        if len(lits) > 12 or any(b >= 128 for b in lits):
            raise Unsupported('find in a text')
        out = []
        for s, hit in find_first(st, text.ps, bs):
            if hit is None:
                out += ret(s, NONE); continue
            n = s.length(hit[0])
            for b in lits:
                k = s.norm(text.ps)
                at = A.compile_re(A.cat(A.star(('ch', frozenset(set(range(256)) - bs))), A.ch(b), A.star(A.ANYB)))
                for s2 in s.restrict(k, at):
                    out += ret(s2, some(Agg('tuple', None, (n, b)) if how == 'char_indices' else b))
        return out
    return _search(ex, st, _it(ex, st, v[0]), lambda s, x: [Ref(s.new(x))], v[1], lambda i, x: some(x), NONE)


@contract('Iterator::position')
def _(ex, st, c, v):
    r = str_search(ex, st, c, v)
    if r is not None:
        return r
    return _search(ex, st, _it(ex, st, v[0]), lambda s, x: [x], v[1], lambda i, x: some(i), NONE)


@contract('Iterator::any')
def _(ex, st, c, v):
    r = str_search(ex, st, c, v)
    if r is not None:
        return r
    return _search(ex, st, _it(ex, st, v[0]), lambda s, x: [x], v[1], lambda i, x: True, False)


@contract('Iterator::all')
def _(ex, st, c, v):
    r = str_search(ex, st, c, v)
    if r is not None:
        return r
    out = []
    for s, items in drive(ex, st, _it(ex, st, v[0])):
        if isinstance(items, Leaf):
            out.append(items); continue
        work = [s]
        for x in items:
            nw = []
            for s2 in work:
                for l in ex.call_value(s2, v[1], [x]):
                    if l.kind != 'return':
                        out.append(l); continue
                    a, b = ex.branch(l.st, l.val)
                    if a is not None: nw.append(a)
                    if b is not None: out += ret(b, False)
            work = nw
        for s2 in work:
            out += ret(s2, True)
    return out


@contract('Vec::new', 'Vec::with_capacity')
def _(ex, st, c, v): return ret(st, Agg('Vec', None, ()))


@contract('Vec::push')
def _(ex, st, c, v):
    x = ex.load(st, v[0])
    ex.store(st, v[0], Agg('Vec', None, x.fs + (v[1],)))
    return ret(st, UNIT)


@contract('Vec::len', 'slice::len')
def _(ex, st, c, v):
    t = text_bytes(ex, st, v[0])
    if t is not None:
        return ret(st, st.length(t.ps))
    r, x = seq_items(ex, st, v[0])
    return ret(st, len(x.fs))


@contract('Vec::is_empty', 'slice::is_empty')
def _(ex, st, c, v):
    t = text_bytes(ex, st, v[0])
    if t is not None:
        return TABLE['str::is_empty'](ex, st, c, [t])
    r, x = seq_items(ex, st, v[0])
    return ret(st, len(x.fs) == 0)


@contract('slice::get')
def _(ex, st, c, v):
    r, x = seq_items(ex, st, v[0])
    if not isinstance(v[1], int):
        raise Unsupported('get')
    return ret(st, some(Ref(r.cell, r.path + (v[1],))) if v[1] < len(x.fs) else NONE)


@contract('slice::contains')
def _(ex, st, c, v):
    r, x = seq_items(ex, st, v[0])
    return ret(st, disj(*[veq(ex, st, y, v[1]) for y in x.fs]))


@contract('slice::to_vec')
def _(ex, st, c, v):
    r, x = seq_items(ex, st, v[0])
    return ret(st, Agg('Vec', None, x.fs))


# binary search: std guarantees, for a slice strictly sorted by key, Ok(i) with the i-th key equal to
# the wanted one if there is such an i, and Err otherwise.  Sortedness is an obligation (ex.sorted_obligation).
@contract('slice::binary_search_by_key')
def _(ex, st, c, v):
    r, seq = seq_items(ex, st, v[0])
    want = v[1]
    keys = []
    for i in range(len(seq.fs)):
        l = ex.call_value(st, v[2], [Ref(r.cell, r.path + (i,))])
        if len(l) != 1 or l[0].kind != 'return':
            raise Unsupported('key function')
        keys.append(l[0].val)
    return _bsearch(ex, st, keys, want)


def _bsearch(ex, st, keys, want):
    ex.sorted_obligations = getattr(ex, 'sorted_obligations', [])
    ex.sorted_obligations.append([ex.deep(st, k) for k in keys])
    out = []
    rest = st
    for i, k in enumerate(keys):
        e = veq(ex, rest, k, want)
        s = rest.fork()
        if e is False:
            continue
        s.assume(e)
        if z3.is_expr(e):
            rest.pc.append(z3.Not(e))
        out += ret(s, ok(i))
        if e is True:
            return out
    out += ret(rest, err(z3.Int('insertion_point')))
    return out


@contract('slice::binary_search_by')
def _(ex, st, c, v):
    """the comparator must be `key(probe).cmp(wanted)` on language identifiers"""
    r, seq = seq_items(ex, st, v[0])
    keys, want = [], None
    for i in range(len(seq.fs)):
        ls = ex.call_value(st, v[1], [Ref(r.cell, r.path + (i,))])
        if len(ls) != 1 or ls[0].kind != 'return' or ls[0].st is not st or not isinstance(ls[0].val, Opaque) or ls[0].val.tag[0] != 'langcmp':
            raise Unsupported('comparator of binary_search_by')
        k, w = ls[0].val.data
        if want is not None and repr(want) != repr(w):
            raise Unsupported('comparator of binary_search_by')
        want = w
        keys.append(k)
    if not keys:
        raise Unsupported('binary_search_by of an empty table')
    return _bsearch(ex, st, keys, want)


@contract('Extend::extend')
def _(ex, st, c, v):
    x = ex.load(st, v[0])
    if not isinstance(x, Agg) or x.ty != 'Vec':
        raise Unsupported('extend of %r' % (x,))
    out = []
    for s, items in drive(ex, st, _it(ex, st, v[1])):
        if isinstance(items, Leaf):
            out.append(items)
        else:
            ex.store(s, v[0], Agg('Vec', None, x.fs + tuple(items)))
            out += ret(s, UNIT)
    return out


# ---- unic-langid -----------------------------------------------------------------------------
@contract('Language::from_raw_unchecked')
def _(ex, st, c, v): return ret(st, Agg('Language', None, (some(v[0]),)))


@contract('Script::from_raw_unchecked')
def _(ex, st, c, v): return ret(st, Agg('Script', None, (v[0],)))


@contract('Region::from_raw_unchecked')
def _(ex, st, c, v): return ret(st, Agg('Region', None, (v[0],)))


@contract('LanguageIdentifier::from_raw_parts_unchecked')
def _(ex, st, c, v): return ret(st, Agg('LanguageIdentifier', None, tuple(v)))


# ---- misc ------------------------------------------------------------------------------------
for _n in ('panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking::unreachable_display', 'rt::panic_fmt',
           'panicking::panic_explicit', 'panicking::assert_failed', 'result::unwrap_failed', 'option::unwrap_failed', 'panicking::panic_display',
           'panicking::unreachable_default_msg', 'panicking::todo_default_msg', 'panicking::unimplemented_default_msg', 'panicking::panic_default_msg', 'option::expect_failed',
           'panicking::panic_str_2015', 'panicking::panic_str_literal', 'rt::panic_display', 'rt::begin_panic_fmt', 'panicking::begin_panic', 'panicking::assert_failed_inner', 'panicking::assert_matches_failed'):
    TABLE[_n] = lambda ex, st, c, v: [panic(st, c.callee)]


@contract('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _(ex, st, c, v):
    args = v[1].fs if isinstance(v[1], Agg) else [v[1]]
    return ex.call_value(st, v[0], list(args))


@contract('mem::drop', 'hint::black_box', 'convert::identity')
def _(ex, st, c, v):
    return ret(st, UNIT if c.method == 'drop' else v[0])


@contract('mem::take', 'mem::replace')
def _(ex, st, c, v):
    old = ex.load(st, v[0])
    if c.method == 'replace':
        ex.store(st, v[0], v[1])
    else:
        s = as_str(ex, st, old)
        if s is not None:
            ex.store(st, v[0], Agg('String', None, (Str(()),)) if isinstance(old, Agg) else Str(()))
        else:
            raise Unsupported('mem::take')
    return ret(st, old)
