"""Path-forking symbolic evaluation of MIR: generates the proof obligations of a function.

Every path of a function body is followed; library calls are replaced by their contracts
(stdc.py); calls to functions of the crate are replaced by a contract given by the caller of the
engine or, failing that, unfolded.  Whatever is not understood raises `Unsupported`; nothing is
ever skipped silently.
"""
import re
import itertools
from functools import lru_cache
import z3
from .mir import Unsupported, split_top, find_close
from . import autom as A

_ids = itertools.count(1)
INF = 2 ** 1024
fl = z3.Function('fl', z3.IntSort(), z3.RealSort())       # nearest double of an integer


class Agg:
    __slots__ = ('ty', 'var', 'fs', 'names')

    def __init__(self, ty, var, fs, names=None):
        self.ty, self.var, self.fs, self.names = ty, var, tuple(fs), names

    def __repr__(self):
        return '%s%s%r' % (self.ty, '::' + self.var if self.var else '', self.fs)

    def get(self, name):
        return self.fs[self.names.index(name)]


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return '&%s%r' % (self.cell, self.path)


class FnItem:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn ' + self.name


class Closure:
    __slots__ = ('span', 'fn', 'caps')

    def __init__(self, span, fn, caps):
        self.span, self.fn, self.caps = span, fn, tuple(caps)

    def __repr__(self):
        return 'closure@' + self.span


class Opaque:
    """A value about which only identity is known (user-supplied callbacks, error payloads...)."""
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return '?%s' % (self.tag,)

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.tag == o.tag and self.data == o.data

    def __hash__(self):
        return hash((self.tag,))


class F:
    """A double: real value (2^1024 stands for infinity), NaN flag, sign flag."""
    __slots__ = ('val', 'nan', 'neg')

    def __init__(self, val, nan=False, neg=False):
        self.val, self.nan, self.neg = val, nan, neg

    def __repr__(self):
        return 'F(%s,%s,%s)' % (self.val, self.nan, self.neg)


class Str:
    """A string slice: a concatenation of literal bytes and atoms (unknown strings of a regular language)."""
    __slots__ = ('ps',)

    def __init__(self, ps):
        self.ps = tuple(ps)

    def __repr__(self):
        return 'Str%r' % (self.ps,)


class Atom:
    __slots__ = ('id', 'name')

    def __init__(self, name):
        self.id, self.name = next(_ids), name

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


UNIT = Agg('()', None, ())


class Infeasible(Exception):
    pass


class Split(Unsupported):
    """the block has to be executed again, in each of these (smaller) states"""
    def __init__(self, states):
        Unsupported.__init__(self, 'bytes of a text')
        self.states = states


class State:
    def __init__(self):
        self.mem, self.pc = {}, []
        self.lang, self.sub = {}, {}
        self.keys = []           # (kind, pieces, const): NUM / P constants given to digit strings
        self.trace = []
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.mem, s.pc = dict(self.mem), list(self.pc)
        s.lang, s.sub, s.keys = dict(self.lang), dict(self.sub), list(self.keys)
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        return s

    def new(self, v):
        c = next(_ids)
        self.mem[c] = v
        return c

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)

    # ---- strings -----------------------------------------------------------------------
    def atom(self, name, dfa):
        a = Atom(name)
        self.lang[a.id] = dfa
        self.pc.append(z3.Int('len_%s_%d' % (a.name, a.id)) >= 0)
        return a

    def norm(self, ps):
        out = []
        for p in ps:
            if isinstance(p, Atom):
                if p.id in self.sub:
                    q = self.norm(self.sub[p.id])
                else:
                    w = A.only_word(self.lang[p.id])
                    q = (p,) if w is None else (w,)
            else:
                q = (p,)
            for x in q:
                if isinstance(x, bytes):
                    if not x:
                        continue
                    if out and isinstance(out[-1], bytes):
                        out[-1] += x
                        continue
                out.append(x)
        return tuple(out)

    def plen(self, p):
        return len(p) if isinstance(p, bytes) else z3.Int('len_%s_%d' % (p.name, p.id))

    def length(self, ps):
        t = 0
        for p in self.norm(ps):
            t = t + self.plen(p)
        return t

    def dfa_of(self, ps):
        d = A.compile_re(A.EPS)
        for p in self.norm(ps):
            d = A.concat_dfa(d, A.lit_dfa(p) if isinstance(p, bytes) else self.lang[p.id])
        return d

    def set_lang(self, a, dfa):
        if A.is_empty(dfa):
            raise Infeasible()
        self.lang[a.id] = dfa
        if not dfa.accepts(b''):
            self.pc.append(self.plen(a) >= 1)
        elif not A.has_word_of_len_ge(dfa, 1):
            self.pc.append(self.plen(a) == 0)
        w = A.only_word(dfa)
        if w is not None:
            self.pc.append(self.plen(a) == len(w))
        self._rekey()
        for kind, ps, c in list(self.keys):
            if a in ps:
                self._facts(kind, ps, c, True)

    def replace(self, a, ps):
        """atom a is the concatenation ps"""
        self.sub[a.id] = tuple(ps)
        t = 0
        for p in ps:
            t = t + self.plen(p)
        self.pc.append(self.plen(a) == t)
        self._rekey()

    def _rekey(self):
        for kind, ps, c in list(self.keys):
            n = self.norm(ps)
            if n != ps:
                c2 = self.const(kind, n)
                if not z3.eq(c2, c):
                    e = (c == c2)
                    if not any(z3.eq(e, x) for x in self.pc if z3.is_expr(x)):
                        self.pc.append(e)

    def const(self, kind, ps):
        """the integer denoted by a digit string (NUM) / the double nearest to a numeral (DBL)"""
        ps = self.norm(ps)
        for k, q, c in self.keys:
            if k == kind and q == ps:
                return c
        nm = '%s_%d' % (kind, next(_ids))
        c = z3.Int(nm) if kind == 'NUM' else z3.Real(nm)
        self.keys.append((kind, ps, c))
        self._facts(kind, ps, c)
        return c

    def know(self, e):
        if not any(z3.eq(e, x) for x in self.pc if z3.is_expr(x)):
            self.pc.append(e)

    def _facts(self, kind, ps, c, again=False):
        """what the languages of the pieces say about the number; `again`: they have become smaller"""
        d = self.dfa_of(ps)
        if kind == 'NUM':
            self.know(c >= 0)
            if all(isinstance(p, bytes) for p in ps):
                w = b''.join(ps)
                if w.isdigit() or w == b'':
                    self.know(c == (int(w) if w else 0))
            # lemma num_zero: the value is 0 exactly when all digits are 0
            if A.subset(d, A.ZEROS):
                self.know(c == 0)
            elif A.is_empty(A.inter(d, A.ZEROS)):
                self.know(c >= 1)
            # lemma num_prefix: a prefix of a digit string denotes at most as much, and if it is positive so is the whole
            for k, q, c2 in list(self.keys):
                if k == 'NUM' and q != ps:
                    if ps[:len(q)] == q:
                        self.know(z3.And(c2 <= c, z3.Implies(c2 >= 1, c >= 1)))
                        if A.subset(self.dfa_of(ps[len(q):]), A.ZEROS):
                            self.know(z3.Implies(c2 == 0, c == 0))
                    if q[:len(ps)] == ps:
                        self.know(z3.And(c <= c2, z3.Implies(c >= 1, c2 >= 1)))
                        if A.subset(self.dfa_of(q[len(ps):]), A.ZEROS):
                            self.know(z3.Implies(c == 0, c2 == 0))
        else:
            self.know(z3.And(c >= 0, c <= z3.RealVal(INF)))
            if ps and isinstance(ps[0], bytes) and ps[0][:1] == b'+':    # a plus sign does not change the number
                self.know(c == self.const('DBL', ((ps[0][1:],) if ps[0][1:] else ()) + ps[1:]))
            if A.subset(d, A.DIGITS1):
                self.know(c == self.to_double(self.const('NUM', ps)))
            elif A.subset(d, DOTTED):
                # D.E: find the piece holding the dot
                zero = A.subset(d, DOTZERO)
                for i, p in enumerate(ps):
                    if isinstance(p, bytes) and b'.' in p:
                        j = p.index(b'.')
                        x = self.const('NUM', ps[:i] + ((p[:j],) if p[:j] else ()))
                        if zero:
                            self.know(c == self.to_double(x))
                        else:    # D <= D.E < D+1 and rounding is monotone
                            self.know(z3.And(self.to_double(x) <= c, c <= self.to_double(x + 1)))
                        break

    def to_double(self, x):
        """x as f64, for an integer x"""
        if isinstance(x, int):
            return z3.RealVal(int(float(x)))
        r = fl(x)
        B = 2 ** 53
        self.pc.append(z3.And(z3.Implies(z3.And(x >= -B, x <= B), r == z3.ToReal(x)),
                              z3.Implies(x > B, r >= B), z3.Implies(x < -B, r <= -B),
                              z3.Implies(x <= 2 ** 64, r <= 2 ** 64), r <= z3.RealVal(INF), fl(-x) == -r))
        return r

    def restrict(self, ps, dfa):
        """all states in which the string is in L(dfa)"""
        ps = self.norm(ps)
        out = []

        def go(st, i, q):
            while i < len(ps) and isinstance(ps[i], bytes):
                q = dfa.delta(q, ps[i]); i += 1
            if i == len(ps):
                if q in dfa.finals:
                    out.append(st)
                return
            a = ps[i]
            rest_atoms = any(isinstance(p, Atom) for p in ps[i + 1:])
            if not rest_atoms:
                tail = b''.join(ps[i + 1:])
                good = {r for r in range(len(dfa.trans)) if dfa.delta(r, tail) in dfa.finals}
                targets = [good]
            else:
                targets = [{r} for r in range(len(dfa.trans))]
            for tg in targets:
                l2 = A.inter(st.lang[a.id], A.minimize(dfa.trans, q, tg))
                if A.is_empty(l2):
                    continue
                s2 = st.fork()
                try:
                    if l2 != st.lang[a.id]:
                        s2.set_lang(a, l2)
                except Infeasible:
                    continue
                if rest_atoms:
                    go(s2, i + 1, next(iter(tg)))
                else:
                    out.append(s2)
        go(self.fork(), 0, dfa.start)
        return out

    def split_at(self, ps, first, second, what=''):
        """all ways to write the string as x ++ y with x in L(first), y in L(second):
        list of (state, x pieces, y pieces)"""
        ps = self.norm(ps)
        out = []
        for i in range(len(ps) + 1):                       # cuts between pieces
            for s3 in self.restrict(ps[:i], first):
                for s4 in s3.restrict(ps[i:], second):
                    out.append((s4, s4.norm(ps[:i]), s4.norm(ps[i:])))
        for i, p in enumerate(ps):                         # cuts strictly inside a piece
            pre, post = ps[:i], ps[i + 1:]
            cuts = []
            if isinstance(p, bytes):
                cuts = [(p[:j], p[j:]) for j in range(1, len(p))]
            else:
                L = self.lang[p.id]
                for m in A.live(L):
                    l1 = A.inter(A.between(L, L.start, m), NONEMPTY)
                    l2 = A.inter(A.residual(L, m), NONEMPTY)
                    if not A.is_empty(l1) and not A.is_empty(l2):
                        cuts.append((l1, l2))
            for c in cuts:
                s2 = self.fork()
                if isinstance(p, bytes):
                    x, y = (c[0],), (c[1],)
                else:
                    a1 = s2.atom(p.name + 'l', c[0]); a2 = s2.atom(p.name + 'r', c[1])
                    s2.set_lang(a1, c[0]); s2.set_lang(a2, c[1])
                    s2.replace(p, (a1, a2))
                    x, y = (a1,), (a2,)
                for s3 in s2.restrict(pre + x, first):
                    for s4 in s3.restrict(y + post, second):
                        out.append((s4, s4.norm(pre + x), s4.norm(y + post)))
        return out


NONEMPTY = A.compile_re(A.cat(A.ANYB, A.star(A.ANYB)))
ANY = A.compile_re(A.star(A.ANYB))
DOTZERO = A.compile_re(A.cat(A.plus(A.DIGIT), A.ch(ord('.')), A.star(A.ch(ord('0')))))
DOTTED = A.compile_re(A.cat(A.plus(A.DIGIT), A.ch(ord('.')), A.star(A.DIGIT)))

INT_RANGE = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
             'u128': (0, 2**128 - 1), 'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
             'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1), 'char': (0, 0x10ffff)}


def wrap(x, ty):
    lo, hi = INT_RANGE[ty]
    m = hi - lo + 1
    if isinstance(x, int):
        return (x - lo) % m + lo
    return (x - lo) % m + lo


def conj(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))


def disj(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))


def neg(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def f_cmp(op, a, b):
    ok = conj(neg(a.nan), neg(b.nan))
    x, y = a.val, b.val
    r = {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y,
         'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]()
    if z3.is_expr(r):
        r = z3.simplify(r)
        r = True if z3.is_true(r) else False if z3.is_false(r) else r
    if op == 'Ne':
        return disj(neg(ok), r)
    return conj(ok, r)


def base_ty(t):
    """`std::option::Option<T>` -> `Option`"""
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    d = t.find('<')
    if t.startswith('<'):
        return t
    if d >= 0:
        t = t[:d].rstrip(':')
    return t.split('::')[-1]


# ---- MIR syntax ------------------------------------------------------------------------------
@lru_cache(maxsize=None)
def parse_place(s):
    """-> (local, projections)"""
    s = s.strip()
    pl, k = _place(s, 0)
    if k != len(s):
        raise Unsupported('place ' + s)
    return pl


def _place(s, k):
    if s[k] == '_':
        m = re.match(r'_\d+', s[k:])
        if not m:
            raise Unsupported('place ' + s)
        base = (m.group(0), ())
        k += m.end()
    elif s[k] == '(':
        e = find_close(s, k)
        inner = s[k + 1:e]
        if inner.startswith('*'):
            b = parse_place(inner[1:])
            base = (b[0], b[1] + (('deref',),))
        else:
            # "(place.N: ty)" or "(place as Variant)"
            pl, j = _place(inner, 0)
            rest = inner[j:]
            m = re.match(r'^\.(\d+): ', rest)
            if m:
                base = (pl[0], pl[1] + (('field', int(m.group(1)), rest[m.end():]),))
            elif rest.startswith(' as '):
                base = (pl[0], pl[1] + (('down', rest[4:].strip()),))
            else:
                raise Unsupported('place ' + s)
        k = e + 1
    else:
        raise Unsupported('place ' + s)
    while k < len(s) and s[k] == '[':
        e = find_close(s, k)
        t = s[k + 1:e]
        if re.match(r'^_\d+$', t):
            base = (base[0], base[1] + (('index', t),))
        else:
            m = re.match(r'^(-?)(\d+) of (\d+)$', t)
            if m:
                base = (base[0], base[1] + (('cindex', int(m.group(2)), bool(m.group(1))),))
            else:
                raise Unsupported('place ' + s)
        k = e + 1
    return base, k


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'Cmp', 'Offset'}


def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d == 'n': out += b'\n'; i += 2
            elif d == 't': out += b'\t'; i += 2
            elif d == 'r': out += b'\r'; i += 2
            elif d == '0': out += b'\0'; i += 2
            elif d == 'x': out.append(int(s[i + 2:i + 4], 16)); i += 4
            elif d == 'u':
                e = s.index('}', i)
                out += chr(int(s[i + 3:e], 16)).encode(); i = e + 1
            else: out += d.encode(); i += 2
        else:
            out += c.encode(); i += 1
    return bytes(out)


class Leaf:
    __slots__ = ('st', 'kind', 'val', 'where')

    def __init__(self, st, kind, val, where=''):
        self.st, self.kind, self.val, self.where = st, kind, val, where

    def __repr__(self):
        return '%s %r' % (self.kind, self.val)


NOTEMPTY = A.compile_re(A.plus(A.ANYB))


def text_lengths(e):
    """[(atom, its length)] of the texts whose length a condition is about"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.match(r'len_.*_(\d+)$', x.decl().name())
            if m:
                out.append((int(m.group(1)), x))
        todo += x.children()
    return out


class Engine:
    def __init__(self, prog, structs=None, contracts=None, hooks=None, max_leaves=20000):
        self.p = prog
        self.structs = structs or {}
        from . import stdc
        self.lib = stdc
        self.overrides = contracts or []          # list of (predicate(callee, argtys) -> bool, contract)
        self.used_contracts = {}
        self.unfolded = set()
        self.max_leaves = max_leaves
        self.nfeas = 0
        self.consts = {}
        self.depth = 0
        self.steps = 0
        self.max_steps = 2000000
        self.parser_hook = None
        self.expand_hook = None

    # ---- feasibility -------------------------------------------------------------------
    def feasible(self, st):
        self.nfeas += 1
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*[c for c in st.pc if z3.is_expr(c)])
        return s.check() != z3.unsat

    def entails(self, st, c):
        if isinstance(c, bool):
            return c
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*[x for x in st.pc if z3.is_expr(x)])
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    # ---- memory ------------------------------------------------------------------------
    def load_path(self, v, path):
        for p in path:
            if isinstance(v, Closure):
                v = v.caps[p]
            elif isinstance(v, Agg):
                if not isinstance(p, int) or p >= len(v.fs):
                    raise Unsupported('field %r of %r' % (p, v))
                v = v.fs[p]
            elif isinstance(v, Opaque):
                v = Opaque(('field', p, v.tag))
            else:
                raise Unsupported('projection %r of %r' % (p, v))
        return v

    def load(self, st, r):
        if isinstance(r, (Str, FnItem, Opaque)):
            return r
        if r.cell not in st.mem:
            raise Unsupported('read of unset place')
        return self.load_path(st.mem[r.cell], r.path)

    def deep(self, st, v):
        """follow references to the value"""
        while isinstance(v, Ref):
            v = self.load(st, v)
        return v

    def store(self, st, r, val):
        if not r.path:
            st.mem[r.cell] = val
            return

        def upd(v, path):
            if not path:
                return val
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= path[0]:
                    fs.append(None)
                fs[path[0]] = upd(fs[path[0]], path[1:])
                return Agg(v.ty, v.var, fs, v.names)
            if v is None:
                fs = [None] * (path[0] + 1)
                fs[path[0]] = upd(None, path[1:])
                return Agg('?', None, fs)
            raise Unsupported('store into %r' % (v,))
        st.mem[r.cell] = upd(st.mem.get(r.cell), r.path)

    def place(self, st, fr, text):
        """-> Ref, or a by-value string/opaque reached through a dereference"""
        loc, projs = parse_place(text)
        cur = Ref(fr[loc])
        for pj in projs:
            if isinstance(cur, (Str, Opaque)):
                if pj[0] == 'deref':
                    continue
                if isinstance(cur, Opaque) and pj[0] == 'field':
                    cur = Opaque(('field', pj[1], cur.tag))
                    continue
                raise Unsupported('projection %r of a %s' % (pj, type(cur).__name__))
            if pj[0] == 'deref':
                v = self.load(st, cur)
                if isinstance(v, Ref):
                    cur = v
                elif isinstance(v, (Str, Opaque)):
                    cur = v
                elif isinstance(v, Agg) and v.ty == 'Box':
                    cur = v.fs[0]
                elif isinstance(v, Agg) and v.ty == 'StrBytes' and v.fs[2] == 'as_bytes':
                    continue
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif pj[0] == 'field':
                cur = Ref(cur.cell, cur.path + (pj[1],))
            elif pj[0] == 'down':
                v = self.load(st, cur)
                if isinstance(v, Agg) and v.var is not None and v.var != pj[1]:
                    raise Unsupported('downcast of %s to %s' % (v.var, pj[1]))
            elif pj[0] == 'index':
                ix = self.load(st, Ref(fr[pj[1]]))
                v = self.load(st, cur)
                if isinstance(v, Agg) and v.ty == 'StrBytes':
                    cur = Ref(st.new(self.byte_at(st, v.fs[0].ps, ix)))
                    continue
                if z3.is_expr(ix):
                    ix = self.concretize(st, ix)
                if not isinstance(v, Agg) or not isinstance(ix, int) or not 0 <= ix < len(v.fs):
                    raise Unsupported('index %r' % (ix,))
                cur = Ref(cur.cell, cur.path + (ix,))
            elif pj[0] == 'cindex':
                v = self.load(st, cur)
                if isinstance(v, Agg) and v.ty == 'StrBytes':
                    ix = st.length(v.fs[0].ps) - pj[1] if pj[2] else pj[1]
                    cur = Ref(st.new(self.byte_at(st, v.fs[0].ps, ix)))
                    continue
                if not isinstance(v, Agg):
                    raise Unsupported('constant index into %r' % (v,))
                ix = len(v.fs) - pj[1] if pj[2] else pj[1]
                cur = Ref(cur.cell, cur.path + (ix,))
        return cur

    here = None                                  # the function whose block is executed

    def byte_at(self, st, ps, ix):
        """the byte of a text at an index inside it; raises Split where it has to be told apart first"""
        from . import stdc
        ps = st.norm(ps)
        if isinstance(ix, int):
            ix = z3.IntVal(ix)
        for k in range(len(ps) + 1):
            n = st.length(ps[:k])
            for i, p, end in ((n, ps[k:], 0), (n - 1, ps[:k], -1)):
                if not p or not self.entails(st, ix == i):
                    continue
                q = p[0] if end == 0 else p[-1]
                if isinstance(q, bytes):
                    return q[end]
                cases = stdc.byte_cases(self, st, p, end, self.here)
                if len(cases) != 1:
                    raise Split([s for s, _ in cases])
                s, b = cases[0]
                st.pc[:] = s.pc
                return b
        if all(isinstance(p, bytes) for p in ps):
            j = self.concretize(st, ix)
            return b''.join(ps)[j]
        raise Unsupported('byte of a text at an index')

    def concretize(self, st, t):
        s = z3.Solver(); s.set('timeout', 3000)
        s.add(*[x for x in st.pc if z3.is_expr(x)])
        if s.check() != z3.sat:
            raise Unsupported('cannot concretize')
        v = s.model().eval(t, model_completion=True)
        if not z3.is_int_value(v) or not self.entails(st, t == v):
            raise Unsupported('symbolic index')
        return v.as_long()

    # ---- constants ---------------------------------------------------------------------
    def const(self, st, text, fn):
        t = text.strip()
        m = re.match(r'^(-?\d+)_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$', t)
        if m:
            return int(m.group(1))
        if t in ('true', 'false'):
            return t == 'true'
        if t == '()':
            return UNIT
        m = re.match(r'^(-?[\d.]+(?:[eE][+-]?\d+)?|-?inf|NaN|\+?inf)_?(f64|f32)$', t)
        if m:
            if m.group(1) == 'NaN':
                return F(z3.RealVal(0), True, False)
            x = float(m.group(1))
            if x in (float('inf'), float('-inf')):
                return F(z3.RealVal(INF if x > 0 else -INF), False, x < 0)
            num, den = x.as_integer_ratio()
            return F(z3.Q(num, den) if den != 1 else z3.RealVal(num), False, m.group(1).startswith('-'))
        if t.startswith('"'):
            return Str((unescape(t[1:-1]),))
        if t.startswith('b"'):
            return Ref(st.new(Agg('bytes', None, list(unescape(t[2:-1])))))
        m = re.match(r"^'(.*)'$", t, re.S)
        if m:
            return ord(unescape(m.group(1)).decode())
        m = re.match(r'^\{(alloc\d+): (.*)\}$', t)
        if m:
            nm = self.p.allocs.get(m.group(1))
            if nm is None:
                raise Unsupported('const ' + t)
            return Ref(self.global_cell(st, nm))
        m = re.search(r'::promoted\[(\d+)\]$', t)
        if m and fn is not None and int(m.group(1)) in fn.promoted:
            return self.eval_const(st, fn.promoted[int(m.group(1))])
        return self.path_value(st, t)

    def global_cell(self, st, name):
        """cell of a static"""
        k = ('static', name)
        f = self.find_named(name, ('static', 'static mut'))
        if f is None or f.kind == 'static mut':
            raise Unsupported('static ' + name)
        if k not in st.ghost:
            v = self.eval_const(st, f)
            st.ghost[k] = st.new(v)
        return st.ghost[k]

    def find_named(self, name, kinds):
        fs = [f for f in self.p.by_name.get(name, []) if f.kind in kinds]
        if not fs:
            # paths are printed relative to the crate; allow a unique suffix
            fs = [f for f in self.p.fns if f.kind in kinds and (f.name.endswith('::' + name) or name.endswith('::' + f.name))]
        if len(fs) > 1 and len({f.name for f in fs}) == 1 and 'promoted' in name:
            return fs[0]
        return fs[0] if len(fs) == 1 else None

    def eval_const(self, st, f):
        if id(f) in self.consts:
            val, mem = self.consts[id(f)]
        else:
            s = State()
            lv = self.run(f, [], s)
            lv = [l for l in lv if l.kind == 'return']
            if len(lv) != 1 or lv[0].st.pc:
                raise Unsupported('constant ' + f.name)
            val, mem = lv[0].val, lv[0].st.mem
            self.consts[id(f)] = (val, mem)
        st.mem.update(mem)
        return val

    WELL = {'MAX': 1, 'MIN': 0}

    def path_value(self, st, t):
        """a bare path: constant, unit variant or function item"""
        m = re.match(r'^(?:core::num::<impl (\w+)>|(?:std::|core::)?(\w+))::(MAX|MIN|BITS)$', t)
        if m and (m.group(1) or m.group(2)) in INT_RANGE:
            lo, hi = INT_RANGE[m.group(1) or m.group(2)]
            if m.group(3) == 'BITS':
                return (hi - lo).bit_length()
            return hi if m.group(3) == 'MAX' else lo
        f = self.find_named(t, ('const',))
        if f is not None:
            return self.eval_const(st, f)
        v = self.variant(t)
        if v:
            return Agg(v[0], v[1], ())
        return FnItem(t)

    def variant(self, t):
        """`path::Enum::<..>::Variant` -> (Enum, Variant)"""
        segs = path_segments(t)
        if len(segs) >= 2:
            en, va = segs[-2], segs[-1]
            e = re.sub(r'<.*$', '', en, flags=re.S).rstrip(':')
            if not re.match(r'^\w+$', e):
                return None
            e = e.split('::')[-1]
            if e in self.p.enums and va in self.p.enums[e]:
                return e, va
        return None

    # ---- operands and rvalues ----------------------------------------------------------
    def operand(self, st, fr, t, fn):
        t = t.strip()
        if t.startswith('no_retag '):
            t = t[9:]
        if t.startswith('copy ') or t.startswith('move '):
            pl = self.place(st, fr, t[5:])
            if isinstance(pl, (Str, Opaque)):
                return pl
            return self.load(st, pl)
        if t.startswith('const '):
            return self.const(st, t[6:], fn)
        if re.match(r'^[_(]', t):
            pl = self.place(st, fr, t)
            return pl if isinstance(pl, (Str, Opaque)) else self.load(st, pl)
        return self.path_value(st, t)

    def op_type(self, fn, t):
        t = t.strip()
        if t.startswith('no_retag '):
            t = t[9:]
        if t[:5] in ('copy ', 'move '):
            loc, pj = parse_place(t[5:])
            if not pj:
                return fn.locals.get(loc, '?')
            if pj[-1][0] == 'field':
                return pj[-1][2]
            if all(x[0] == 'deref' for x in pj):
                ty = fn.locals.get(loc, '?')
                for _ in pj:
                    ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
                return ty
            return '?'
        m = re.search(r'_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f64|f32)$', t)
        if m:
            return m.group(1)
        if t.startswith("const '"):
            return 'char'
        if t in ('const true', 'const false'):
            return 'bool'
        if t.startswith('const "'):
            return '&str'
        m = re.match(r'^const (\{closure@.*\})$', t)
        return '?'

    def rvalue(self, st, fr, t, fn, dest_ty):
        t = t.strip()
        if t.startswith('no_retag '):
            t = t[9:]
        if t.startswith('&'):
            q = re.sub(r"^&(raw (const|mut) |mut |fake \w* ?|'\w+ )?", '', t)
            pl = self.place(st, fr, q)
            return pl
        if re.match(r'^(copy|move|const) ', t):
            m = self.split_cast(t)
            if m:
                return self.cast(st, fr, m[0], m[1], m[2], fn)
            return self.operand(st, fr, t, fn)
        m = re.match(r'^(\w+)\(', t)
        if m and find_close(t, m.end() - 1) == len(t) - 1:
            op = m.group(1)
            args = split_top(t[m.end():-1])
            if op in BINOPS and len(args) == 2:
                return self.binop(st, fr, op, args, fn, dest_ty)
            if op in ('Not', 'Neg') and len(args) == 1:
                v = self.operand(st, fr, args[0], fn)
                if op == 'Not':
                    if isinstance(v, bool) or z3.is_bool(v):
                        return neg(v)
                    ty = self.op_type(fn, args[0])
                    if ty in INT_RANGE and INT_RANGE[ty][0] == 0:
                        return INT_RANGE[ty][1] - v
                    raise Unsupported(t)
                if isinstance(v, F):
                    return F(-v.val, v.nan, neg(v.neg))
                return wrap(-v, dest_ty)
            if op == 'discriminant':
                pl = self.place(st, fr, args[0])
                v = self.load(st, pl)
                return self.discr(v)
            if op in ('PtrMetadata', 'Len'):
                v = self.operand(st, fr, args[0], fn) if op == 'PtrMetadata' else self.load(st, self.place(st, fr, args[0]))
                if isinstance(v, Str):
                    return st.length(v.ps)
                v = self.deep(st, v)
                if isinstance(v, Agg) and v.ty == 'StrBytes' and v.fs[2] == 'as_bytes':
                    return st.length(v.fs[0].ps)
                if isinstance(v, Agg):
                    return len(v.fs)
                raise Unsupported(t)
            if op == 'CopyForDeref':
                return self.load(st, self.place(st, fr, args[0]))
        # aggregates
        if t.startswith('(') and find_close(t, 0) == len(t) - 1:
            return Agg('tuple', None, [self.operand(st, fr, a, fn) for a in split_top(t[1:-1])])
        if t.startswith('[') and find_close(t, 0) == len(t) - 1:
            inner = t[1:-1]
            rep = split_top(inner, ';')
            if len(rep) == 2 and re.match(r'^\d+$', rep[1]):
                return Agg('array', None, [self.operand(st, fr, rep[0], fn)] * int(rep[1]))
            return Agg('array', None, [self.operand(st, fr, a, fn) for a in split_top(inner)])
        m = re.match(r'^\{closure@([^}]*)\}', t)
        if m:
            rest = t[m.end():].strip()
            caps = []
            if rest.startswith('{'):
                for a in split_top(rest[1:-1]):
                    caps.append(self.operand(st, fr, a.split(': ', 1)[1], fn))
            return self.closure(m.group(1), caps, fn)
        if t.endswith('}'):
            # Struct { a: x, b: y }
            k = self._brace(t)
            name = t[:k].strip()
            names, vals = [], []
            for a in split_top(t[k + 1:-1]):
                nm, v = a.split(': ', 1)
                names.append(nm.strip()); vals.append(self.operand(st, fr, v, fn))
            va = self.variant(name)
            if va:
                return Agg(va[0], va[1], vals, tuple(names))
            return Agg(base_ty(name), None, vals, tuple(names))
        if t.endswith(')'):
            k = self._lastparen(t)
            name = t[:k].strip()
            vals = [self.operand(st, fr, a, fn) for a in split_top(t[k + 1:-1])]
            va = self.variant(name)
            if va:
                return Agg(va[0], va[1], vals)
            if name:
                return Agg(base_ty(name), None, vals)
        m = self.split_cast(t)
        if m:
            return self.cast(st, fr, m[0], m[1], m[2], fn)
        if re.match(r'^[\w<{]', t) and not t.endswith(')'):
            v = self.path_value(st, t)
            if isinstance(v, FnItem) and base_ty(t) == base_ty(dest_ty) and not self.is_fn(t):
                return Agg(base_ty(t), None, ())
            return v
        raise Unsupported('rvalue ' + t[:160])

    def is_fn(self, t):
        return t in self.p.by_name

    @staticmethod
    def _brace(t):
        depth = 0
        for k in range(len(t) - 1, -1, -1):
            c = t[k]
            if c == '}':
                depth += 1
            elif c == '{':
                depth -= 1
                if depth == 0:
                    return k
        raise Unsupported(t[:80])

    @staticmethod
    def _lastparen(t):
        # the argument list is the bracket group that closes at the end
        i, n = 0, len(t)
        while i < n:
            c = t[i]
            if c in '([{<':
                e = find_close(t, i)
                if e == n - 1:
                    return i
                i = e + 1
                continue
            i += 1
        raise Unsupported(t[:80])

    @staticmethod
    def split_cast(t):
        m = re.match(r'^(.*) as (.*) \((\w[^()]*(?:\(.*\))?[^()]*)\)$', t, re.S)
        if not m:
            return None
        # operand must be balanced
        if m.group(1).count('(') != m.group(1).count(')'):
            return None
        return m.group(1), m.group(2), m.group(3)

    def discr(self, v):
        if isinstance(v, Agg) and v.var is not None:
            e = self.p.enums.get(v.ty)
            if e is None:
                raise Unsupported('discriminant of ' + str(v.ty))
            return e[v.var]
        if isinstance(v, Agg) and v.names == ('__sym_discr',):
            return v.fs[0]
        raise Unsupported('discriminant of %r' % (v,))

    def closure(self, span, caps, fn):
        fs = self.p.closures.get(span, [])
        if not fs:
            raise Unsupported('closure ' + span)
        if len(fs) > 1:
            # a macro expanded several times: the instance nested in the current function
            c = [f for f in fs if f.name.startswith(fn.name + '::')]
            later = [f for f in c if f.pos > fn.pos]
            if not later:
                raise Unsupported('ambiguous closure ' + span)
            # same-named parents (macro-generated impls): closures follow their parent in the text
            nxt = [f.pos for f in self.p.by_name.get(fn.name, []) if f.pos > fn.pos]
            lim = min(nxt) if nxt else 10 ** 12
            ok = [f for f in later if f.pos < lim]
            if len(ok) != 1:
                raise Unsupported('ambiguous closure ' + span)
            fs = ok
        return Closure(span, fs[0], caps)

    def cast(self, st, fr, op, ty, kind, fn):
        v = self.operand(st, fr, op, fn)
        src = self.op_type(fn, op)
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Transmute') and False:
            return v
        if kind.startswith('IntToInt'):
            if isinstance(v, bool):
                return int(v)
            if z3.is_bool(v):
                return z3.If(v, 1, 0)
            if isinstance(v, Agg):
                return wrap(self.discr(v), ty)
            if ty not in INT_RANGE:
                raise Unsupported('cast to ' + ty)
            if src in INT_RANGE and INT_RANGE[ty][0] <= INT_RANGE[src][0] and INT_RANGE[src][1] <= INT_RANGE[ty][1]:
                return v
            return wrap(v, ty)
        if kind.startswith('IntToFloat'):
            if ty != 'f64':
                raise Unsupported('cast to ' + ty)
            return F(st.to_double(v), False, (v < 0))
        if kind.startswith('FloatToInt'):
            lo, hi = INT_RANGE[ty]
            tr = z3.If(v.val >= 0, z3.ToInt(v.val), -z3.ToInt(-v.val))
            r = z3.If(tr < lo, z3.IntVal(lo), z3.If(tr > hi, z3.IntVal(hi), tr))
            if v.nan is True:
                return 0
            r = r if v.nan is False else z3.If(v.nan, 0, r)
            r = z3.simplify(r)
            return r.as_long() if z3.is_int_value(r) else r
        if kind.startswith('FloatToFloat') and src == 'f32' and ty == 'f64':
            return v
        raise Unsupported('cast %s (%s)' % (ty, kind))

    def binop(self, st, fr, op, args, fn, dest_ty):
        a, b = [self.operand(st, fr, x, fn) for x in args]
        ty = self.op_type(fn, args[0])
        if ty == '?':
            ty = self.op_type(fn, args[1])
        if isinstance(a, F) or isinstance(b, F):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return f_cmp(op, a, b)
            if op == 'Rem' and z3.is_rational_value(b.val) and b.val.denominator_as_long() == 1 and b.val.numerator_as_long() > 0 and a.neg is False:
                # fmod is exact: x - k*floor(x/k) for x >= 0, k > 0 (finite x)
                k = b.val.numerator_as_long()
                return F(a.val - k * z3.ToReal(z3.ToInt(a.val / k)), a.nan, False)
            raise Unsupported('float ' + op)
        isb = (isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b))
        if op in ('Eq', 'Ne'):
            if isb and (z3.is_expr(a) or z3.is_expr(b)):
                a2 = z3.BoolVal(a) if isinstance(a, bool) else a
                b2 = z3.BoolVal(b) if isinstance(b, bool) else b
                r = a2 == b2
            elif not (isinstance(a, (int, bool)) or z3.is_expr(a)):
                raise Unsupported('comparison of %r' % (a,))
            else:
                r = a == b
            return r if op == 'Eq' else neg(r)
        if isb and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                return conj(a, b)
            if op == 'BitOr':
                return disj(a, b)
            return disj(conj(a, neg(b)), conj(neg(a), b))
        if isb and op in ('Lt', 'Le', 'Gt', 'Ge'):
            x, y = [(int(v) if isinstance(v, bool) else z3.If(v, 1, 0)) for v in (a, b)]
            a, b = x, y
        if op == 'Lt': return a < b
        if op == 'Le': return a <= b
        if op == 'Gt': return a > b
        if op == 'Ge': return a >= b
        if op == 'Cmp':
            raise Unsupported('Cmp')
        if ty not in INT_RANGE:
            raise Unsupported('%s on %s' % (op, ty))
        lo, hi = INT_RANGE[ty]
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Mul' and z3.is_expr(a) and z3.is_expr(b):
                raise Unsupported('nonlinear multiplication')
            x = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            if op.endswith('WithOverflow'):
                ov = disj(x < lo, x > hi)
                return Agg('tuple', None, [wrap(x, ty) if not z3.is_expr(x) else z3.If(ov, wrap(x, ty), x), ov])
            return wrap(x, ty)
        if base in ('Div', 'Rem'):
            if z3.is_expr(b):
                raise Unsupported('division by a variable')
            if b == 0:
                raise Unsupported('division by zero')
            if isinstance(a, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if base == 'Div' else a - q * b
            if lo == 0:
                return a / b if base == 'Div' else a % b
            q = z3.If(a >= 0, a / abs(b), -((-a) / abs(b)))
            q = q if b > 0 else -q
            return q if base == 'Div' else a - q * b
        if isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'Shl': wrap(a << b, ty) if b < 200 else 0, 'Shr': a >> b}[base]
        if base == 'BitAnd' and isinstance(b, int) and (b + 1) & b == 0:
            return a % (b + 1)
        if base == 'Shr' and isinstance(b, int):
            return a / (2 ** b)
        if base == 'Shl' and isinstance(b, int):
            return wrap(a * 2 ** b, ty)
        raise Unsupported('%s on symbolic values' % op)

    # ---- control flow ------------------------------------------------------------------
    def run(self, fn, args, st):
        """-> list of leaves"""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            if len(args) != len(fn.args):
                raise Unsupported('arity of ' + fn.name)
            fr = {}
            for loc in fn.locals:
                fr[loc] = next(_ids)
            fr.setdefault('_0', next(_ids))
            for (nm, _), v in zip(fn.args, args):
                st.mem[fr[nm]] = v
            if fn.ret == '()':
                st.mem[fr['_0']] = UNIT
            leaves, work = [], [(st, 0, {})]
            while work:
                st, bb, visits = work.pop()
                r = self.block(fn, fr, st, bb, visits)
                for x in r:
                    if isinstance(x, Leaf):
                        leaves.append(x)
                    else:
                        work.append(x)
                if len(leaves) > self.max_leaves:
                    raise Unsupported('too many paths')
            if self.drop_frames and fn.kind == 'fn':
                cells = set(fr.values())
                for l in leaves:
                    if l.kind == 'return':
                        for c in cells:
                            l.st.mem.pop(c, None)
            return leaves
        finally:
            self.depth -= 1

    drop_frames = False

    def block(self, fn, fr, st, bb, visits):
        """execute one block; -> continuations and leaves"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        n = visits.get(bb, 0) + 1
        if n > 600 or n > 24 and visits.get('str', 0) > 24:
            raise Unsupported('loop without invariant in ' + fn.name)
        visits = dict(visits)
        visits[bb] = n
        stmts = fn.blocks[bb]
        if n == 1:
            r = self.trim_loop(fn, fr, st, bb, visits)
            if r is not None:
                return r
        old = st.fork() if any(re.search(r'\[(_\d+|-?\d+ of \d+)\]', s) for s in stmts) else None
        self.here = fn
        try:
            for s in stmts[:-1]:
                self.stmt(fn, fr, st, s)
            return self.term(fn, fr, st, stmts[-1], visits)
        except Infeasible:
            return []
        except Split as e:
            return [(s, bb, dict(visits, **{'split': visits.get('split', 0) + 1})) for s in self.again(old, e, visits)]

    def again(self, old, e, visits):
        if old is None or visits.get('split', 0) > 40:
            raise Unsupported('bytes of a text')
        for s in e.states:
            s.mem = dict(old.mem)
        return e.states

    # ---- loops that strip a text -------------------------------------------------------
    # Contract: a loop whose only carried variable is a text x (or an index end <= len(x) into a text), and of which one iteration from an
    # arbitrary x either removes the bytes r from the end (front) of x, x then ending (starting) with r, or leaves the loop, x then not
    # ending (starting) with r, computes trim_end_matches (trim_start_matches).  Both are obligations, discharged on an arbitrary text;
    # the length is the measure.
    def trim_loop(self, fn, fr, st, bb, visits):
        succ, reach, livein = self.flow(fn)
        if bb not in reach[bb] or fn.kind != 'fn':
            return None
        B = {b for b in reach[bb] if bb in reach[b]}
        if len(B) > 12 or self.looping or not any(b not in B and bb in succ[b] for b in fn.blocks):
            return None
        mod = set()
        for b in B:
            for s in fn.blocks[b]:
                if '&mut' in s or '&raw' in s:
                    return None
                m = re.match(r'^\(*\**(_\d+)', s)
                if m and ' = ' in s:
                    mod.add(m.group(1))
        car = sorted(mod & livein[bb])
        if len(car) != 1 or car[0] not in fr:
            return None
        x = car[0]
        v = st.mem.get(fr[x])
        self.looping = True
        try:
            if isinstance(v, Str):
                plan = self.trim_text(fn, fr, st, bb, B, x)
            elif z3.is_expr(v) and z3.is_int(v):
                plan = self.trim_index(fn, fr, st, bb, B, x, livein[bb])
            else:
                return None
        except Unsupported:
            return None
        finally:
            self.looping = False
        if plan is None:
            return None
        r, back, text = plan
        ps = v.ps if text is None else text
        if back:
            first, second = A.compl(A.compile_re(A.cat(A.star(A.ANYB), A.lit(r)))), A.compile_re(A.star(A.lit(r)))
        else:
            first, second = A.compile_re(A.star(A.lit(r))), A.compl(A.compile_re(A.cat(A.lit(r), A.star(A.ANYB))))
        out = []
        for s, a, b in st.split_at(ps, first, second):
            s.mem[fr[x]] = Str(a if back else b) if text is None else s.length(a)
            out.append((s, bb, visits))
        self.trims = getattr(self, 'trims', 0) + 1
        return out

    looping = False

    def iteration(self, fn, fr, s, bb, B):
        """one iteration from the head: (kind, state) with kind back or exit"""
        res, work = [], [(s, bb, {bb: 1}, True)]
        while work:
            st, b, vis, first = work.pop()
            if b == bb and not first:
                res.append(('back', st)); continue
            if b not in B:
                res.append(('exit', st)); continue
            for w in self.block(fn, fr, st, b, vis):
                if isinstance(w, Leaf):
                    raise Unsupported('loop body')
                work.append(w + (first and w[2].get('split', 0) > vis.get('split', 0),))
            if len(res) + len(work) > 60:
                raise Unsupported('loop body')
        return res

    def unchanged(self, fn, fr, st, s, bb, x):
        """nothing that outlives the iteration has changed, apart from x"""
        live = self.flow(fn)[2][bb]
        dead = {fr[l] for l in fn.locals if l in fr and l not in live}
        return s.ghost == st.ghost and all(c == fr[x] or c in dead or s.mem.get(c) is val for c, val in st.mem.items())

    def trim_text(self, fn, fr, st, bb, B, x):
        g = st.fork()
        y = g.atom('Y', A.compile_re(A.star(A.UTF8_CHAR)))
        g.mem[fr[x]] = Str((y,))
        g.pc.append(g.length((y,)) < 2 ** 63)                # no Rust slice is longer
        rs, exits = set(), []
        for kind, s in self.iteration(fn, fr, g.fork(), bb, B):
            if kind == 'exit':
                exits.append(s); continue
            v = s.mem.get(fr[x])
            if not isinstance(v, Str) or not self.unchanged(fn, fr, g, s, bb, x):
                return None
            whole, new = s.norm((y,)), s.norm(v.ps)
            k = len(new)
            if k < len(whole) and whole[:k] == new and all(isinstance(p, bytes) for p in whole[k:]):
                rs.add((b''.join(whole[k:]), True))
            elif k < len(whole) and whole[len(whole) - k:] == new and all(isinstance(p, bytes) for p in whole[:-k] if k):
                rs.add((b''.join(whole[:len(whole) - k]), False))
            else:
                return None
        return self.stripped(rs, [(s, (y,)) for s in exits], None)

    def stripped(self, rs, exits, text):
        if len(rs) != 1:
            return None
        r, back = next(iter(rs))
        d = A.compile_re(A.cat(A.star(A.ANYB), A.lit(r)) if back else A.cat(A.lit(r), A.star(A.ANYB)))
        if not r or any(b >= 128 for b in r) or any(A.accepts_inter(s.dfa_of(ps), d) for s, ps in exits):
            return None
        return r, back, text

    def trim_index(self, fn, fr, st, bb, B, x, live):
        """end, counted down from the length of a text seen as bytes"""
        used = set()
        for b in B:
            for s in fn.blocks[b]:
                used |= set(re.findall(r'\b_\d+\b', s))
        end = st.mem[fr[x]]
        for l in sorted(used & live):
            t = st.mem.get(fr.get(l))
            c = fr.get(l)
            while isinstance(t, Ref) and not t.path:
                c, t = t.cell, st.mem.get(t.cell)
            q = t.fs[0] if isinstance(t, Agg) and t.ty == 'StrBytes' else t
            if not isinstance(q, Str) or not self.entails(st, end == st.length(q.ps)):
                continue
            g = st.fork()
            u = A.compile_re(A.star(A.UTF8_CHAR))
            y1, y2 = g.atom('Y', u), g.atom('Z', u)
            q2 = Str((y1, y2))
            g.pc.append(g.length(q2.ps) < 2 ** 63)
            g.mem[c] = Agg('StrBytes', None, (q2,) + t.fs[1:]) if q is not t else q2
            e0 = g.length((y1,))
            g.mem[fr[x]] = e0
            rs, exits, ok = set(), [], True
            for kind, s in self.iteration(fn, fr, g.fork(), bb, B):
                if kind == 'exit':
                    exits.append(s); continue
                v = s.mem.get(fr[x])
                whole = s.norm((y1,))
                if not self.unchanged(fn, fr, g, s, bb, x) or isinstance(v, (Agg, Str, Ref)) or not self.entails(s, v == e0 - 1):
                    ok = False; break
                ws = [w for w in range(128) if A.subset(s.dfa_of((y1,)), A.compile_re(A.cat(A.star(A.ANYB), A.ch(w))))]
                if len(ws) != 1:
                    ok = False; break
                rs.add((bytes(ws), True))
            if ok:
                r = self.stripped(rs, [(s, (y1,)) for s in exits], q.ps)
                if r is not None:
                    return r
        return None

    def flow(self, fn):
        """successors, reachability and live locals at each terminator"""
        if self._flow is None:
            self._flow = {}
        if fn.name in self._flow and self._flow[fn.name][0] is fn:
            return self._flow[fn.name][1]
        succ, use, deff = {}, {}, {}
        for b, ss in fn.blocks.items():
            t = ss[-1] if ss else ''
            t2 = re.sub(r'unwind:? ?(bb\d+|\w+(\(\w+\))?)', '', t)
            succ[b] = [int(x) for x in re.findall(r'\bbb(\d+)\b', t2)] if '->' in t2 else []
            use[b], deff[b] = set(), set()
            for s in ss:
                u, d = self.usedef(s)
                use[b] |= u - deff[b]
                deff[b] |= d
        livein = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                o = set()
                for x in succ[b]:
                    o |= livein.get(x, set())
                n = use[b] | (o - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        reach = {}
        for b in fn.blocks:
            seen, todo = set(), list(succ[b])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += succ.get(x, [])
            reach[b] = seen
        r = (succ, reach, livein)
        self._flow[fn.name] = (fn, r)
        return r

    @staticmethod
    def usedef(s):
        if s.startswith('drop('):
            return set(), set()
        if s == 'return':
            return {'_0'}, set()
        m = re.match(r'^(_\d+) = ', s)
        if m:
            return set(re.findall(r'\b_\d+\b', s[m.end():])), {m.group(1)}
        return set(re.findall(r'\b_\d+\b', s)), set()

    _flow = None

    def stmt(self, fn, fr, st, s):
        m = re.match(r'^discriminant\((.*)\) = (\d+)$', s)
        if m:
            raise Unsupported('SetDiscriminant')
        if re.match(r'^(assume|Deinit|FakeRead|Nop)', s):
            return
        k = self.assign_pos(s)
        if k < 0:
            raise Unsupported('statement ' + s[:120])
        lhs, rhs = s[:k], s[k + 3:]
        dest = self.place(st, fr, lhs)
        v = self.rvalue(st, fr, rhs, fn, self.lhs_ty(fn, lhs))
        if not isinstance(dest, Ref):
            raise Unsupported('assignment through ' + lhs)
        self.store(st, dest, v)

    @staticmethod
    def assign_pos(s):
        # first " = " outside brackets
        if s[0] == '_':
            return s.find(' = ')
        if s[0] == '(':
            e = find_close(s, 0)
            return s.find(' = ', e)
        return -1

    def lhs_ty(self, fn, lhs):
        loc, pj = parse_place(lhs)
        if not pj:
            return fn.locals.get(loc, '?')
        return pj[-1][2] if pj[-1][0] == 'field' else '?'

    def branch(self, st, cond):
        """-> (state if true or None, state if false or None)"""
        if isinstance(cond, bool):
            return (st, None) if cond else (None, st)
        a, b = st.fork(), st
        a.pc.append(cond)
        b.pc.append(z3.Not(cond))
        lens = text_lengths(cond)
        return tuple(s if self.feasible(s) and (not lens or self.learn_lengths(s, lens)) else None for s in (a, b))

    def learn_lengths(self, st, lens):
        """what is known about the length of a text (none, some) goes into its language"""
        for i, c in lens:
            d = st.lang.get(i)
            if d is None or i in st.sub or not d.accepts(b'') or not A.has_word_of_len_ge(d, 1):
                continue
            if self.entails(st, c == 0):
                st.lang[i] = A.compile_re(A.EPS)
            elif self.entails(st, c >= 1):
                st.lang[i] = A.inter(d, NOTEMPTY)
            else:
                continue
            st._rekey()
        return True

    def term(self, fn, fr, st, t, visits):
        if t == 'return':
            return [Leaf(st, 'return', st.mem.get(fr['_0'], UNIT))]
        m = re.match(r'^goto -> bb(\d+)$', t)
        if m:
            return [(st, int(m.group(1)), visits)]
        if t == 'unreachable':
            return [Leaf(st, 'unreachable', None, fn.name)] if self.feasible(st) else []
        if t.startswith('switchInt('):
            e = find_close(t, 9)
            v = self.operand(st, fr, t[10:e], fn)
            tg = re.search(r'-> \[(.*)\]$', t).group(1)
            arms, other = [], None
            for a in split_top(tg):
                k, b = a.split(': ')
                if k == 'otherwise':
                    other = int(b[2:])
                else:
                    arms.append((int(k), int(b[2:])))
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                for k, b in arms:
                    if k == v or (v < 0 and k in (v + 2 ** 8, v + 2 ** 16, v + 2 ** 32, v + 2 ** 64, v + 2 ** 128)):
                        return [(st, b, visits)]
                return [(st, other, visits)]
            out, rest = [], st
            for k, b in arms:
                if z3.is_bool(v):
                    c = neg(v) if k == 0 else v
                else:
                    c = (v == k)
                x, rest = self.branch(rest, c)
                if x is not None:
                    out.append((x, b, visits))
                if rest is None:
                    break
            if rest is not None and other is not None:
                out.append((rest, other, visits))
            return out
        if t.startswith('drop('):
            m = re.search(r'-> \[return: bb(\d+)', t)
            return [(st, int(m.group(1)), visits)]
        if t.startswith('assert('):
            e = find_close(t, 6)
            parts = split_top(t[7:e])
            c = parts[0]
            ng = c.startswith('!')
            v = self.operand(st, fr, c[1:] if ng else c, fn)
            if ng:
                v = neg(v)
            tgt = int(re.search(r'success: bb(\d+)', t).group(1))
            ok, bad = self.branch(st, v)
            out = []
            if ok is not None:
                out.append((ok, tgt, visits))
            if bad is not None:
                out.append(Leaf(bad, 'panic', parts[1] if len(parts) > 1 else 'assert', fn.name))
            return out
        if t.startswith('falseEdge') or t.startswith('falseUnwind'):
            m = re.search(r'bb(\d+)', t)
            return [(st, int(m.group(1)), visits)]
        if t in ('resume', 'abort', 'terminate'):
            raise Unsupported(t)
        # call
        k = self.assign_pos(t)
        if k < 0:
            raise Unsupported('terminator ' + t[:120])
        lhs, rest = t[:k], t[k + 3:]
        j = self._arrow(rest)
        call, tail = rest[:j].strip(), rest[j:]
        m = re.search(r'return: bb(\d+)', tail)
        ret = int(m.group(1)) if m else None
        p = self._lastparen(call)
        callee, args = call[:p].strip(), split_top(call[p + 1:-1])
        vals = [self.operand(st, fr, a, fn) for a in args]
        tys = [self.op_type(fn, a) for a in args]
        dty = self.lhs_ty(fn, lhs)
        if callee.startswith('move ') or callee.startswith('copy '):
            fv = self.operand(st, fr, callee, fn)
            leaves = self.call_value(st, fv, vals)
        else:
            leaves = self.call(st, callee, vals, tys, dty, fn)
            if len(leaves) > 1 and '<impl str>' in callee:
                visits = dict(visits)
                visits['str'] = visits.get('str', 0) + 1
        out = []
        for lf in leaves:
            if lf.kind != 'return':
                out.append(lf)
                continue
            if ret is None:
                out.append(Leaf(lf.st, 'panic', 'diverging call ' + callee[:80], fn.name))
                continue
            dest = self.place(lf.st, fr, lhs)
            if not isinstance(dest, Ref):
                raise Unsupported('call result through ' + lhs)
            self.store(lf.st, dest, lf.val)
            out.append((lf.st, ret, visits))
        return out

    @staticmethod
    def _arrow(s):
        k = s.rfind(') -> ')
        return k + 1 if k >= 0 else len(s)

    # ---- calls -------------------------------------------------------------------------
    def call_value(self, st, fv, args):
        """call a function value"""
        fv = self.deep(st, fv) if isinstance(fv, Ref) else fv
        if isinstance(fv, Closure):
            f = fv.fn
            selfty = f.args[0][1]
            self.unfolded.add(f.name)
            s0 = Ref(st.new(fv)) if selfty.startswith('&') else fv
            return self.run(f, [s0] + list(args), st)
        if isinstance(fv, FnItem):
            return self.call(st, fv.name, list(args), ['?'] * len(args), '?', None)
        if isinstance(fv, Opaque):
            return self.lib.call_opaque(self, st, fv, args)
        if isinstance(fv, Agg) and fv.var is not None and not fv.fs and fv.ty in self.p.enums:
            return [Leaf(st, 'return', Agg(fv.ty, fv.var, args))]      # constructor of a variant used as a function
        if isinstance(fv, Agg) and fv.ty == 'Parser' and self.parser_hook:
            return self.parser_hook(st, fv, args)
        raise Unsupported('call of %r' % (fv,))

    def call(self, st, callee, vals, tys, dty, fn):
        for pred, con in self.overrides:
            if pred(callee, tys, dty):
                r = con(self, st, callee, vals, tys, dty)
                if r is not None:
                    self.used_contracts[con.__name__] = self.used_contracts.get(con.__name__, 0) + 1
                    return r
        va = self.variant(callee)
        if va:
            return [Leaf(st, 'return', Agg(va[0], va[1], vals))]
        f = self.resolve(callee, tys, dty, vals)
        if f is not None:
            self.unfolded.add(f.name)
            return self.run(f, vals, st)
        if re.match(r'^[\w:]+$', callee) and callee.split('::')[-1] in self.structs and callee.split('::')[-1][0].isupper():
            return [Leaf(st, 'return', Agg(callee.split('::')[-1], None, vals))]
        return self.lib.call(self, st, callee, vals, tys, dty, fn)

    def resolve(self, callee, tys, dty, vals):
        """a function defined in the crate, or None"""
        plain = strip_generics(callee)
        fs = [f for f in self.p.by_name.get(plain, []) if f.kind == 'fn']
        if not fs:
            fs = [f for f in self.p.by_name.get(callee, []) if f.kind == 'fn']
        if len(fs) == 1:
            return fs[0]
        segs = path_segments(callee)
        meth = strip_generics(segs[-1])
        cands = [f for f in self.p.fns if f.kind == 'fn' and f.name.endswith('>::' + meth) and '<impl at ' in f.name.rsplit('::', 1)[0]]
        if not cands:
            return None
        m = re.match(r'^<(.*) as (.*)>::[\w]+(::<.*>)?$', callee, re.S)
        if m:
            selfty, trait = m.group(1), m.group(2)
            if not self.local_type(selfty) and not self.local_impl(selfty, trait):
                return None
            g = generic_args(trait)
            ok = []
            for f in cands:
                if len(f.args) != len(vals):
                    continue
                at = [norm_ty(a[1]) for a in f.args]
                score = all(t == '?' or norm_ty(t) == a for t, a in zip(tys, at))
                if g and at and not f.args[0][1].startswith('&' + selfty):
                    score = score and norm_ty(g[0]) in at
                elif not g and at:
                    score = score and norm_ty(strip_ref(f.args[0][1])) in (norm_ty(selfty), norm_ty(strip_ref(selfty)))
                if dty != '?' and norm_ty(f.ret) != norm_ty(dty):
                    score = False
                if score:
                    ok.append(f)
            if len(ok) == 1:
                return ok[0]
            if len(ok) > 1:
                raise Unsupported('ambiguous ' + callee)
            return None
        # inherent method: Type::<..>::method
        if len(segs) >= 2 and self.local_type('::'.join(segs[:-1])):
            ok = []
            for f in cands:
                if len(f.args) != len(vals):
                    continue
                ok.append(f)
            ok2 = [f for f in ok if all(t == '?' or norm_ty(t) == norm_ty(a[1]) or is_generic(a[1]) for t, a in zip(tys, f.args))]
            ok = ok2 or ok
            if len(ok) == 1:
                return ok[0]
            if len(ok) > 1:
                raise Unsupported('ambiguous ' + callee)
        return None

    def local_type(self, t):
        b = base_ty(t)
        return (b in self.structs or (b in self.p.enums and b not in STD)) and not re.match(r'^&*(std|core|alloc)::', t)

    def local_impl(self, selfty, trait):
        return False


STD = {'Option', 'Result', 'ControlFlow', 'Ordering', 'Cow'}


def is_generic(t):
    return bool(re.match(r'^&?(mut )?[A-Z]\w?$', t.strip()))


@lru_cache(maxsize=None)
def norm_ty(t):
    t = re.sub(r"'\w+ ", '', t)
    t = re.sub(r"<'\w+>", '', t)
    t = re.sub(r"'\w+, ", '', t)
    t = re.sub(r'\bfor<[^>]*> ', '', t)
    t = re.sub(r'\b(?:\w+::)+(?=\w)', '', t)
    return t.strip()


def strip_ref(t):
    return re.sub(r"^&('\w+ )?(mut )?", '', t.strip())


def generic_args(t):
    k = t.find('<')
    if k < 0:
        return []
    return split_top(t[k + 1:find_close(t, k)])


@lru_cache(maxsize=None)
def path_segments(t):
    out, cur, i = [], '', 0
    while i < len(t):
        c = t[i]
        if c in '<([{':
            e = find_close(t, i)
            cur += t[i:e + 1]
            i = e + 1
            continue
        if t.startswith('::', i) and not t.startswith('::<', i):
            out.append(cur); cur = ''
            i += 2
            continue
        cur += c
        i += 1
    out.append(cur)
    return tuple(out)


@lru_cache(maxsize=None)
def strip_generics(t):
    out, i = '', 0
    while i < len(t):
        if t.startswith('::<', i) and not t.startswith('::<impl', i):
            e = find_close(t, i + 2)
            i = e + 1
            continue
        out += t[i]
        i += 1
    return out
