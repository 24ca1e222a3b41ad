"""Contracts assumed on the nom 5 combinators (complete, &str input), over symbolic strings.

A parser value is Agg('Parser', kind, args).  `Nom.apply` gives all outcomes of applying it to a string: leaves whose
value is the Rust value `Ok((rest, output))` or `Err(nom::Err::Error(_))`.  Functions of the crate under verification are
replaced by their contract through `Nom.fn_contract` (set by the caller) or unfolded."""
import re
import z3
from . import autom as A
from .mir import Unsupported
from .sym import Agg, Ref, FnItem, Closure, Opaque, Str, Leaf, UNIT, Infeasible, Atom, NONEMPTY, strip_generics
from .stdc import ok, err, some, NONE, the_str, ret

ANY = A.compile_re(A.star(A.ANYB))
E_ERR = err(Agg('Err', 'Error', (Opaque(('nom error',)),)))


def good(st, rest, val):
    return Leaf(st, 'return', ok(Agg('tuple', None, (Str(rest), val))))


def bad(st):
    return Leaf(st, 'return', E_ERR)


def outcome(ex, l):
    """leaf -> ('ok', rest pieces, value) | ('err', 'Error'|'Failure') | None for a non-returning leaf"""
    if l.kind != 'return':
        return None
    v = ex.deep(l.st, l.val)
    if isinstance(v, Agg) and v.ty == 'Result':
        if v.var == 'Ok':
            t = v.fs[0]
            if isinstance(t, Agg) and len(t.fs) == 2:
                return 'ok', l.st.norm(the_str(ex, l.st, t.fs[0]).ps), t.fs[1]
        else:
            e = v.fs[0]
            if isinstance(e, Agg) and e.ty == 'Err' and e.var in ('Error', 'Failure'):
                return 'err', e.var
    raise Unsupported('parser result %r' % (v,))


class Nom:
    CLASSES = {'digit': b'0123456789', 'space': b' \t', 'multispace': b' \t\r\n',
               'alpha': bytes(range(65, 91)) + bytes(range(97, 123)),
               'alphanumeric': bytes(range(65, 91)) + bytes(range(97, 123)) + b'0123456789',
               'hex_digit': b'0123456789abcdefABCDEF', 'oct_digit': b'01234567'}
    COMBINATORS = {'map', 'map_res', 'map_opt', 'opt', 'alt', 'tuple', 'pair', 'preceded', 'terminated', 'delimited', 'separated_pair',
                   'separated_list', 'separated_nonempty_list', 'value', 'recognize', 'verify', 'all_consuming', 'peek', 'not', 'cut',
                   'tag', 'char', 'one_of', 'none_of', 'is_a', 'complete', 'context', 'many0', 'many1', 'cond'}

    def __init__(self):
        self.used = set()
        self.fn_contract = lambda ex, st, f, ps: None
        self.list_contract = lambda ex, st, sep, item, ps, nonempty: None
        self.expand = lambda st, atom: None                   # -> list of states in which a marked atom is replaced by pieces
        self.marked = lambda st, atom: False
        self.fn_of = lambda ex, name: None                    # crate parser function of that name

    def install(self, ex):
        ex.overrides.append((lambda c, t, d: c.startswith('nom::'), self.nom_call))
        ex.overrides.append((lambda c, t, d: self.fn_of(ex, c) is not None, self.crate_call))
        ex.parser_hook = lambda st, fv, args: self.apply(ex, st, fv, the_str(ex, st, args[0]).ps)
        ex.p.enums.setdefault('Err', {'Incomplete': 0, 'Error': 1, 'Failure': 2})
        return ex

    def nom_call(self, ex, st, callee, vals, tys, dty):
        name = strip_generics(callee).split('::')
        if name[1] not in ('combinator', 'branch', 'bytes', 'character', 'multi', 'sequence', 'error'):
            return None
        if 'streaming' in name:
            raise Unsupported('nom streaming parser')
        n = name[-1]
        self.used.add('::'.join(name))
        if n in self.COMBINATORS:
            return ret(st, Agg('Parser', n, tuple(vals)))
        m = re.match(r'^(\w+?)([01])$', n)
        if m and m.group(1) in self.CLASSES and len(vals) == 1:
            return self.prim_class(ex, st, n, the_str(ex, st, vals[0]).ps)
        raise Unsupported('no contract for `%s`' % '::'.join(name))

    def crate_call(self, ex, st, callee, vals, tys, dty):
        f = self.fn_of(ex, callee)
        s = ex.deep(st, vals[0])
        return self.fn_contract(ex, st, f, the_str(ex, st, s).ps)

    # ---- primitives --------------------------------------------------------------------
    def prim_class(self, ex, st, n, ps):
        cls, k = n[:-1], int(n[-1])
        out = []
        for s, taken, rest in self.munch(st, ps, self.CLASSES[cls]):
            if k == 0:
                out.append(good(s, rest, Str(taken)))
            else:
                for s2 in s.restrict(taken, NONEMPTY):
                    out.append(good(s2, rest, Str(s2.norm(taken))))
                for s2 in s.restrict(taken, A.compile_re(A.EPS)):
                    out.append(bad(s2))
        return out

    def munch(self, st, ps, cls):
        """maximal prefix of bytes of a class: list of (state, taken, rest)"""
        cs = frozenset(cls)
        run = A.compile_re(A.star(('ch', cs)))
        stop = A.compile_re(A.cat(('ch', frozenset(range(256)) - cs), A.star(A.ANYB)))
        starts = A.compile_re(A.cat(('ch', cs), A.star(A.ANYB)))
        out = []

        def go(s, taken, rest):
            rest = s.norm(rest)
            if not rest:
                out.append((s, taken, ()))
                return
            p = rest[0]
            if isinstance(p, bytes):
                k = 0
                while k < len(p) and p[k] in cs:
                    k += 1
                t2 = taken + ((p[:k],) if k else ())
                if k < len(p):
                    out.append((s, t2, (p[k:],) + rest[1:]))
                else:
                    go(s, t2, rest[1:])
                return
            Lg = s.lang[p.id]
            if A.is_empty(A.inter(Lg, starts)) and not Lg.accepts(b''):
                out.append((s, taken, rest))
                return
            if A.subset(Lg, run):
                go(s, taken + (p,), rest[1:])
                return
            ex_ = self.expand(s, p)
            if ex_ is not None:
                for s2 in ex_:
                    go(s2, taken, rest)
                return
            # (A) the atom lies wholly in the class
            l1 = A.inter(Lg, run)
            if not A.is_empty(l1):
                s2 = s.fork()
                try:
                    s2.set_lang(p, l1)
                    go(s2, taken + (p,), rest[1:])
                except Infeasible:
                    pass
            # (B) it has a byte outside: cut before the first one
            reach, work = {Lg.start}, [Lg.start]
            while work:
                q = work.pop()
                for b in cs:
                    r = Lg.trans[q][b]
                    if r not in reach:
                        reach.add(r); work.append(r)
            groups = {}
            for m in reach:
                l2 = A.inter(A.residual(Lg, m), stop)
                if A.is_empty(l2):
                    continue
                groups.setdefault(l2, []).append(m)
            for l2, ms in groups.items():
                pre = A.inter(A.minimize(Lg.trans, Lg.start, set(ms)), run)
                if A.is_empty(pre):
                    continue
                s2 = s.fork()
                try:
                    if A.only_word(pre) == b'':
                        s2.set_lang(p, A.inter(Lg, stop))
                        out.append((s2, taken, s2.norm(rest)))
                        continue
                    a1, a2 = s2.atom(p.name + 'm', pre), s2.atom(p.name + 's', l2)
                    s2.set_lang(a2, l2)
                    s2.replace(p, (a1, a2))
                    out.append((s2, taken + (a1,), s2.norm((a2,) + rest[1:])))
                except Infeasible:
                    pass
        go(st, (), ps)
        return [(s, s.norm(t), s.norm(r)) for s, t, r in out]

    def tagmatch(self, st, ps, word):
        """list of (state, rest or None)"""
        out = []

        def go(s, rest, w):
            rest = s.norm(rest)
            if not w:
                out.append((s, rest))
                return
            if not rest:
                out.append((s, None))
                return
            p = rest[0]
            if isinstance(p, bytes):
                k = min(len(p), len(w))
                if p[:k] != w[:k]:
                    out.append((s, None))
                else:
                    go(s, ((p[k:],) if p[k:] else ()) + rest[1:], w[k:])
                return
            Lg = s.lang[p.id]
            full = A.compile_re(A.cat(A.lit(w), A.star(A.ANYB)))
            prefixes = A.compile_re(A.alt(*[A.lit(w[:k]) if k else A.EPS for k in range(len(w))]))
            compat = A.union(full, prefixes)
            if A.is_empty(A.inter(Lg, compat)):
                out.append((s, None))
                return
            ex_ = self.expand(s, p)
            if ex_ is not None:
                for s2 in ex_:
                    go(s2, rest, w)
                return
            for k in range(len(w)):                       # the atom ends inside the word
                if Lg.accepts(w[:k]):
                    s2 = s.fork()
                    try:
                        s2.set_lang(p, A.lit_dfa(w[:k]))
                        go(s2, s2.norm(rest), w)
                    except Infeasible:
                        pass
            l2 = A.residual(Lg, Lg.delta(Lg.start, w))
            if not A.is_empty(l2):
                s2 = s.fork()
                a2 = s2.atom(p.name + 's', l2)
                try:
                    s2.set_lang(a2, l2)
                    s2.replace(p, (w, a2))
                    out.append((s2, s2.norm((a2,) + rest[1:])))
                except Infeasible:
                    pass
            l3 = A.inter(Lg, A.compl(compat))
            if not A.is_empty(l3):
                s2 = s.fork()
                try:
                    s2.set_lang(p, l3)
                    out.append((s2, None))
                except Infeasible:
                    pass
        go(st, ps, word)
        return out

    # ---- parsers -----------------------------------------------------------------------
    def apply(self, ex, st, p, ps):
        while isinstance(p, Ref):
            p = ex.load(st, p)
        ps = st.norm(ps)
        if isinstance(p, Agg) and p.ty == 'Parser':
            return getattr(self, 'p_' + p.var, self.p_missing)(ex, st, p, p.fs, ps)
        if isinstance(p, Agg) and p.ty == 'Box':
            return self.apply(ex, st, p.fs[0], ps)
        return ex.call_value(st, p, [Str(ps)])

    def p_missing(self, ex, st, p, a, ps):
        raise Unsupported('no contract for nom parser `%s`' % p.var)

    def then(self, ex, leaves, onok, onerr=None):
        out = []
        for l in leaves:
            o = outcome(ex, l)
            if o is None or (o[0] == 'err' and (onerr is None or o[1] == 'Failure')):
                out.append(l)
            elif o[0] == 'err':
                out += onerr(l.st)
            else:
                out += onok(l.st, o[1], o[2])
        return out

    def seq(self, ex, st, parsers, ps, build):
        def go(s, k, rest, vals):
            if k == len(parsers):
                return [good(s, rest, build(vals))]
            return self.then(ex, self.apply(ex, s, parsers[k], rest), lambda s2, r, v: go(s2, k + 1, r, vals + (v,)))
        return go(st, 0, ps, ())

    def p_tag(self, ex, st, p, a, ps):
        w = the_str(ex, st, a[0])
        n = st.norm(w.ps)
        if not all(isinstance(x, bytes) for x in n):
            raise Unsupported('symbolic tag')
        w = b''.join(n)
        return [bad(s) if r is None else good(s, r, Str((w,))) for s, r in self.tagmatch(st, ps, w)]

    def p_char(self, ex, st, p, a, ps):
        w = chr(a[0]).encode()
        return [bad(s) if r is None else good(s, r, a[0]) for s, r in self.tagmatch(st, ps, w)]

    def chars(self, ex, st, a):
        n = st.norm(the_str(ex, st, a).ps)
        if not all(isinstance(x, bytes) for x in n):
            raise Unsupported('symbolic character set')
        return b''.join(n).decode()

    def p_one_of(self, ex, st, p, a, ps):
        out, states = [], [st]
        for c in self.chars(ex, st, a[0]):
            nxt = []
            for s in states:
                for s2, r in self.tagmatch(s, ps, c.encode()):
                    if r is None:
                        nxt.append(s2)
                    else:
                        out.append(good(s2, r, ord(c)))
            states = nxt
        return out + [bad(s) for s in states]

    def p_is_a(self, ex, st, p, a, ps):
        cs = self.chars(ex, st, a[0])
        if any(ord(c) > 127 for c in cs):
            raise Unsupported('is_a')
        out = []
        for s, taken, rest in self.munch(st, ps, cs.encode()):
            for s2 in s.restrict(taken, NONEMPTY):
                out.append(good(s2, rest, Str(s2.norm(taken))))
            for s2 in s.restrict(taken, A.compile_re(A.EPS)):
                out.append(bad(s2))
        return out

    def p_map(self, ex, st, p, a, ps):
        def f(s, r, v):
            out = []
            for l in ex.call_value(s, a[1], [v]):
                out.append(good(l.st, r, l.val) if l.kind == 'return' else l)
            return out
        return self.then(ex, self.apply(ex, st, a[0], ps), f)

    def _map_try(self, ex, st, a, ps, okvar):
        def f(s, r, v):
            out = []
            for l in ex.call_value(s, a[1], [v]):
                if l.kind != 'return':
                    out.append(l)
                elif l.val.var == okvar:
                    out.append(good(l.st, r, l.val.fs[0]))
                else:
                    out.append(bad(l.st))
            return out
        return self.then(ex, self.apply(ex, st, a[0], ps), f)

    def p_map_res(self, ex, st, p, a, ps): return self._map_try(ex, st, a, ps, 'Ok')
    def p_map_opt(self, ex, st, p, a, ps): return self._map_try(ex, st, a, ps, 'Some')

    def p_opt(self, ex, st, p, a, ps):
        return self.then(ex, self.apply(ex, st, a[0], ps), lambda s, r, v: [good(s, r, some(v))], lambda s: [good(s, s.norm(ps), NONE)])

    def p_alt(self, ex, st, p, a, ps):
        ps_ = a[0].fs if isinstance(a[0], Agg) and a[0].ty == 'tuple' else a

        def go(s, k):
            if k == len(ps_):
                return [bad(s)]
            return self.then(ex, self.apply(ex, s, ps_[k], s.norm(ps)), lambda s2, r, v: [good(s2, r, v)], lambda s2: go(s2, k + 1))
        return go(st, 0)

    def p_tuple(self, ex, st, p, a, ps):
        xs = a[0].fs if isinstance(a[0], Agg) and a[0].ty == 'tuple' else a
        return self.seq(ex, st, xs, ps, lambda v: Agg('tuple', None, v))

    def p_pair(self, ex, st, p, a, ps): return self.seq(ex, st, a[:2], ps, lambda v: Agg('tuple', None, v))
    def p_preceded(self, ex, st, p, a, ps): return self.seq(ex, st, a[:2], ps, lambda v: v[1])
    def p_terminated(self, ex, st, p, a, ps): return self.seq(ex, st, a[:2], ps, lambda v: v[0])
    def p_delimited(self, ex, st, p, a, ps): return self.seq(ex, st, a[:3], ps, lambda v: v[1])
    def p_separated_pair(self, ex, st, p, a, ps): return self.seq(ex, st, a[:3], ps, lambda v: Agg('tuple', None, (v[0], v[2])))

    def p_value(self, ex, st, p, a, ps):
        return self.then(ex, self.apply(ex, st, a[1], ps), lambda s, r, v: [good(s, r, a[0])])

    def p_complete(self, ex, st, p, a, ps): return self.apply(ex, st, a[0], ps)
    def p_context(self, ex, st, p, a, ps): return self.apply(ex, st, a[1], ps)

    def p_all_consuming(self, ex, st, p, a, ps):
        e = A.compile_re(A.EPS)

        def f(s, r, v):
            return [good(x, (), v) for x in s.restrict(r, e)] + [bad(x) for x in s.restrict(r, A.compl(e))]
        return self.then(ex, self.apply(ex, st, a[0], ps), f)

    def p_peek(self, ex, st, p, a, ps):
        return self.then(ex, self.apply(ex, st, a[0], ps), lambda s, r, v: [good(s, s.norm(ps), v)])

    def p_not(self, ex, st, p, a, ps):
        return self.then(ex, self.apply(ex, st, a[0], ps), lambda s, r, v: [bad(s)], lambda s: [good(s, s.norm(ps), UNIT)])

    def p_recognize(self, ex, st, p, a, ps):
        def f(s, r, v):
            c = self.consumed(s, ps, r)
            if c is None:
                raise Unsupported('recognize')
            return [good(s, r, Str(c))]
        return self.then(ex, self.apply(ex, st, a[0], ps), f)

    def p_verify(self, ex, st, p, a, ps):
        def f(s, r, v):
            out = []
            x = v if isinstance(v, Str) else Ref(s.new(v))
            for l in ex.call_value(s, a[1], [x]):
                if l.kind != 'return':
                    out.append(l)
                    continue
                y, n = ex.branch(l.st, l.val)
                if y is not None:
                    out.append(good(y, r, v))
                if n is not None:
                    out.append(bad(n))
            return out
        return self.then(ex, self.apply(ex, st, a[0], ps), f)

    def p_cut(self, ex, st, p, a, ps):
        def g(s):
            return [Leaf(s, 'return', err(Agg('Err', 'Failure', (Opaque(('nom error',)),))))]
        return self.then(ex, self.apply(ex, st, a[0], ps), lambda s, r, v: [good(s, r, v)], g)

    def p_cond(self, ex, st, p, a, ps):
        y, n = ex.branch(st, a[0])
        out = []
        if y is not None:
            out += self.then(ex, self.apply(ex, y, a[1], ps), lambda s, r, v: [good(s, r, some(v))])
        if n is not None:
            out.append(good(n, ps, NONE))
        return out

    def p_separated_list(self, ex, st, p, a, ps):
        r = self.list_contract(ex, st, a[0], a[1], ps, False)
        if r is None:
            raise Unsupported('separated_list')
        return r

    def p_separated_nonempty_list(self, ex, st, p, a, ps):
        r = self.list_contract(ex, st, a[0], a[1], ps, True)
        if r is None:
            raise Unsupported('separated_nonempty_list')
        return r

    @staticmethod
    def suffix_cut(whole, rest):
        """pieces of `whole` before its literal suffix `rest`, or None"""
        k = len(rest)
        if k == 0:
            return tuple(whole)
        if len(whole) < k:
            return None
        if whole[-k:] == rest:
            return whole[:-k]
        if whole[len(whole) - k + 1:] == rest[1:] and isinstance(rest[0], bytes) and isinstance(whole[-k], bytes) and whole[-k].endswith(rest[0]):
            return whole[:-k] + (whole[-k][:-len(rest[0])],)
        return None

    @classmethod
    def consumed_all(cls, st, whole, rest, depth=0):
        """every known reading of the text of `whole` before its suffix `rest` as pieces"""
        whole, rest = st.norm(whole), st.norm(rest)
        c = cls.suffix_cut(whole, rest)
        if c is not None:
            yield st.norm(c)
        if depth > 40:
            return
        for k, e in list(st.ghost.items()):
            if not (isinstance(k, tuple) and k[0] == 'eq'):
                continue
            r, base, c0 = e                                   # text(base) = c0 ++ r
            pre = cls.suffix_cut(st.norm((r,)), rest)
            if pre is None:
                continue
            b = st.norm(base)
            if b == rest:
                continue
            for c in cls.consumed_all(st, whole, b, depth + 1):
                yield st.norm(tuple(c) + tuple(c0) + tuple(pre))

    @classmethod
    def consumed(cls, st, whole, rest):
        return next(iter(cls.consumed_all(st, whole, rest)), None)
