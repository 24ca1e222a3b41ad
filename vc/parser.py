"""Contracts on the functions of cldr_pluralrules_parser and their proof from MIR.

Every parser function `fn(&str) -> IResult<&str, T>` carries, through its output type T, a grammar symbol g and two contracts:
  S(g): whenever it returns Ok((rest, tree)), the input is c ++ rest, c is a text of g under the lenient grammar, and tree is
        the tree of c; it never panics.
  K(g): on every text of g under the strict grammar, followed by anything that may follow g in a rule, it returns
        Ok((what follows, the tree of the text)).
Each is proved once per production from the function's MIR, callees by contract."""
import os, re, time, random
import z3
from mirvc import mir, sym, stdc, nomc
from mirvc import autom as A
from mirvc.mir import Unsupported
from mirvc.sym import Agg, Ref, Opaque, Str, Atom, State, Leaf, Infeasible
from . import pgram, lits
from .common import Native, Undecided, TimeUp, BuildError, emit_mir, REPO
from .pgram import Grammar, TYPE_SYMBOL

SRC = os.path.join(REPO, 'cldr_pluralrules_parser', 'src')
U64 = 2 ** 64 - 1
ANYTEXT = A.UTF8


class Fail(Exception):
    """a proof obligation does not hold: (what, state, input pieces)"""

    def __init__(self, what, st, ps):
        Exception.__init__(self, what)
        self.what, self.st, self.ps = what, st, ps


class Parser:
    def __init__(self, ck):
        self.ck = ck
        t = time.time()
        self.text = emit_mir('parser', 'cldr_pluralrules_parser')
        self.prog = mir.Program(self.text, SRC)
        self.structs = mir.parse_structs(SRC)
        self.native = Native('parser')
        ck.extra['mir_s'] = round(time.time() - t, 2)
        self.g = {'K': Grammar('K'), 'S': Grammar('S')}
        self.fns = {}                                    # name -> (Fn, symbol)
        for f in self.prog.fns:
            if f.kind != 'fn' or len(f.args) != 1 or '{closure' in f.name:
                continue
            s = symbol_of(f.ret)
            if s and sym.norm_ty(f.args[0][1]) == '&str':
                self.fns[f.name] = (f, s)
        self.order = self.topological()
        self.proved = {'K': set(), 'S': set()}
        self.fails = []                                  # (obligation, Fail)
        self.und = []                                    # (obligation, reason)
        self.nomused = set()

    def topological(self):
        deps = {}
        for n, (f, _) in self.fns.items():
            body = re.sub(r'[\w:]+::promoted\[\d+\]', '', ' '.join(' '.join(b) for b in f.blocks.values()))
            used = lambda m: re.search(r'(?<![\w:])%s(?!\w|::\w)' % re.escape(m), body)       # not an item nested in it
            deps[n] = {m for m in self.fns if m != n and used(m)}
            if used(n):
                raise Unsupported('recursive parser function ' + n)
        # calls through helpers that are not parser functions
        out, seen = [], {}

        def visit(n, stack):
            if n in stack:
                raise Unsupported('recursive parser function ' + n)
            if n in seen:
                return
            for m in sorted(deps[n]):
                visit(m, stack + (n,))
            seen[n] = True
            out.append(n)
        for n in self.fns:
            visit(n, ())
        return out

    # ---- engines -----------------------------------------------------------------------
    def engine(self, mode, inline=()):
        ex = sym.Engine(self.prog, self.structs)
        nom = nomc.Nom()
        nom.mode = mode
        nom.fn_of = lambda ex_, name: self.fns[name][0] if name in self.fns else None
        nom.fn_contract = lambda ex_, st, f, ps: self.call(nom, ex_, st, f, ps, inline)
        nom.list_contract = lambda ex_, st, sep, item, ps, ne: self.listcall(nom, ex_, st, sep, item, ps, ne)
        nom.expand = lambda st, a: self.expand(mode, st, a)
        ex.expand_hook = nom.expand
        nom.install(ex)
        return ex, nom

    def ntatom(self, mode, st, g, lang=None):
        a = st.atom('nt_' + g, lang if lang is not None else self.g[mode].lang(g))
        st.ghost[('nt', a.id)] = ('nt', g)
        if g == 'value':
            st.pc.append(st.const('NUM', (a,)) <= U64)
        return a

    def tree(self, st, a):
        k = st.ghost[('nt', a.id)]
        if k == ('nt', 'value'):
            return pgram.T('Value', st.const('NUM', (a,)))
        return Opaque(('tree', k, a.id))

    def rust_tree(self, st, a):
        """the tree as the Rust value a contract returns"""
        k = st.ghost[('nt', a.id)]
        if k == ('nt', 'value'):
            return Agg('Value', None, (st.const('NUM', (a,)),))
        return Opaque(('tree', k, a.id))

    def pieces(self, mode, st, prod):
        """symbolic text of a production -> (pieces, expected tree)"""
        G = self.g[mode]
        ps, vs = [], []
        for e in prod.elems:
            if e[0] == 'd':
                a = st.atom('digits', A.DIGITS1)
                st.pc.append(st.const('NUM', (a,)) <= U64)
                ps.append(a); vs.append(st.const('NUM', (a,)))
            elif e[0] == 't':
                for x in e[1]:
                    ps.append(x.encode() if isinstance(x, str) else st.atom('blank', A.compile_re(G.tok(x))))
            elif e[0] == 'nt':
                a = self.ntatom(mode, st, e[1])
                ps.append(a); vs.append(self.tree(st, a))
            else:
                a = st.atom('list_' + e[1], G.elem(e))
                st.ghost[('nt', a.id)] = e
                ps.append(a); vs.append(Opaque(('tree', e, a.id)))
        return tuple(ps), prod.build(*vs)

    def expand(self, mode, st, a):
        k = st.ghost.get(('nt', a.id))
        if k is None or k == ('nt', 'value'):
            return None
        if k[0] != 'nt':
            raise Unsupported('a list would have to be unfolded')
        out = []
        for p in self.g[mode].p[k[1]]:
            s = st.fork()
            ps, t = self.pieces(mode, s, p)
            try:
                s.replace(a, ps)
            except Infeasible:
                continue
            s.ghost[('exp', a.id)] = t
            out.append(s)
        return out

    # ---- contracts of callees ----------------------------------------------------------
    def call(self, nom, ex, st, f, ps, inline):
        mode, g = nom.mode, self.fns[f.name][1]
        ps = st.norm(ps)
        if f.name not in inline:
            if mode == 'S' and f.name in self.proved['S']:
                return self.call_s(ex, st, f, g, ps)
            if mode == 'K':
                if f.name in self.proved['K'] and ps and isinstance(ps[0], Atom) and st.ghost.get(('nt', ps[0].id)) == ('nt', g) \
                        and A.subset(st.dfa_of(ps[1:]), self.g['K'].follow(g)):
                    return [nomc.good(st, ps[1:], self.rust_tree(st, ps[0]))]
                if f.name in self.proved['S'] and not A.accepts_inter(st.dfa_of(ps), self.prefixed(g)):
                    return [nomc.bad(st)]
        ex.unfolded.add(f.name)
        return ex.run(f, [Str(ps)], st)

    _pref = {}

    def prefixed(self, g):
        if g not in self._pref:
            self._pref[g] = A.concat_dfa(self.g['S'].lang(g), nomc.ANY)
        return self._pref[g]

    def split_s(self, st, ps, a):
        """the string ps is a ++ rest: -> rest pieces"""
        r = st.atom('rest', ANYTEXT)
        if len(ps) == 1 and isinstance(ps[0], Atom) and ('nt', ps[0].id) not in st.ghost and st.lang[ps[0].id] == ANYTEXT:
            st.replace(ps[0], (a, r))
        else:
            st.ghost[('eq', r.id)] = (r, ps, (a,))
        return (r,)

    def call_s(self, ex, st, f, g, ps):
        for q, o in st.ghost.get(('app', f.name), ()):
            if st.norm(q) == ps:                         # the same function on the same text: the same result
                return [nomc.bad(st)] if o is None else [nomc.good(st, st.norm(o[0]), o[1])]
        memo = st.ghost.get(('app', f.name), ())
        out = []
        s = st.fork()
        s.ghost[('app', f.name)] = memo + ((ps, None),)
        out.append(nomc.bad(s))
        if not A.accepts_inter(st.dfa_of(ps), self.prefixed(g)):
            return out
        s = st.fork()
        a = self.ntatom('S', s, g)
        r = self.split_s(s, ps, a)
        v = self.rust_tree(s, a)
        s.ghost[('app', f.name)] = memo + ((ps, (r, v)),)
        out.append(nomc.good(s, r, v))
        return out

    def listcall(self, nom, ex, st, sep, item, ps, nonempty):
        if nom.mode == 'S':
            return self.list_s(nom, ex, st, sep, item, ps, nonempty)
        return self.list_k(nom, ex, st, sep, item, ps)

    def list_s(self, nom, ex, st, sep, item, ps, nonempty):
        """every item of the list is a text of one symbol h, every separator a text of the separator of a list of h"""
        G = self.g['S']
        # which symbol do the items have?
        s0 = State(); s0.mem = dict(st.mem)
        x = s0.atom('item', ANYTEXT)
        h = None
        for l in nom.apply(ex, s0, item, (x,)):
            if l.kind != 'return':
                raise Fail('a list item can panic', l.st, (x,))
            o = nomc.outcome(ex, l)
            if o[0] == 'err':
                if o[1] != 'Error':
                    raise Unsupported('list item with cut')
                continue
            c = nom.consumed(l.st, (x,), o[1])
            if c is None:
                raise Unsupported('list item')
            hit = None
            for g in G.p:
                if h is not None and g != h:
                    continue
                if len(c) == 1 and isinstance(c[0], Atom) and l.st.ghost.get(('nt', c[0].id)) == ('nt', g) \
                        and self.teq(ex, l.st, o[2], self.tree(l.st, c[0])):
                    hit = g
                    break
            if hit is None:
                raise Unsupported('items of the list are not texts of one symbol')
            h = hit
        if h is None:
            raise Unsupported('list without items')
        decl = [e for g in G.p.values() for p in g for e in p.elems if e[0] == 'list' and e[1] == h]
        s0 = State(); s0.mem = dict(st.mem)
        x = s0.atom('sep', ANYTEXT)
        for l in nom.apply(ex, s0, sep, (x,)):
            if l.kind != 'return':
                raise Fail('a list separator can panic', l.st, (x,))
            o = nomc.outcome(ex, l)
            if o[0] == 'err':
                if o[1] != 'Error':
                    raise Unsupported('list separator with cut')
                continue
            c = nom.consumed(l.st, (x,), o[1])
            if c is None:
                raise Unsupported('list separator')
            d = l.st.dfa_of(c)
            decl = [e for e in decl if A.subset(d, G.toks(e[2]))]
            if not decl:
                w = next(iter(A.words(d, 1)), b'')
                raise Fail('%r is accepted as a separator between %s' % (w.decode('utf8', 'replace'), pgram.SYMBOL_TYPE[h]), l.st, (x,))
            if A.words is not None and d.accepts(b''):
                raise Unsupported('separator that can be empty')
        if not decl:
            raise Unsupported('separator never matches')
        e = decl[0]
        out = []
        s = st.fork()
        if nonempty:
            out.append(nomc.bad(s))
        else:
            out.append(nomc.good(s, ps, Agg('Vec', None, ())))
        if not A.accepts_inter(st.dfa_of(ps), self.prefixed(h)):
            return out
        s = st.fork()
        a = s.atom('list_' + h, G.elem(e))
        s.ghost[('nt', a.id)] = e
        r = self.split_s(s, s.norm(ps), a)
        out.append(nomc.good(s, r, Opaque(('tree', e, a.id))))
        return out

    def list_k(self, nom, ex, st, sep, item, ps):
        G = self.g['K']
        ps = st.norm(ps)
        if not (ps and isinstance(ps[0], Atom)):
            raise Unsupported('list parser on other text')
        e = st.ghost.get(('nt', ps[0].id))
        if e is None or e[0] != 'list':
            # texts of a symbol that is one list
            if e is not None and e[0] == 'nt' and e[1] != 'value':
                out = []
                for s in self.expand('K', st, ps[0]):
                    out += self.list_k(nom, ex, s, sep, item, s.norm(ps))
                return out
            raise Unsupported('list parser on other text')
        rest = ps[1:]
        dr = st.dfa_of(rest)
        after = A.concat_dfa(G.tail(e), dr)
        what = 'list of %s' % pgram.SYMBOL_TYPE[e[1]]

        def fresh():
            s = State(); s.mem = dict(st.mem)
            return s
        # (1) an item, followed by further items or the rest, is parsed exactly
        s = fresh()
        it = self.ntatom('K', s, e[1])
        x = s.atom('after', after)
        for l in nom.apply(ex, s, item, (it, x)):
            o = nomc.outcome(ex, l)
            if o is None or o[0] != 'ok' or l.st.norm(o[1]) != l.st.norm((x,)) or not self.teq(ex, l.st, o[2], self.tree(l.st, it)):
                raise Fail('%s: an item is not parsed as written' % what, l.st, (it, x))
        # (2) a separator followed by an item is consumed exactly
        s = fresh()
        sp = tuple(y.encode() if isinstance(y, str) else s.atom('blank', A.compile_re(G.tok(y))) for y in e[2])
        it = self.ntatom('K', s, e[1])
        x = s.atom('after', after)
        tail = (it, x)
        for l in nom.apply(ex, s, sep, sp + tail):
            o = nomc.outcome(ex, l)
            if o is None or o[0] != 'ok' or l.st.norm(o[1]) != l.st.norm(tail):
                raise Fail('%s: a separator is not recognised' % what, l.st, sp + tail)
        # (3) the list ends where the text says
        s = fresh()
        x = s.atom('rest', dr)
        for l in nom.apply(ex, s, sep, (x,)):
            o = nomc.outcome(ex, l)
            if o is None or (o[0] == 'err' and o[1] != 'Error'):
                raise Fail('%s: fails on what follows' % what, l.st, (x,))
            if o[0] == 'err':
                continue
            for l2 in nom.apply(ex, l.st, item, o[1]):
                o2 = nomc.outcome(ex, l2)
                if o2 is None or o2[0] != 'err' or o2[1] != 'Error':
                    raise Fail('%s: reads on into what follows' % what, l2.st, (x,))
        return [nomc.good(st, rest, Opaque(('tree', e, ps[0].id)))]

    # ---- trees -------------------------------------------------------------------------
    def resolve(self, st, v):
        while isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == 'tree' and ('exp', v.tag[2]) in st.ghost:
            v = st.ghost[('exp', v.tag[2])]
        return v

    def teq(self, ex, st, got, want):
        """does the Rust value equal the expected tree, in every model of the state?"""
        got, want = self.resolve(st, ex.deep(st, got)), self.resolve(st, want)
        if isinstance(want, Opaque):
            return isinstance(got, Opaque) and got.tag == want.tag
        if isinstance(got, Opaque):
            return False
        if isinstance(got, tuple):                       # an expanded tree of the grammar
            if not isinstance(want, tuple) or got[0] != want[0]:
                return False
            if got[0] == 'L':
                return len(got[1]) == len(want[1]) and all(self.teq(ex, st, a, b) for a, b in zip(got[1], want[1]))
            if got[1] != want[1] or len(got[2]) != len(want[2]):
                return False
            if got[0] == 'S':
                return all(a[0] == b[0] and self.teq(ex, st, a[1], b[1]) for a, b in zip(got[2], want[2]))
            return all(self.teq(ex, st, a, b) for a, b in zip(got[2], want[2]))
        if isinstance(want, bool):
            return ex.entails(st, got == want) if z3.is_expr(got) else got is want
        if isinstance(want, int) or z3.is_expr(want):
            if isinstance(got, bool) or not (isinstance(got, int) or z3.is_expr(got)):
                return False
            r = got == want
            return ex.entails(st, r)
        if want[0] == 'L':
            return isinstance(got, Agg) and got.ty == 'Vec' and len(got.fs) == len(want[1]) \
                and all(self.teq(ex, st, a, b) for a, b in zip(got.fs, want[1]))
        ty, _, va = want[1].partition('::')
        if not isinstance(got, Agg) or got.ty != ty or (got.var or '') != va:
            return False
        if want[0] == 'T':
            return len(got.fs) == len(want[2]) and all(self.teq(ex, st, a, b) for a, b in zip(got.fs, want[2]))
        names = got.names or self.structs.get(ty, ())
        if sorted(names) != sorted(k for k, _ in want[2]):
            return False
        return all(self.teq(ex, st, got.fs[names.index(k)], v) for k, v in want[2])

    # ---- alignment of a consumed text with the lenient grammar --------------------------
    def align(self, st, ps, g, depth=0):
        """every way to read the pieces as a text of g: yields expected trees"""
        ps = st.norm(ps)
        if len(ps) == 1 and isinstance(ps[0], Atom) and st.ghost.get(('nt', ps[0].id)) == ('nt', g):
            yield self.tree(st, ps[0])
            return
        if g == 'value':
            if ps and A.subset(st.dfa_of(ps), A.DIGITS1):
                yield pgram.T('Value', st.const('NUM', ps))
            return
        if depth > 8:
            return
        for p in self.g['S'].p[g]:
            for vs in self.align_elems(st, ps, p.elems, depth):
                yield p.build(*vs)

    def align_elems(self, st, ps, els, depth):
        if not els:
            if not ps:
                yield ()
            return
        e = els[0]
        for pre, post in self.cuts(ps):
            if len(els) == 1 and post:
                continue
            for v in self.align_elem(st, pre, e, depth):
                for vs in self.align_elems(st, post, els[1:], depth):
                    yield v + vs

    @staticmethod
    def cuts(ps):
        yield (), ps
        for k, p in enumerate(ps):
            if isinstance(p, bytes):
                for j in range(1, len(p)):
                    yield ps[:k] + (p[:j],), (p[j:],) + ps[k + 1:]
            yield ps[:k + 1], ps[k + 1:]

    def align_elem(self, st, ps, e, depth):
        marks = [p for p in ps if isinstance(p, Atom) and ('nt', p.id) in st.ghost]
        if e[0] == 't':
            if not marks and A.subset(st.dfa_of(ps), self.g['S'].toks(e[1])):
                yield ()
        elif e[0] == 'd':
            if A.subset(st.dfa_of(ps), A.DIGITS1):
                yield (st.const('NUM', ps),)
        elif e[0] == 'nt':
            for t in self.align(st, ps, e[1], depth + 1):
                yield (t,)
        else:
            if len(ps) == 1 and isinstance(ps[0], Atom) and st.ghost.get(('nt', ps[0].id)) == e:
                yield (Opaque(('tree', e, ps[0].id)),)
            else:                                        # a list written out item by item
                for vs in self.align_items(st, ps, e, depth):
                    yield (('L', vs),)

    def align_items(self, st, ps, e, depth):
        for pre, post in self.cuts(ps):
            if not pre:
                continue
            for t in self.align(st, pre, e[1], depth + 1):
                if not post:
                    yield (t,)
                    continue
                for sp, post2 in self.cuts(post):
                    if sp and A.subset(st.dfa_of(sp), self.g['S'].toks(e[2])):
                        for vs in self.align_items(st, post2, e, depth):
                            yield (t,) + vs

    # ---- obligations -------------------------------------------------------------------
    def prove_s(self, name):
        f, g = self.fns[name]
        ex, nom = self.engine('S')
        st = State()
        x = st.atom('input', ANYTEXT)
        n = 0
        for l in ex.run(f, [Str((x,))], st):
            if l.kind != 'return':
                raise Fail('%s %s' % (l.kind, l.val), l.st, (x,))
            o = nomc.outcome(ex, l)
            if o[0] == 'err':
                n += 1
                continue
            cs = list(nom.consumed_all(l.st, (x,), o[1]))
            if not cs:
                raise Undecided('what is returned as rest is not recognised as a suffix of the input')
            if not any(self.teq(ex, l.st, o[2], t) for c in cs for t in self.align(l.st, c, g)):
                raise Fail('accepts a text that is not a %s, or with another tree' % pgram.SYMBOL_TYPE[g], l.st, (x,))
            n += 1
        self.note(ex, nom, name)
        return n

    def prove_k(self, name, prod):
        f, g = self.fns[name]
        ex, nom = self.engine('K')
        st = State()
        ps, want = self.pieces('K', st, prod)
        rest = st.atom('rest', self.g['K'].follow(g))
        text = ps + (rest,)
        n = 0
        for l in ex.run(f, [Str(st.norm(text))], st):
            o = nomc.outcome(ex, l)
            if o is None:
                raise Fail('%s %s' % (l.kind, l.val), l.st, text)
            if o[0] == 'err':
                raise Fail('a well-formed %s (%s) is rejected' % (pgram.SYMBOL_TYPE[g], prod.name), l.st, text)
            if l.st.norm(o[1]) != l.st.norm((rest,)):
                raise Fail('a well-formed %s (%s) is not consumed exactly' % (pgram.SYMBOL_TYPE[g], prod.name), l.st, text)
            if not self.teq(ex, l.st, o[2], want):
                raise Fail('a well-formed %s (%s) gives another tree' % (pgram.SYMBOL_TYPE[g], prod.name), l.st, text)
            n += 1
        if not n:
            raise Undecided('no path')
        self.note(ex, nom, name)
        return n

    def note(self, ex, nom, name):
        self.nomused |= nom.used
        self.ck.functions |= set(ex.unfolded) | {name}
        self.ck.contracts_used |= {k for k in stdc.USED} | nom.used

    def attempt(self, label, f):
        t = time.time()
        try:
            n = self.ck.limited(f)
        except TimeUp:
            self.und.append((label, 'time budget used up'))
            return False
        except Fail as e:
            self.fails.append((label, e))
            return False
        except (Unsupported, Undecided, RecursionError) as e:
            if os.environ.get('VC_DEBUG'):
                import traceback; traceback.print_exc()
            self.und.append((label, '%s: %s' % (type(e).__name__, e)))
            return False
        except Exception as e:
            if os.environ.get('VC_DEBUG'):
                import traceback; traceback.print_exc()
            self.und.append((label, 'internal %s: %s' % (type(e).__name__, e)))
            return False
        for k in range(max(1, n)):
            self.ck.ok('%s #%d' % (label, k), 'automata+z3', (time.time() - t) / max(1, n))
        return True

    def contracts(self, ksyms):
        for n in self.order:
            if self.attempt('%s: S' % n, lambda: self.prove_s(n)):
                self.proved['S'].add(n)
        for n in self.order:
            g = self.fns[n][1]
            if g == 'op' or g not in self.g['K'].p or g not in ksyms:
                continue
            okay = True
            for p in self.g['K'].p[g]:
                okay &= self.attempt('%s: K(%s)' % (n, p.name), lambda: self.prove_k(n, p))
            if okay:
                self.proved['K'].add(n)


def symbol_of(ret):
    t = sym.norm_ty(ret)
    m = re.match(r'^(?:IResult|Result)<\(&str, (.*)\), Err<.*>>$', t)
    return TYPE_SYMBOL.get(m.group(1)) if m else None


# ---- entry points ------------------------------------------------------------------------------------
def entry(P, name):
    fs = [f for f in P.prog.fns if f.kind == 'fn' and f.name.split('::')[-1] == name and len(f.args) == 1]
    if len(fs) != 1:
        raise Unsupported('%s not found' % name)
    return fs[0]


def entry_result(ex, l):
    if l.kind != 'return':
        return None
    v = ex.deep(l.st, l.val)
    if not (isinstance(v, Agg) and v.ty == 'Result'):
        raise Unsupported('entry point returns %r' % (v,))
    return ('ok', v.fs[0]) if v.var == 'Ok' else ('err',)


def prove_entry_k(P, name, prod, g):
    """a complete strict text given to an entry point"""
    f = entry(P, name)
    ex, nom = P.engine('K')
    st = State()
    ps, want = P.pieces('K', st, prod)
    n = 0
    for l in ex.run(f, [Str(st.norm(ps))], st):
        r = entry_result(ex, l)
        if r is None or r[0] == 'err':
            raise Fail('a well-formed text (%s) is rejected' % prod.name, l.st, ps)
        if not P.teq(ex, l.st, r[1], want):
            raise Fail('a well-formed text (%s) gives another tree' % prod.name, l.st, ps)
        n += 1
    P.note(ex, nom, f.name)
    return n


def prove_entry_s(P):
    """whatever parse_plural_rule accepts is, as a whole, a text of the lenient grammar, with its tree"""
    f = entry(P, 'parse_plural_rule')
    ex, nom = P.engine('S')
    st = State()
    x = st.atom('input', ANYTEXT)
    n = nok = 0
    for l in ex.run(f, [Str((x,))], st):
        r = entry_result(ex, l)
        if r is None:
            raise Fail('%s %s' % (l.kind, l.val), l.st, (x,))
        n += 1
        if r[0] == 'err':
            continue
        nok += 1
        if not any(P.teq(ex, l.st, r[1], t) for c in nom.consumed_all(l.st, (x,), ()) for t in P.align(l.st, c, 'rule')):
            raise Fail('accepts a text that is not, as a whole, a rule, or with another tree', l.st, (x,))
    if not nok:
        raise Undecided('no accepting path')
    P.note(ex, nom, f.name)
    return n


def prove_cond_total(P):
    f = entry(P, 'parse_plural_condition')
    ex, nom = P.engine('S')
    st = State()
    x = st.atom('input', ANYTEXT)
    n = 0
    for l in ex.run(f, [Str((x,))], st):
        r = entry_result(ex, l)
        if r is None:
            raise Fail('%s %s' % (l.kind, l.val), l.st, (x,))
        n += 1
    P.note(ex, nom, f.name)
    return n


def same(P, ex, st, a, b):
    a, b = P.resolve(st, ex.deep(st, a)), P.resolve(st, ex.deep(st, b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.ty == b.ty and a.var == b.var and len(a.fs) == len(b.fs) and all(same(P, ex, st, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Agg) or isinstance(b, Agg):
        return False
    return ex.entails(st, a == b)


def prove_agree(P):
    """both entry points on one arbitrary text"""
    f, h = entry(P, 'parse_plural_rule'), entry(P, 'parse_plural_condition')
    inline = tuple(n for n, (_, g) in P.fns.items() if g == 'rule')
    ex, nom = P.engine('S', inline)
    st = State()
    x = st.atom('input', ANYTEXT)
    n = 0
    for l in ex.run(f, [Str((x,))], st):
        r = entry_result(ex, l)
        if r is None or r[0] == 'err':
            continue
        v = ex.deep(l.st, r[1])
        if not (isinstance(v, Agg) and v.ty == 'Rule'):
            raise Unsupported('the rule is not built here')
        names = v.names or P.structs.get('Rule', ())
        c = v.fs[names.index('condition')]
        for l2 in ex.run(h, [Str((x,))], l.st.fork()):
            r2 = entry_result(ex, l2)
            if r2 is None or r2[0] == 'err':
                raise Fail('the rule entry point accepts, the condition entry point does not', l2.st, (x,))
            if not same(P, ex, l2.st, r2[1], c):
                raise Fail('the entry points give different conditions', l2.st, (x,))
            n += 1
    if not n:
        raise Undecided('no accepting path')
    P.note(ex, nom, h.name)
    return n


# ---- concrete texts ----------------------------------------------------------------------------------
DIGITS = ['1', '5', '0', '007', '18446744073709551615', '18446744073709551616', '4294967297', '65537', '257']


def concretize(P, st, ps, rnd, n=30):
    """texts in the languages of the pieces"""
    out, ws = [], {}
    ps = st.norm(ps)
    for k in range(n):
        b = b''
        for p in ps:
            if isinstance(p, bytes):
                b += p
            else:
                d = st.lang[p.id]
                if A.subset(d, A.DIGITS1):
                    b += (DIGITS[0] if k == 0 else rnd.choice(DIGITS)).encode()
                    continue
                if p.id not in ws:
                    ws[p.id] = list(A.words(d, 20, 24, rnd))
                b += (ws[p.id][0] if k == 0 else rnd.choice(ws[p.id])) if ws[p.id] else b''
        try:
            t = b.decode()
        except UnicodeDecodeError:
            continue
        if t not in out:
            out.append(t)
    return out


PREFIX = ['', 'n = ', 'n', 'n ', 'n = 1 ', 'n = 1', 'n = 1 and ', 'n = 1 or ', 'n = 1, ', 'n = 1..', 'n % ', 'n = 1 @integer ', '@integer ', '@decimal ',
          'n = 1 @integer 1, ', 'n = 1 @integer 1~', 'n = 1 @decimal 1.', 'n = 1 @integer 1 @decimal ']
SUFFIX = ['', ' = 1', '= 1', ' 1', ' in 1', ' @integer 1', '..2', ', 2', '1', '.5', ' @decimal 1.5']


class Judge:
    """compares the real parser with the reference parser"""

    def __init__(self, P):
        self.native = P.native
        self.K, self.S = pgram.Reference('K'), pgram.Reference('S')

    def ask(self, texts):
        h = [t.encode().hex() for t in texts]
        a = self.native.ask(['%s %s' % (k, x) for x in h for k in ('rule', 'cond')])
        return [(a[2 * i], a[2 * i + 1]) for i in range(len(texts))]

    def strict_condition(self, texts):
        """C10 -> list of (text, mismatch)"""
        out = []
        todo = [(t, v) for t in texts for v in [self.K.parse(t, 'cond')] if v]
        for (t, v), (r, c) in zip(todo, self.ask([t for t, _ in todo])):
            w = pgram.debug(v[0])
            if r != 'ok ' + pgram.debug(pgram.S('Rule', condition=v[0], samples=pgram.NONE)):
                out.append((t, 'parse_plural_rule gives %s, expected condition %s' % (r, w)))
            elif c != 'ok ' + w:
                out.append((t, 'parse_plural_condition gives %s, expected %s' % (c, w)))
        return len(todo), out

    def accepts_only(self, texts):
        """C11"""
        out = []
        for t, (r, c) in zip(texts, self.ask(texts)):
            if r in ('panic', 'died') or c in ('panic', 'died'):
                out.append((t, 'panics (rule: %s, condition: %s)' % (r, c)))
            elif r.startswith('ok '):
                vs = self.S.parse(t)
                if not vs:
                    out.append((t, 'accepted (%s) although it is not a rule' % r))
                elif not any(r == 'ok ' + pgram.debug(v) for v in vs):
                    out.append((t, 'accepted as %s, written %s' % (r[3:], pgram.debug(vs[0]))))
                else:
                    conds = {'ok ' + pgram.debug(dict(v[2])['condition']) for v in vs if r == 'ok ' + pgram.debug(v)}
                    if c not in conds:
                        out.append((t, 'the condition entry point gives %s, the rule entry point %s' % (c, r)))
        return len(texts), out

    def samples(self, texts):
        """C12: the condition part is judged against the real parser without samples"""
        out = []
        todo = []
        for t in texts:
            v = self.K.parse(t)
            if v:
                k = t.find('@')
                todo.append((t, v[0], t[:k].rstrip(' \t') if k >= 0 else t))
        bare = self.ask([b for _, _, b in todo])
        full = self.ask([t for t, _, _ in todo])
        for (t, v, b), (rb, _), (r, c) in zip(todo, bare, full):
            want = pgram.debug(v)
            if not rb.startswith('ok '):
                continue
            base = rb[len('ok Rule { condition: '):rb.rindex(', samples: ')]
            exp = 'ok Rule { condition: %s, samples: %s }' % (base, pgram.debug(dict(v[2])['samples']))
            if r != exp:
                out.append((t, 'gives %s, expected %s' % (r, exp[3:])))
        return len(todo), out


def cond_pool(seed, n):
    rnd = random.Random(seed)
    out = []
    ops = ['=', '!=', ' = ', ' != ', ' is ', ' is not ', ' in ', ' not in ', ' within ', ' not within ', '  is\t not ', '\tnot  within ']
    for o in 'nivwft':
        for m in ('', ' % 10', ' mod 100', '% 7', '  mod\t1000000'):
            for op in ops:
                for l in ('1', '1..5', '1,3', '2 , 4..6', '0..1,3, 5..18446744073709551615'):
                    out.append(o + m + op + l)
    rnd.shuffle(out)
    out = out[:max(300, n)] if n < 2000 else out
    g = pgram.Gen(rnd)
    for k in range(n):
        if k % 40 == 38:
            g.maxlist = 40
        if k % 2:
            g.alike()
        out.append(g.sym('cond')[0])
        g.varied()
    if n >= 2000:
        for k in lits.around('cldr_pluralrules_parser', 2 ** 64 - 1):
            out += ['n = %d' % k, 'i %% %d = 1' % max(k, 1), 'f != 1..%d' % max(k, 1), 'v in 0,%d,7' % k, 't = %d..%d' % (k, k + 1)][:5 if k < 2 ** 64 - 2 else 4]
        for k in [8, 16, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 5000] + [x for x in lits.around('cldr_pluralrules_parser', 5000) if x > 0]:
            out += ['n = ' + ','.join(str(j) for j in range(k)), 'n = ' + ','.join('%d..%d' % (j, j + 1) for j in range(k)), ' and '.join('i != %d' % j for j in range(k)),
                    ' or '.join('i = %d' % j for j in range(k)), 'n =%s1' % (' ' * k), 'n = 1%sand i = 2' % (' ' * k), 'n = %s1' % ('0' * k), 'n%% %s10 = 1' % (' ' * k)]
    return out


def rule_pool(seed, n):
    rnd = random.Random(seed + 7)
    g = pgram.Gen(rnd)
    out = ['', '  ', ' @integer 2~17, 100, \u2026', '@decimal 0.0~1.5, 10.0', 'n = 1 @integer 1 @decimal 1.0, 1.00', 'n = 1@integer 1',
           ' @integer 0~15, 100, 1000, 10000, 100000, 1000000, \u2026 @decimal 0.1~0.9, 1.1~1.7, 10.1, 100.1, 1000.1, ...']
    for k in range(n):
        p = rnd.choice(g.g['rule'])
        if k % 40 == 38:
            g.maxlist = 40
        if k % 2:
            g.alike()
        out.append(g.sym('rule', p)[0])
        g.varied()
    if n >= 2000:
        for k in [16, 64, 128, 256, 1000] + [x for x in lits.around('cldr_pluralrules_parser', 3000) if x > 0]:
            l = ', '.join(str(j) for j in range(k))
            out += ['@integer ' + l, 'n = 1 @decimal ' + ', '.join('%d.5' % j for j in range(k)), '@integer%s1' % (' ' * k), 'n = 1%s@integer 1' % (' ' * k), '@integer %s, …' % l,
                    '@integer 1~%d' % (k + 1), '@decimal %d.%d' % (k, k), '@integer ' + ', '.join('%d~%d' % (j, j + 1) for j in range(k))]
    return out


def wild_pool(seed, n):
    rnd = random.Random(seed + 13)
    base = rule_pool(seed, n // 2) + cond_pool(seed, n // 4)[-(n // 4):] + [
        'n = 1', 'i is 5 or v within 2', 'n % 10 = 2..4 and n % 100 != 12..14', 'n is not 1', 'n = 1 @integer 1, 2']
    junk = [' ', '\t', '\n', '\u00a0', '\u3000', ',', '.', '..', '...', '\u2026', '~', '=', '!', '%', '@', 'n', 'x', '0', '1', '-', '+', 'and', 'or',
            *(t for t in lits.literals('cldr_pluralrules_parser')[1] if len(t) < 12 and '{' not in t), 'not', 'is', 'in', 'within', 'mod', '18446744073709551616', '99999999999999999999999', '@integer', '@decimal', '\u0661', '\uff11', '_', '1e3', '0x1',
            ' and ', ' or ', '"', '\u0000', '\u00e9']
    out = [j for j in junk] + [a + b for a in junk for b in junk][:: 3 if n < 2000 else 1]
    for t in base[:300]:
        for j in (' ', '\n', ',', ' ,', ' and', ' or ', '.', '..', ' x', ' 1', '@', ' @integer', ' @', '\u2026', ', ', '~', 'n', ' n = 1'):
            out.append(t + j)
            out.append(j + t)
    # every character at every place of a few texts
    chars = [chr(c) for c in range(128)] + ['\u0080', '\u00a0', '\u00e9', '\u2026', '\u2013', '\uff1d', '\uff0c', '\u2260', '\u0661', '\u03bd', '\u2028', '\ufeff', '\U0001f600']
    for t in ['n = 1', 'n % 10 = 2..4,7', 'i is not 5', 'v in 1', 'n not within 1..2', 'f mod 3 != 0', 'n = 1 and w = 0', 'n = 1 or t = 0', '@integer 1', 'n = 1 @decimal 1.5~2.5, ...', 'n within 1 @integer 3, 4, \u2026 @decimal 0.1']:
        sub = [x for k in range(len(t) + 1) for c in chars for x in (t[:k] + c + t[k:], t[:k] + c + t[k + 1:])]
        out += sub if n >= 2000 else rnd.sample(sub, len(sub) // 10)
    n += len(out) // 3
    while len(out) < n * 3:
        t = rnd.choice(base)
        for _ in range(rnd.choice([1, 1, 1, 2, 3])):
            k = rnd.randrange(len(t) + 1)
            r = rnd.random()
            if r < .3:
                t = t[:k] + rnd.choice(junk) + t[k:]
            elif r < .55:
                t = t[:k] + t[k + 1:]
            elif r < .75:
                t = t[:k] + rnd.choice(junk) + t[k + 1:]
            elif r < .85:
                t = t[:k]
            elif r < .95:
                j = rnd.randrange(len(t) + 1)
                t = t[:k] + t[min(j, k):max(j, k)] + t[k:]
            else:
                t = t + rnd.choice(base)
        if len(t) < 400:
            out.append(t)
    return out
