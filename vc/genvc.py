"""Contracts on the functions of make_pluralrules and their proof from MIR.

By signature (so a renamed or moved function is still found):
  fn(Relation) -> TokenStream      the tokens are an expression that is true exactly for the operand sets of the relation
                                   (UTS #35, or the recorded reading where known_findings.json records one), for every operand,
                                   modulus, operator and every list of values and ranges; its outermost operator binds at the
                                   level found, which becomes part of the contract
  fn(AndCondition) -> TokenStream  ... the conjunction of its relations, for every list of relations
  fn(Condition) -> TokenStream     ... the disjunction
Lists are of unknown length (mirvc/tok.py).  `some element of the list satisfies F` is an uninterpreted truth value per list and
per F (up to proved equivalence)."""
import os, re, time
import z3
from mirvc import mir, sym, tok, stdc
from mirvc.mir import Unsupported
from mirvc.sym import Agg, Ref, State, Leaf, norm_ty, strip_ref
from mirvc.tok import Bag, Seg, special
from .common import Undecided, REPO, emit_mir, known
from . import gen, rsx

tok.LEXER[0] = rsx.lex
SRC = os.path.join(REPO, 'make_pluralrules', 'src')
AST = os.path.join(REPO, 'cldr_pluralrules_parser', 'src')
U64 = 2 ** 64 - 1
OPERANDS = 'nivwft'


class Broken(Exception):
    """an obligation that does not hold: (what, candidate conditions)"""

    def __init__(self, what, conds=()):
        Exception.__init__(self, what)
        self.what, self.conds = what, None if conds is None else list(conds)


class Gen:
    def __init__(self, ck):
        self.ck = ck
        t = time.time()
        self.text = emit_mir('gen', 'make_pluralrules')
        self.prog = mir.Program(self.text, SRC)
        for k, v in mir.parse_enums(AST).items():
            self.prog.enums.setdefault(k, v)
        self.prog.enums['Delimiter'] = dict(Parenthesis=0, Brace=1, Bracket=2)
        self.prog.enums['Delimiter']['None'] = 3
        self.structs = dict(mir.parse_structs(SRC))
        self.ast = mir.parse_structs(AST)
        ck.extra['mir_s'] = round(time.time() - t, 2)

    def engine(self, contracts=()):
        return tok.TokEngine(self.prog, self.structs, list(contracts))

    def done(self, ex):
        self.ck.functions |= {n for n in ex.unfolded}
        self.ck.contracts_used |= set(stdc.USED)
        for n, k in ex.loops.items():
            d = self.ck.extra.setdefault('loops_by_rule', {})
            d[n] = d.get(n, 0) + k

    def by_signature(self, arg, ret):
        """functions fn(arg) -> ret (argument possibly by reference)"""
        out = []
        for f in self.prog.fns:
            if f.kind == 'fn' and '{closure' not in f.name and len(f.args) == 1 and norm_ty(f.ret) == ret and norm_ty(strip_ref(f.args[0][1])) == arg:
                out.append(f)
        return out

    def struct(self, name, **kw):
        fs = self.ast[name]
        if set(fs) != set(kw):
            raise Unsupported('fields of ' + name)
        return Agg(name, None, [kw[k] for k in fs], tuple(fs))

    def tup(self, name, *vals):
        if len(self.ast.get(name, ())) != len(vals):
            raise Unsupported('fields of ' + name)
        return Agg(name, None, vals)

    def arg(self, f, st, v):
        return Ref(st.new(v)) if f.args[0][1].startswith('&') else v


# ---- tokens to formulas --------------------------------------------------------------------------------
def readable(ex, st, items):
    """token tuple for rsx: lists known to be empty are dropped"""
    out = []
    for t in items:
        if isinstance(t, Seg):
            live = []
            for b, g, its in t.live():
                if ex.entails(st, ex.cnt(b, g) == 0):
                    continue
                live.append((b, g, readable(ex, st, its)))
            if live:
                out.append(('seg', tuple(live), t))
        elif special(t):
            raise Unsupported('token stream with an open accumulator')
        elif isinstance(t, Agg):
            out += readable(ex, st, t.fs)
        elif t[0] == 'grp':
            out.append(('grp', t[1], readable(ex, st, t[2])))
        else:
            out.append(t)
    return tuple(out)


def replace_seg(items, seg, new):
    out = []
    for t in items:
        if t is seg:
            out += list(new)
        elif isinstance(t, tuple) and t[0] == 'grp':
            out.append(('grp', t[1], tuple(replace_seg(t[2], seg, new))))
        else:
            out.append(t)
    return out


def read(ex, st, items, parse, depth=0):
    """-> list of (state, ast): the parse of a token stream; where the first element of a list matters, by cases"""
    try:
        return [(st, parse(readable(ex, st, items)))]
    except rsx.NeedFirst as e:
        if depth > 4:
            raise Unsupported('list where its first element matters')
        seg = e.seg[2]
        out = []
        for s, x, rest in ex.first_of(st, (seg,)):
            new = () if x is None else (x,) + tuple(rest)
            out += read(ex, s, replace_seg(items, seg, new), parse, depth + 1)
        return out


class Lists:
    """truth values `some element of the list satisfies F`"""

    def __init__(self, ex, st, prem):
        self.ex, self.st, self.prem = ex, st, list(prem)
        self.cls = {}                           # bag key -> [(formula, Bool)]
        self.cons = []
        self.bags = {}

    def key(self, bag, guard):
        return (id(bag), None if guard is True else guard.sexpr())

    def equivalent(self, a, b, bag, guard):
        if z3.eq(a, b):
            return True
        s = z3.Solver(); s.set('timeout', 5000)
        s.add(*self.prem)
        if guard is not True:
            s.add(guard)
        s.add(a != b)
        return s.check() == z3.unsat

    def some(self, bag, guard, F):
        """is there an element of the (filtered) bag with F?"""
        ex = self.ex
        k = self.key(bag, guard)
        c = ex.cnt(bag, guard)
        if k in ex.peels:
            mp, rest = ex.peels[k][:2]
            inst = z3.substitute(F, *mp) if mp else F
            return z3.And(c >= 1, z3.Or(inst, self.some(rest, True, F)))
        self.bags[k] = (bag, guard)
        for G, X in self.cls.setdefault(k, []):
            if self.equivalent(F, G, bag, guard):
                return X
            if self.equivalent(F, z3.BoolVal(False), bag, guard):
                return z3.BoolVal(False)
        X = z3.Bool(tok.fresh('some:' + bag.name))
        self.cls[k].append((F, X))
        self.cons.append(z3.Implies(X, c >= 1))
        # F true of every element: any element will do
        if self.equivalent(F, z3.BoolVal(True), bag, guard):
            self.cons.append(X == (c >= 1))
        elif len(self.cls[k]) == 2 and self.equivalent(F, z3.Not(self.cls[k][0][0]), bag, guard):
            self.cons.append(z3.Implies(c >= 1, z3.Or(X, self.cls[k][0][1])))
        return X

    def tail(self, M, e):
        """meaning of a repeated part"""
        op = e[1]
        parts = []
        for bag, guard, es in e[2]:
            fs = [M.boolean(x) for x in es]
            F = (z3.And if op == '&&' else z3.Or)(*fs)
            parts.append(z3.Not(self.some(bag, guard, z3.Not(F))) if op == '&&' else self.some(bag, guard, F))
        return z3.And(*parts) if op == '&&' else z3.Or(*parts)


# ---- relations ---------------------------------------------------------------------------------------------
class Relation:
    def __init__(self, G, x, mod, op):
        self.G, self.x, self.mod, self.op = G, x, mod, op
        big = gen.B53 - 1 if x == 'n' else U64
        self.m = z3.Int('m') if mod else None
        self.k, self.lo, self.hi = z3.Int('k'), z3.Int('lo'), z3.Int('hi')
        self.facts = [[self.k >= 0, self.k <= big], [self.lo >= 0, self.lo <= big, self.hi >= 0, self.hi <= big]]

    def setup(self, ex):
        G = self.G
        self.V = ex.bag('values', [self.k], self.facts[0])
        self.R = ex.bag('ranges', [self.lo, self.hi], self.facts[1])
        val = lambda t: G.tup('Value', t)
        en = lambda e, v, *fs: Agg(e, v, fs)
        items = Seg([(self.V, True, (en('RangeListItem', 'Value', val(self.k)),)),
                     (self.R, True, (en('RangeListItem', 'Range', G.struct('Range', lower_val=val(self.lo), upper_val=val(self.hi))),))])
        mod = stdc.some(G.tup('Modulo', val(self.m))) if self.mod else stdc.NONE
        if self.op not in G.prog.enums.get('Operator', {}) or self.x.upper() not in G.prog.enums.get('Operand', {}):
            raise Unsupported('syntax tree')
        st = State()
        st.pc += [self.V.count + self.R.count >= 1]
        if self.mod:
            st.pc += [self.m >= 1, self.m <= U64]
        rel = G.struct('Relation', expression=G.struct('Expression', operand=en('Operand', self.x.upper()), modulus=mod),
                       operator=en('Operator', self.op), range_list=G.tup('RangeList', Agg('Vec', None, (items,))))
        return st, rel

    def some_item(self, L, f):
        """some value or range of the list satisfies f(item)"""
        out = []
        for bag, it in ((self.V, ('v', self.k)), (self.R, ('r', self.lo, self.hi))):
            for g in self.guards(L, bag):
                out.append(L.some(bag, g, f(it)))
        return z3.Or(*out)

    def guards(self, L, bag):
        """filters applied to the bag (a partition), or none"""
        gs = [g for _, b, g in L.ex.counts.values() if b is bag]
        gs = [g for n, g in enumerate(gs) if not any(L.equivalent(g, h, bag, True) for h in gs[:n])]
        if not gs:
            return [True]
        return gs + [z3.Not(z3.Or(*gs))]

    def dev_item(self, it):
        d = gen.item_dev(self.x, self.m, self.op, it)
        return z3.Not(d) if self.op in gen.NEG else d

    def expected(self, L, rd):
        """list of (premise, formula): what the relation means, by cases; formula None: anything goes"""
        x, m, op = self.x, self.m, self.op
        neg = op in gen.NEG
        uts = lambda: self.some_item(L, lambda it: gen.item_uts(x, m, op, it))
        flip = (lambda f: z3.Not(f)) if neg else (lambda f: f)
        nv, nr = self.V.count, self.R.count
        if op in gen.WITHIN:
            mp, rest = L.ex.peel(State(), self.R, True)
            first = dict((a.decl().name(), b) for a, b in mp)
            dev = gen.within_dev(x, m, op, first['lo'], first['hi'])
            single = z3.And(nv == 0, nr == 1)
            out = []
            for prem, sh in ((single, gen.shape(x, m, op, [('r', 1, 2)])), (z3.Not(single), gen.shape(x, m, op, [('r', 1, 2), ('v', 1)]))):
                if sh and rd.get(sh):
                    out.append((z3.And(prem, nr >= 1), dev))
                else:
                    out.append((prem, flip(uts())))
            return out
        if x != 'n':
            return [(z3.BoolVal(True), flip(uts()))]
        dev = lambda: self.some_item(L, self.dev_item)
        if m is not None:
            return [(z3.BoolVal(True), flip(dev() if rd.get('n mod') else uts()))]
        if neg and rd.get('n != range'):
            return [(nr >= 1, flip(dev())), (nr == 0, flip(uts()))]
        return [(z3.BoolVal(True), flip(uts()))]

    def name(self):
        return '%s%s %s' % (self.x, ' %% m' if self.mod else '', self.op)

    def candidates(self, model, L, k2=2):
        """concrete relations suggested by a counterexample"""
        def iv(t, d=1):
            try:
                v = model.eval(t, model_completion=True)
                return v.as_long()
            except Exception:
                return d
        its = []
        for key, (mp, rest, bag, guard) in L.ex.peels.items():
            d = {a.decl().name(): iv(b) for a, b in mp}
            if 'k' in d:
                its.append(('v', d['k']))
            elif 'lo' in d:
                its.append(('r', d['lo'], d['hi']))
        v, r = ('v', iv(self.k)), ('r', iv(self.lo), iv(self.hi))
        mods = [None] if not self.mod else [iv(self.m), 10, 100, 7, 1000]
        pool = []
        lists = [its] if its else []
        lists += [[v], [r], [v, v], [r, r], [v, r], [r, v]]
        if its:
            lists += [its + [v], its + [r], [v] + its, its * 2]
        hints = {1, 2, 3, 10}
        lists += [[('v', 3)], [('r', 2, 4)], [('v', 1), ('v', 5)], [('r', 2, 4), ('v', 7)], [('v', 7), ('r', 2, 4)], [('r', 2, 4), ('r', 6, 8)], [('v', 1), ('v', 3), ('r', 6, 8), ('r', 10, 12)]]
        for mm in mods:
            for l in lists:
                if l:
                    pool.append([[(self.x, mm, self.op, l)]])
        return pool


def prove_relation(G, f, R, rd):
    """-> least binding level; raises Broken"""
    ck = G.ck
    ex = G.engine()
    st, rel = R.setup(ex)
    ck.satisfiable('a list of values and ranges (%s)' % R.name(), ex.axioms + st.pc) if R.op == 'EQ' else None
    leaves = ex.run(f, [G.arg(f, st, rel)], st)
    G.done(ex)
    G.ck.functions.add(f.name)
    level = rsx.PRIMARY
    if not leaves:
        raise Unsupported('no path')
    for n, l in enumerate(leaves):
        nm = '%s: %s, path %d' % (f.name.split('::')[-1], R.name(), n)
        prem0 = gen.WF + ex.axioms + [c for c in l.st.pc if z3.is_expr(c)]
        if l.kind == 'unreachable':
            continue
        if l.kind == 'panic':
            goal = R.R.count == 0 if R.op in gen.WITHIN else z3.BoolVal(False)
            m = ck.prove(nm + ' does not panic', prem0, goal)
            if m is not None:
                raise Broken('%s panics (%s)' % (R.name(), l.val), R.candidates(m, Lists(ex, l.st, prem0)))
            continue
        try:
            parsed = read(ex, l.st, l.val.fs, rsx.whole)
        except rsx.NotRust as e:
            s = z3.Solver(); s.add(*prem0)
            m = s.model() if s.check() == z3.sat else None
            if m is None:
                continue
            raise Broken('%s: emitted tokens %s: %s' % (R.name(), rsx.show(readable(ex, l.st, l.val.fs))[:300], e), R.candidates(m, Lists(ex, l.st, prem0)))
        for st2, ast in parsed:
            prem = gen.WF + ex.axioms + [c for c in st2.pc if z3.is_expr(c)]
            level = min(level, rsx.level(ast))
            L = Lists(ex, st2, prem)
            # the reading of the specification first: its formulas name the classes
            want = R.expected(L, rd)
            prem = gen.WF + ex.axioms + [c for c in st2.pc if z3.is_expr(c)]
            L.prem = prem
            try:
                got = rsx.Meaning(gen.O, joinf=L.tail).boolean(ast)
            except rsx.NotRust as e:
                s = z3.Solver(); s.add(*prem)
                m = s.model() if s.check() == z3.sat else None
                if m is None:
                    continue
                raise Broken('%s: emitted expression %s: %s' % (R.name(), rsx.show(readable(ex, l.st, l.val.fs))[:300], e), R.candidates(m, L))
            for j, (p, w) in enumerate(want):
                prem = gen.WF + ex.axioms + [c for c in st2.pc if z3.is_expr(c)] + L.cons + [p]
                m = ck.prove('%s, case %d' % (nm, j), prem, got == w)
                if m is not None:
                    pool = R.candidates(m, L)
                    # a generic element on which the emitted test and the meaning differ
                    for key, cl in L.cls.items():
                        if len(cl) > 1:
                            s = z3.Solver(); s.set('timeout', 5000)
                            s.add(*prem0)
                            s.add(cl[0][0] != cl[1][0])
                            if s.check() == z3.sat:
                                pool = R.candidates(s.model(), L) + pool
                    raise Broken('%s: %s does not mean the relation' % (R.name(), rsx.show(readable(ex, l.st, l.val.fs))[:300]), pool)
    return level


# ---- and / or ------------------------------------------------------------------------------------------------
REL = z3.Function('relation', z3.IntSort(), z3.BoolSort())
AND = z3.Function('and_condition', z3.IntSort(), z3.BoolSort())
COND = z3.Function('condition', z3.IntSort(), z3.BoolSort())


def abstract(G, fns, sem, level, ty):
    """override: a call of one of the functions on an abstract tree gives the expression of its contract"""
    names = {f.name for f in fns}

    def pred(callee, tys, dty):
        return sym.strip_generics(callee) in names or callee in names

    def con(ex, st, callee, vals, tys, dty):
        v = ex.deep(st, vals[0])
        if not (isinstance(v, Agg) and v.names == ('__abstract',)):
            return None
        return [Leaf(st, 'return', tok.TS([('ex', level, sem(v.fs[0]))]))]
    con.__name__ = 'contract of fn(%s) -> TokenStream' % ty
    return (pred, con)


def prove_list(G, f, outer, inner, fns, sem, level, op):
    """f: tokens of a list of trees, joined by op; -> binding level"""
    ck = G.ck
    ex = G.engine([abstract(G, fns, sem, level, inner)])
    y = z3.Int('y')
    B = ex.bag(inner, [y])
    st = State()
    st.pc.append(B.count >= 1)
    arg = G.tup(outer, Agg('Vec', None, (Seg([(B, True, (Agg(inner, None, (y,), ('__abstract',)),))]),)))
    leaves = ex.run(f, [G.arg(f, st, arg)], st)
    G.done(ex)
    ck.functions.add(f.name)
    lv = rsx.PRIMARY
    for n, l in enumerate(leaves):
        nm = '%s: path %d' % (f.name.split('::')[-1], n)
        prem0 = ex.axioms + [c for c in l.st.pc if z3.is_expr(c)]
        if l.kind == 'unreachable':
            continue
        if l.kind != 'return':
            if ck.prove(nm + ' does not panic', prem0, z3.BoolVal(False)) is not None:
                raise Broken('%s panics (%s)' % (f.name, l.val), None)
            continue
        try:
            parsed = read(ex, l.st, l.val.fs, rsx.whole)
        except rsx.NotRust as e:
            raise Broken('%s: emitted tokens %s: %s' % (f.name, rsx.show(readable(ex, l.st, l.val.fs))[:300], e), None)
        for st2, ast in parsed:
            lv = min(lv, rsx.level(ast))
            L = Lists(ex, st2, [])
            F = sem(y)
            want = L.some(B, True, F) if op == '||' else z3.Not(L.some(B, True, z3.Not(F)))
            try:
                got = rsx.Meaning(gen.O, sem=lambda t: t, joinf=L.tail).boolean(ast)
            except rsx.NotRust as e:
                raise Broken('%s: %s' % (f.name, e), None)
            prem = ex.axioms + [c for c in st2.pc if z3.is_expr(c)] + L.cons
            if ck.prove(nm, prem, got == want) is not None:
                raise Broken('%s: %s is not the %s of the parts' % (f.name, rsx.show(readable(ex, l.st, l.val.fs))[:300], 'disjunction' if op == '||' else 'conjunction'), None)
    return lv


def confirm(J, pool):
    """first condition of the pool that the real generator gets wrong"""
    if pool is None:
        pool = gen.compound_pool(7, 400)
    pool = [p for p in pool if ok_pool(p)]
    n, bad = J.judge(pool)
    return bad[:1]


def around(weak):
    """conditions in which the given relations stand beside others"""
    lists = [[('v', 3)], [('v', 1), ('v', 5)], [('r', 2, 4)], [('r', 2, 4), ('v', 7)], [('r', 2, 4), ('r', 6, 8)]]
    other = [('i', None, 'EQ', [('v', 2)]), ('v', None, 'NotEQ', [('v', 0)])]
    pool = []
    for x, mod, op in weak[:24]:
        for l in lists:
            w = (x, 10 if mod else None, op, l)
            for o in other:
                pool += [[[w, o]], [[o, w]], [[w], [o]], [[o], [w]]]
    return pool


def ok_pool(p):
    for a in p:
        for x, m, op, its in a:
            big = gen.B53 if x == 'n' else 2 ** 64
            for it in its:
                if any(not 0 <= v < big for v in it[1:]):
                    return False
            if m is not None and not 1 <= m < 2 ** 64:
                return False
            if op in gen.WITHIN and not any(i[0] == 'r' for i in its):
                return False
    return True


def conditions(ck, J):
    """C13: contracts of the functions that emit conditions"""
    G = [None]

    def load():
        G[0] = Gen(ck)
    ck.part('MIR of make_pluralrules', load)
    G = G[0]
    if G is None:
        return
    rd = J.probe()
    fs = G.by_signature('Relation', 'TokenStream')
    fa = G.by_signature('AndCondition', 'TokenStream')
    fc = G.by_signature('Condition', 'TokenStream')
    level, good = rsx.PRIMARY, []
    state = dict(bad=False)
    weak = []                                # relations whose expression binds most weakly

    def broken(what, e):
        """an obligation failed: a concrete condition that the real generator gets wrong, or no verdict"""
        hit = confirm(J, e.conds) if e.conds is not None else confirm(J, around(weak)) or confirm(J, None)
        if hit:
            ck.fail(what, e.what, [(hit[0][0], lambda: hit[0][1])])
        else:
            ck.fail(what, e.what, [])
        state['bad'] = True

    def relation(f):
        nonlocal level
        for x in OPERANDS:
            for mod in (False, True):
                for op in gen.OPTEXT:
                    try:
                        lv = prove_relation(G, f, Relation(G, x, mod, op), rd)
                        if lv < level:
                            weak.clear()
                        if lv <= level:
                            level = lv
                            weak.append((x, mod, op))
                    except Broken as e:
                        broken('%s: %s' % (f.name, Relation(G, x, mod, op).name()), e)
                        if len(ck.failed) > 1:
                            return
        good.append(f)
    for f in fs:
        ck.part('contract of %s' % f.name, lambda: relation(f))
    if not fs:
        ck.undecided('fn(Relation) -> TokenStream', 'no such function')
    if not good or len(good) != len(fs):
        ck.undecided('lists of relations', 'the contract on relations is not proved')
        return
    ga, alevel = [], rsx.PRIMARY

    def andc(f):
        nonlocal alevel
        try:
            alevel = min(alevel, prove_list(G, f, 'AndCondition', 'Relation', fs, lambda y: REL(y), level, '&&'))
            ga.append(f)
        except Broken as e:
            broken(f.name, e)

    def orc(f):
        try:
            ck.extra['level_of_condition'] = prove_list(G, f, 'Condition', 'AndCondition', fa, lambda y: AND(y), alevel, '||')
        except Broken as e:
            broken(f.name, e)
    for f in fa:
        ck.part('contract of %s' % f.name, lambda: andc(f))
    if not fa or len(ga) != len(fa):
        ck.undecided('lists of and-conditions', 'the contract on and-conditions is not proved')
        return
    for f in fc:
        ck.part('contract of %s' % f.name, lambda: orc(f))
    if not fc:
        ck.undecided('fn(Condition) -> TokenStream', 'no such function')
    ck.extra['levels'] = dict(relation=level, and_condition=alevel)
