"""Lists of unknown length and token streams: what the generator (crate make_pluralrules) works on.

A sequence (Vec, iterator, token stream) is a tuple of items; an item may be a `Seg`: the concatenation, over the elements of a
list of unknown length, of the items each element contributes.  The elements of such a list come in `Bag`s -- one per kind of
element -- with generic variables standing for "any element of the bag" and a count.

A loop over a Seg is not unrolled.  The loop rule (Engine.loop) evaluates the body once on a generic element of every kind, for an
arbitrary value of the accumulators (a `Mark`, which no contract may look into), and requires that the rest of the state reaches a
fixed point after the first element.  That is the inductive step of the loop invariant "the accumulator holds what it held before,
followed by the contribution of every element so far".

Contracts on quote / proc_macro2 follow their documentation: a token stream is the sequence of the tokens pushed on it."""
import re
import z3
from .mir import Unsupported
from . import sym, stdc
from .sym import Agg, Ref, Str, Atom, Opaque, Leaf, Closure, FnItem, UNIT, Infeasible, F, base_ty, conj, norm_ty
from .stdc import some, NONE, ret, panic, Call

_n = [0]


def fresh(prefix):
    _n[0] += 1
    return '%s!%d' % (prefix, _n[0])


class Bag:
    """the elements of one kind of a list of unknown length"""

    def __init__(self, name, vs, facts=(), order=None):
        self.name = name
        self.vars = tuple(vs)
        self.count = z3.Int(fresh('#' + name))
        self.facts = tuple(facts)
        self.order = order
        self.parent = None                    # (bag, guard, instance) for the rest of a list after its first element

    def __repr__(self):
        return 'Bag(%s)' % self.name


class Seg:
    __slots__ = ('cases', 'order')

    def __init__(self, cases, order=None):
        self.cases = tuple(cases)             # (bag, guard, items)
        self.order = order                    # ('asc', key in terms of the generic variables), if the elements are known to be sorted

    def __repr__(self):
        return 'Seg(%s)' % ', '.join('%s%s: %r' % (b.name, '' if g is True else '|' + str(g), i) for b, g, i in self.cases)

    def live(self):
        return [c for c in self.cases if c[2]]


class Mark:
    __slots__ = ()

    def __repr__(self):
        return 'Mark'


class Cut:
    __slots__ = ('fn', 'bb', 'fr')

    def __repr__(self):
        return 'Cut'


MARK = Mark()


class Carried(Unsupported):
    """a loop whose state is not just accumulators"""


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.eq(a, b)
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.ty == b.ty and a.var == b.var and same(a.fs, b.fs)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, Str):
        return a.ps == b.ps
    if isinstance(a, Closure):
        return a.span == b.span and same(a.caps, b.caps)
    if isinstance(a, FnItem):
        return a.name == b.name
    if isinstance(a, F):
        return same(a.val, b.val) and same(a.nan, b.nan) and same(a.neg, b.neg)
    if isinstance(a, Seg):
        return len(a.cases) == len(b.cases) and all(x[0] is y[0] and same(x[1], y[1]) and same(x[2], y[2]) for x, y in zip(a.cases, b.cases))
    return a == b


def learned(a, b):
    """does state b know more about the texts of state a?"""
    return any(b.lang.get(k) is not v and b.lang.get(k) != v or (k in b.sub) != (k in a.sub) for k, v in a.lang.items())


def children(v):
    if isinstance(v, Agg):
        return v.fs
    if isinstance(v, Closure):
        return v.caps
    if isinstance(v, tuple):
        return v
    if isinstance(v, Seg):
        return tuple(c[2] for c in v.cases)
    return ()


def refs(v, out):
    if isinstance(v, Ref):
        out.append(v)
    for x in children(v):
        refs(x, out)
    return out


def reaches(st, v, pred, seen=None, depth=0):
    """does the value (through references) contain an object satisfying pred?"""
    seen = set() if seen is None else seen
    if pred(v):
        return True
    if isinstance(v, Ref):
        if v.cell in seen:
            return False
        seen.add(v.cell)
        return reaches(st, st.mem.get(v.cell), pred, seen)
    return any(reaches(st, x, pred, seen) for x in children(v))


def special(v):
    return isinstance(v, (Seg, Mark, Cut))


def mentions(st, v, ids, seen=None):
    """does the value mention one of the given constants?"""
    def pred(x):
        if isinstance(x, z3.ExprRef):
            return bool(ids & consts_of(x))
        if isinstance(x, Seg):
            return any(isinstance(g, z3.ExprRef) and ids & consts_of(g) for _, g, _ in x.cases)
        return False
    return reaches(st, v, pred)


_consts = {}


def consts_of(t):
    k = t.get_id()
    if k in _consts and z3.eq(_consts[k][0], t):
        return _consts[k][1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    _consts[k] = (t, out)
    return out


def subst(st, v, mp):
    """the value with constants replaced; cells that mention them are copied"""
    if not mp:
        return v
    ids = {a.decl().name() for a, _ in mp}
    copied = {}

    def go(x):
        if isinstance(x, z3.ExprRef):
            return z3.substitute(x, *mp)
        if isinstance(x, Agg):
            return Agg(x.ty, x.var, [go(y) for y in x.fs], x.names)
        if isinstance(x, Closure):
            return Closure(x.span, x.fn, [go(y) for y in x.caps])
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, Seg):
            return Seg(((b, g if g is True else z3.substitute(g, *mp), go(i)) for b, g, i in x.cases), x.order)
        if isinstance(x, F):
            return F(go(x.val), go(x.nan), go(x.neg))
        if isinstance(x, Ref):
            if x.cell in copied:
                return Ref(copied[x.cell], x.path)
            if mentions(st, x, ids):
                copied[x.cell] = c = st.new(None)
                st.mem[c] = go(st.mem[x.cell])
                return Ref(c, x.path)
        return x
    return go(v)


SEQ = ('Vec', 'array', 'TokenStream', 'bytes', 'BTreeMap')
# library functions whose contract only moves values around
SAFE = {'Clone::clone', 'ToOwned::to_owned', 'Into::into', 'From::from', 'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow',
        'Vec::push', 'Vec::as_slice', 'Vec::new', 'Vec::with_capacity', 'Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::cloned',
        'Iterator::copied', 'Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::map', 'Result::map', 'Option::as_ref',
        'Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err', 'Option::ok_or', 'Result::ok', 'Option::unwrap_or', 'Option::unwrap_or_else',
        'Result::unwrap_or_else', 'Option::and_then', 'Result::and_then', 'Try::branch', 'Try::from_output', 'FromResidual::from_residual', 'mem::drop',
        'mem::replace', 'convert::identity', 'Fn::call', 'FnMut::call_mut', 'FnOnce::call_once', 'hint::black_box', 'panicking::panic', 'panicking::panic_fmt',
        'panicking::unreachable_default_msg', 'panicking::panic_explicit', 'panicking::panic_display', 'rt::begin_panic',
        'Option::map_or', 'Option::map_or_else', 'Result::map_err', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new', 'Option::unwrap_or_default',
        'Option::or', 'Option::or_else', 'Iterator::enumerate', 'LanguageIdentifier::clone', 'Option::filter', 'Result::unwrap_or', 'Option::copied', 'Option::cloned', 'Iterator::by_ref'}


class TokEngine(sym.Engine):
    def __init__(self, *a, **k):
        sym.Engine.__init__(self, *a, **k)
        self.lib = self
        self.axioms = []
        self.peels = {}
        self.counts = {}
        self.cuts = []
        self.texts = {}
        self.known_texts = []
        self.distinct = set()                  # atoms that stand for different texts
        self.loops = {}                        # function -> number of applications of the loop rule
        self._flow = {}

    # stdc interface
    def call_opaque(self, *a):
        return stdc.call_opaque(*a)

    def __getattr__(self, k):
        raise AttributeError(k)

    @staticmethod
    def to_string(ex, st, c, v):
        return TABLE['ToString::to_string'](ex, st, c, v) or stdc.TABLE['ToString::to_string'](ex, st, c, v)

    # ---- bags --------------------------------------------------------------------------
    def bag(self, name, vs, facts=(), order=None):
        b = Bag(name, vs, facts, order)
        self.axioms += list(facts) + [b.count >= 0]
        return b

    def cnt(self, bag, guard):
        if guard is True:
            return bag.count
        k = (id(bag), guard.sexpr())
        if k not in self.counts:
            c = z3.Int(fresh('#%s|' % bag.name))
            self.counts[k] = (c, bag, guard)
            self.axioms.append(z3.And(c >= 0, c <= bag.count))
        return self.counts[k][0]

    def peel(self, st, bag, guard):
        """-> (instance map of the first element, rest bag); assumes there is one"""
        c = self.cnt(bag, guard)
        k = (id(bag), None if guard is True else guard.sexpr())
        if k not in self.peels:
            mp = [(v, z3.Const(fresh(v.decl().name() + "'"), v.sort())) for v in bag.vars]
            rest = Bag(bag.name + "'", bag.vars, bag.facts, bag.order)
            rest.parent = (bag, guard, mp)
            self.axioms.append(z3.And(rest.count >= 0, z3.Implies(c >= 1, rest.count == c - 1)))
            self.peels[k] = (mp, rest, bag, guard)
        mp, rest = self.peels[k][:2]
        if mp:
            for f in bag.facts + (() if guard is True else (guard,)):
                st.assume(z3.substitute(f, *mp))
        return mp, rest

    def total(self, st, items):
        """number of items"""
        n = 0
        for x in items:
            if isinstance(x, Seg):
                for b, g, its in x.cases:
                    if any(special(y) for y in its):
                        raise Unsupported('length of a nested list')
                    if its:
                        n = n + self.cnt(b, g) * len(its)
            elif special(x):
                raise Unsupported('length of an accumulator')
            else:
                n = n + 1
        return n

    def assuming(self, st, c):
        """state with the condition added, or None"""
        s = st.fork()
        if c is True:
            return s
        s.pc.append(c)
        return s if self.feasible(s) else None

    def first_of(self, st, items):
        """-> list of (state, first item or None, rest)"""
        if not items:
            return [(st, None, ())]
        x = items[0]
        if isinstance(x, Seg):
            out = []
            live = x.live()
            for j, (b, g, its) in enumerate(x.cases):
                if not its:
                    continue
                s = self.assuming(st, self.cnt(b, g) >= 1)
                if s is None:
                    continue
                mp, rest = self.peel(s, b, g)
                its2 = subst(s, its, mp)
                seg = Seg(x.cases[:j] + ((rest, True, its),) + x.cases[j + 1:], x.order)
                out += self.first_of(s, its2 + (seg,) + items[1:]) if special(its2[0]) else [(s, its2[0], its2[1:] + (seg,) + items[1:])]
            s = self.assuming(st, conj(*[self.cnt(b, g) == 0 for b, g, _ in live]))
            if s is not None:
                out += self.first_of(s, items[1:])
            return out
        if special(x):
            raise Unsupported('an accumulator is inspected')
        return [(st, x, items[1:])]

    # ---- solver ------------------------------------------------------------------------
    def feasible(self, st):
        self.nfeas += 1
        s = z3.Solver(); s.set('timeout', 3000)
        s.add(*[c for c in st.pc if z3.is_expr(c)])
        s.add(*self.axioms)
        return s.check() != z3.unsat

    def entails(self, st, c):
        if isinstance(c, bool):
            return c
        s = z3.Solver(); s.set('timeout', 5000)
        s.add(*[x for x in st.pc if z3.is_expr(x)])
        s.add(*self.axioms)
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    # ---- places ------------------------------------------------------------------------
    def place(self, st, fr, text):
        loc, projs = sym.parse_place(text)
        if any(p[0] in ('index', 'cindex') for p in projs):
            k = next(i for i, p in enumerate(projs) if p[0] in ('index', 'cindex'))
            v = self.deep(st, Ref(fr[loc])) if k and projs[0][0] == 'deref' else st.mem.get(fr[loc])
            if reaches(st, v, special):
                raise Unsupported('index into a list of unknown length')
        return sym.Engine.place(self, st, fr, text)

    def rvalue(self, st, fr, t, fn, dest_ty):
        m = re.match(r'^(?:no_retag )?(PtrMetadata|Len)\((.*)\)$', t.strip())
        if m:
            v = self.operand(st, fr, m.group(2), fn) if m.group(1) == 'PtrMetadata' else self.load(st, self.place(st, fr, m.group(2)))
            v = self.deep(st, v)
            if isinstance(v, Agg) and v.ty in SEQ:
                return self.total(st, v.fs)
        return sym.Engine.rvalue(self, st, fr, t, fn, dest_ty)

    # ---- library calls -----------------------------------------------------------------
    def call(self, st, *a):
        # stdc.call(ex, st, ...) is reached through self.lib.call(self, st, ...)
        if st is self:
            return self.libcall(*a)
        return sym.Engine.call(self, st, *a)

    def libcall(self, st, callee, vals, tys, dty, fn):
        c = Call(callee, tys, dty, fn)
        if v0_is(self, st, vals, 'RuleMap') and (c.key.startswith('BTreeMap::') or c.key == 'IntoIterator::into_iter'):
            out = []
            for s, a in rule_map(self, st, vals[0]):
                out += self.libcall(s, callee, [a] + list(vals[1:]), tys, dty, fn)
            return out
        f = TABLE.get(c.key)
        if f is None and c.key.startswith('__private::push_'):
            f = TABLE['__private::push_*']
        if f is not None:
            stdc.USED[c.key] = stdc.USED.get(c.key, 0) + 1
            r = f(self, st, c, vals)
            if r is not None:
                return r
        if c.key not in SAFE and any(reaches(st, v, special) for v in vals):
            raise Unsupported('%s on a list of unknown length' % c.key)
        return stdc.call(self, st, callee, vals, tys, dty, fn)

    # ---- the loop rule -----------------------------------------------------------------
    def block(self, fn, fr, st, bb, visits):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        n = visits.get(bb, 0) + 1
        if n > 600 or n > 24 and visits.get('str', 0) > 24:
            raise Unsupported('loop without invariant in ' + fn.name)
        visits = dict(visits)
        visits[bb] = n
        stmts = fn.blocks[bb]
        try:
            for s in stmts[:-1]:
                self.stmt(fn, fr, st, s)
            return self.terminate(fn, fr, st, bb, visits)
        except Infeasible:
            return []

    drop_frames = True                         # the variables of a finished call are gone

    def terminate(self, fn, fr, st, bb, visits):
        t = fn.blocks[bb][-1]
        if '::next(' not in t:
            return self.term(fn, fr, st, t, visits)
        k = self.assign_pos(t)
        j = self._arrow(t[k + 3:])
        call = t[k + 3:][:j].strip()
        p = self._lastparen(call)
        callee, args = call[:p].strip(), sym.split_top(call[p + 1:-1])
        c = Call(callee, [], '?', fn)
        if c.key != 'Iterator::next':
            return self.term(fn, fr, st, t, visits)
        r = self.operand(st, fr, args[0], fn)
        while isinstance(r, Ref) and isinstance(self.load(st, r), Ref):
            r = self.load(st, r)
        it = self.load(st, r)
        if isinstance(it, Agg) and it.ty != 'Iter' and reaches(st, it, special):
            out = []
            for s, items in drive(self, st, it):
                if isinstance(items, Leaf):
                    out.append(items); continue
                self.store(s, r, Agg('Iter', None, (tuple(items),)))
                out += self.terminate(fn, fr, s, bb, visits)
            return out
        if not (isinstance(it, Agg) and it.ty == 'Iter' and it.fs[0] and special(it.fs[0][0])):
            return self.term(fn, fr, st, t, visits)
        items = it.fs[0]
        x = items[0]
        if isinstance(x, Cut):
            if self.cuts and self.cuts[-1] is x and x.bb == bb and x.fr is fr:
                return [Leaf(st, 'cut', None)]
            raise Unsupported('nested iteration')
        if isinstance(x, Mark):
            raise Unsupported('an accumulator is inspected')
        if not x.live():
            self.store(st, r, Agg('Iter', None, (items[1:],)))
            return self.terminate(fn, fr, st, bb, visits)
        if bb not in self.flow(fn)[1][bb]:
            return self.term(fn, fr, st, t, visits)          # not in a loop: the contract of `next` takes the list apart
        cut = Cut()
        cut.fn, cut.bb, cut.fr = fn, bb, fr

        def step(s, its):
            self.store(s, r, Agg('Iter', None, (its + (cut,),)))
            self.cuts.append(cut)
            try:
                work, leaves = list(self.terminate(fn, fr, s, bb, {})), []
                while work:
                    w = work.pop()
                    if isinstance(w, Leaf):
                        leaves.append(w)
                    else:
                        work += self.block(fn, fr, *w)
                    if len(leaves) > 500:
                        raise Unsupported('too many paths in a loop body')
                return leaves
            finally:
                self.cuts.pop()
        livein = self.flow(fn)[2]
        u, d = self.usedef(t)
        lv = set(u)
        for b in self.flow(fn)[0][bb]:
            lv |= livein[b] - d
        dead = {fr[l] for l in fn.locals if l in fr and l not in lv}
        self.loops[fn.name] = self.loops.get(fn.name, 0) + 1
        out = []
        for l in self.loop(st, x, step, dead, r):
            if l.kind != 'exit':
                out.append(l); continue
            self.store(l.st, r, Agg('Iter', None, (items[1:],)))
            out += self.terminate(fn, fr, l.st, bb, visits)
        return out

    def watched(self, st, dead):
        """cells that matter after the step"""
        cells = [c for c in st.mem if c not in dead]
        seen, todo = set(cells), list(cells)
        while todo:
            for r in refs(st.mem.get(todo.pop()), []):
                if r.cell not in seen:
                    seen.add(r.cell); todo.append(r.cell)
        return seen

    def loop(self, st, seg, step, dead, skip):
        """the effect of performing `step` for every element; -> leaves of kind 'exit' and 'panic'"""
        try:
            return self.loop1(st.fork(), seg, step, dead, skip)
        except Carried:
            pass
        # something else is carried: the first element by itself, then the rule for the others
        out = []
        cases = seg.live()
        e0 = self.assuming(st, conj(*[self.cnt(b, g) == 0 for b, g, _ in cases]))
        if e0 is not None:
            out.append(Leaf(e0, 'exit', None))
        for b, g, its in cases:
            s = self.assuming(st, self.cnt(b, g) >= 1)
            if s is None:
                continue
            mp, rest = self.peel(s, b, g)
            tail = Seg(tuple((rest, True, i) if b2 is b and g2 is g else (b2, g2, i) for b2, g2, i in cases), seg.order)
            for l in step(s, subst(s, its, mp)):
                if l.kind in ('panic', 'return'):
                    out.append(l)
                elif l.kind != 'cut':
                    raise Unsupported('a loop body that leaves the loop')
                else:
                    out += self.loop1(l.st, tail, step, dead, skip)
        return out

    def loop1(self, st, seg, step, dead, skip):
        cases = seg.live()

        def effects(base, marks):
            """-> per case: list of (leaf, guard, {place: suffix}, {place: value})"""
            res, panics = [], []
            for b, g, its in cases:
                s = base.fork()
                for cell, path in marks:
                    v = self.load_path(s.mem[cell], path)
                    self.store(s, Ref(cell, path), Agg(v.ty, v.var, v.fs + (MARK,), v.names))
                s.pc.append(self.cnt(b, g) >= 1)
                if g is not True:
                    s.pc.append(g)
                n0 = len(s.pc)
                if not self.feasible(s):
                    continue
                ref0 = s.fork()
                ls = step(s, its)
                cuts = [l for l in ls if l.kind == 'cut']
                for l in ls:
                    if l.kind in ('panic', 'return'):
                        panics.append(l)
                    elif l.kind != 'cut':
                        raise Unsupported('a loop body that leaves the loop')
                one = len(cuts) == 1
                cs = []
                texts = None
                if not one and any(learned(ref0, l.st) for l in cuts):
                    # the paths differ in what they learned about a text: a selector, one of its values per path
                    if any(k[0] == id(b) for k in self.peels):
                        raise Unsupported('a text is inspected')
                    texts = z3.Int(fresh('text'))
                    b.vars += (texts,)
                    fact = z3.And(texts >= 0, texts < len(cuts))
                    b.facts += (fact,)
                    self.axioms.append(fact)
                    self.texts[texts.decl().name()] = [l.st for l in cuts]
                w = self.watched(ref0, dead)
                for l in cuts:
                    add = [c for c in l.st.pc[n0:] if z3.is_expr(c)]
                    acc, sets = {}, {}
                    for c in w:
                        self.diff(ref0.mem.get(c), l.st.mem.get(c), c, (), acc, sets, skip)
                    gg = g if one else conj(g, *add)
                    if texts is not None:
                        gg = conj(g, texts == len(cs), *[c for c in add if not any(n.startswith('len_') for n in consts_of(c))])
                    cs.append((l, gg, acc, sets, add if one else []))
                res.append(((b, g, its), cs))
            return res, panics

        res, panics = effects(st, ())
        marks = sorted({p for _, cs in res for _, _, acc, _, _ in cs for p in acc})
        if marks:
            res, panics = effects(st, marks)
        places = {}
        for _, cs in res:
            for l, g, acc, sets, add in cs:
                if any(p not in marks for p in acc):
                    raise Carried('accumulators of a loop')
                for p, v in sets.items():
                    if p in places and not same(places[p], v):
                        raise Carried('a loop that carries more than accumulators')
                    places[p] = v
        for _, cs in res:
            for l, g, acc, sets, add in cs:
                if set(sets) != set(places):
                    raise Carried('a loop that carries more than accumulators')
        gen = {v.decl().name() for b, g, its in cases for v in b.vars}
        out = [self.left(l, res, marks, seg) for l in panics]
        if not places:
            e = st.fork()
            self.finish_exit(e, st, res, marks, lambda cell, path: [Seg(self.contrib(res, (cell, path)), seg.order)])
            return out + ([Leaf(e, 'exit', None)] if self.feasible(e) else [])
        for p, v in places.items():
            if mentions(st, v, gen) or reaches(st, v, special):
                raise Carried('a loop that carries an element')
        # no element at all
        e0 = self.assuming(st, conj(*[self.cnt(b, g) == 0 for b, g, _ in cases]))
        if e0 is not None:
            out.append(Leaf(e0, 'exit', None))
        # from the second element on
        st1 = st.fork()
        for (cell, path), v in places.items():
            self.store(st1, Ref(cell, path), v)
        res1, panics1 = effects(st1, marks)
        out += [self.left(l, res1, marks, seg) for l in panics1]
        for _, cs in res1:
            for l, g, acc, sets, add in cs:
                if any(not same(places.get(p), v) for p, v in sets.items()) or any(p not in marks for p in acc):
                    raise Carried('a loop that carries more than accumulators')
        for (b, g0, its), cs in res:
            for l, g, acc, sets, add in cs:
                e = self.assuming(st, self.cnt(b, g) >= 1)
                if e is None:
                    continue
                for c, v in l.st.mem.items():
                    if c not in e.mem:
                        e.mem[c] = v
                mp, rest = self.peel(e, b, g)
                for p in marks:
                    v = self.load_path(e.mem[p[0]], p[1])
                    self.store(e, Ref(*p), Agg(v.ty, v.var, v.fs + subst(e, acc.get(p, ()), mp), v.names))
                for (cell, path), v in places.items():
                    self.store(e, Ref(cell, path), v)

                def tail(cell, path, b=b, g=g, rest=rest):
                    cc = []
                    for bb_, gg, suf in self.contrib(res1, (cell, path)):
                        if bb_ is b:
                            if same(gg, g):
                                cc.append((rest, True, suf)); continue
                            if g is True:
                                cc.append((rest, gg, suf)); continue
                        cc.append((bb_, gg, suf))
                    return [Seg(cc, seg.order)]
                self.finish_exit(e, st, res1, marks, tail)
                if self.feasible(e):
                    out.append(Leaf(e, 'exit', None))
        return out

    def left(self, l, res, marks, seg):
        """a path out of the loop at some element: what the elements before it added is unknown"""
        if l.kind != 'return':
            return l
        mark = lambda v: isinstance(v, Mark)
        for cell, path in marks:
            v = self.load_path(l.st.mem[cell], path)
            if v.ty == 'Trace':
                fs = []
                for x in v.fs:
                    fs += [Seg(self.contrib(res, (cell, path)), seg.order)] if mark(x) else [x]
                self.store(l.st, Ref(cell, path), Agg(v.ty, v.var, tuple(fs), v.names))
            else:
                self.store(l.st, Ref(cell, path), Opaque(('left behind',)))
        if reaches(l.st, l.val, lambda v: mark(v) or isinstance(v, Opaque) and v.tag == ('left behind',)):
            raise Unsupported('a loop body that leaves the loop with what it has gathered')
        return l

    @staticmethod
    def contrib(res, place):
        out = []
        for (b, g0, its), cs in res:
            for l, g, acc, sets, add in cs:
                out.append((b, g, acc.get(place, ())))
        return out

    def finish_exit(self, e, st, res, marks, tail):
        for (b, g0, its), cs in res:
            for l, g, acc, sets, add in cs:
                for c, v in l.st.mem.items():
                    if c not in st.mem and c not in e.mem:
                        e.mem[c] = v
                for x in add:
                    if not any(z3.eq(x, y) for y in e.pc if z3.is_expr(y)):
                        e.pc.append(z3.Implies(self.cnt(b, g0) >= 1, x))
            if len(cs) != 1:
                e.pc.append(self.cnt(b, g0) == sum([self.cnt(b, c[1]) for c in cs], z3.IntVal(0)))
        for cell, path in marks:
            v = self.load_path(e.mem[cell], path)
            self.store(e, Ref(cell, path), Agg(v.ty, v.var, v.fs + tuple(s for s in tail(cell, path) if s.live()), v.names))

    def diff(self, a, b, cell, path, acc, sets, skip):
        if skip is not None and cell == skip.cell and path == skip.path:
            return
        if same(a, b):
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var:
            if a.ty in ('Vec', 'TokenStream', 'Trace'):
                if len(b.fs) > len(a.fs) and same(b.fs[:len(a.fs)], a.fs):
                    acc[(cell, path)] = b.fs[len(a.fs):]
                    return
            elif len(a.fs) == len(b.fs) and a.ty not in ('Iter', 'BTreeMap'):
                for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                    self.diff(x, y, cell, path + (i,), acc, sets, skip)
                return
        sets[(cell, path)] = b

    # ---- element-wise functions ----------------------------------------------------------
    def each(self, st, seg, f):
        """f(state, item) -> list of (state, [items] | panic leaf) for every element, without other effects; -> list of (state, Seg) | leaf"""
        cell = st.new(Agg('Vec', None, ()))

        def step(s, its):
            work = [s]
            leaves = []
            for x in its:
                if special(x):
                    raise Unsupported('nested list')
                nw = []
                for s1 in work:
                    for s2, r in f(s1, x):
                        if isinstance(r, Leaf):
                            leaves.append(r); continue
                        v = s2.mem[cell]
                        s2.mem[cell] = Agg('Vec', None, v.fs + tuple(r))
                        nw.append(s2)
                work = nw
            return leaves + [Leaf(s1, 'cut', None) for s1 in work]
        out = []
        for l in self.loop(st, seg, step, set(), None):
            if l.kind != 'exit':
                out.append((l.st, l))
            else:
                out.append((l.st, list(l.st.mem[cell].fs)))
        return out


def drive(ex, st, it):
    """all items of an iterator: list of (state, [items]) or (state, panic leaf)"""
    it = ex.deep(st, it)
    if it.ty == 'Iter':
        return [(st, list(it.fs[0]))]
    if it.ty == 'ChainIter':
        out = []
        for s, a in drive(ex, st, it.fs[0]):
            if isinstance(a, Leaf):
                out.append((s, a)); continue
            for s2, b in drive(ex, s, it.fs[1]):
                out.append((s2, b if isinstance(b, Leaf) else a + b))
        return out
    if it.ty not in ('ClonedIter', 'FilterIter', 'MapIter', 'FilterMapIter', 'EnumIter'):
        raise Unsupported('iteration over %s' % it.ty)
    out = []

    def one(s, x):
        if it.ty == 'ClonedIter':
            return [(s, [ex.load(s, x)])]
        r = []
        if it.ty == 'FilterIter':
            for l in ex.call_value(s, it.fs[1], [Ref(s.new(x))]):
                if l.kind != 'return':
                    r.append((l.st, l)); continue
                a, b = ex.branch(l.st, l.val)
                if a is not None: r.append((a, [x]))
                if b is not None: r.append((b, []))
            return r
        for l in ex.call_value(s, it.fs[1], [x]):
            if l.kind != 'return':
                r.append((l.st, l))
            elif it.ty == 'FilterMapIter':
                r.append((l.st, [l.val.fs[0]] if l.val.var == 'Some' else []))
            else:
                r.append((l.st, [l.val]))
        return r
    for s, items in drive(ex, st, it.fs[0]):
        if isinstance(items, Leaf):
            out.append((s, items)); continue
        if it.ty == 'EnumIter':
            out += enumerated(ex, s, tuple(items)); continue
        work = [(s, [])]
        for x in items:
            nw = []
            for s2, acc in work:
                if isinstance(acc, Leaf):
                    nw.append((s2, acc)); continue
                if isinstance(x, Seg):
                    rs = ex.each(s2, x, one)
                elif special(x):
                    raise Unsupported('an accumulator is inspected')
                else:
                    rs = one(s2, x)
                nw += [(s3, r if isinstance(r, Leaf) else acc + r) for s3, r in rs]
            work = nw
            if len(work) > 3000:
                raise Unsupported('too many iterator paths')
        out += work
    return out


def enumerated(ex, st, items):
    """items with their positions"""
    acc = []
    for i, x in enumerate(items):
        if not special(x):
            acc.append(Agg('tuple', None, (i, x))); continue
        if not isinstance(x, Seg) or i + 1 != len(items) or any(len(its) > 1 or any(special(y) for y in its) for _, _, its in x.cases):
            raise Unsupported('enumeration of a list of unknown length')
        out = []
        for s, y, rest in ex.first_of(st, (x,)):
            if y is None:
                out.append((s, list(acc))); continue
            seg = rest[0]
            cc = []
            for b, g, its in seg.cases:
                if b.parent is None or g is not True:
                    if ex.entails(s, ex.cnt(b, g) == 0):
                        continue
                    raise Unsupported('enumeration of a list of several kinds')
                if any(k[0] == id(b) for k in ex.peels):
                    raise Unsupported('enumeration of a list twice')
                pos = z3.Int(fresh('pos'))
                b.vars += (pos,)
                b.facts += (pos >= i + 1,)
                ex.axioms.append(pos >= i + 1)
                cc.append((b, g, tuple(Agg('tuple', None, (pos, z)) for z in its)))
            out.append((s, acc + [Agg('tuple', None, (i, y)), Seg(cc, x.order)]))
        return out
    return [(st, acc)]


# ---- contracts -----------------------------------------------------------------------------------------
TABLE = {}


def contract(*keys):
    def deco(f):
        for k in keys:
            TABLE[k] = f
        return f
    return deco


def TS(items=()):
    return Agg('TokenStream', None, tuple(items))


def seq_at(ex, st, v):
    """-> (Ref, Agg) of the sequence behind references"""
    r = v
    while isinstance(r, Ref):
        x = ex.load(st, r)
        if isinstance(x, Agg) and x.ty in SEQ:
            return r, x
        r = x
    if isinstance(r, Agg) and r.ty in SEQ:
        return None, r
    return None, None


def ref_items(ex, st, r, seq):
    if not any(special(x) for x in seq.fs):
        return tuple(Ref(r.cell, r.path + (i,)) for i in range(len(seq.fs)))
    out = []
    for i, x in enumerate(seq.fs):
        if isinstance(x, Seg):
            out.append(Seg(((b, g, tuple(Ref(st.new(y)) for y in its)) for b, g, its in x.cases), x.order))
        elif special(x):
            out.append(x)
        else:
            out.append(Ref(r.cell, r.path + (i,)))
    return tuple(out)


@contract('slice::iter', 'Vec::iter', 'BTreeMap::iter')
def _(ex, st, c, v):
    r, seq = seq_at(ex, st, v[0])
    if seq is None or r is None:
        return None
    if seq.ty == 'BTreeMap':
        return ret(st, Agg('Iter', None, (map_ref_items(st, seq),)))
    return ret(st, Agg('Iter', None, (ref_items(ex, st, r, seq),)))


def map_ref_items(st, m):
    def pair(e):
        return Agg('tuple', None, (Ref(st.new(e.fs[0])), Ref(st.new(e.fs[1]))))
    return tuple(Seg(((b, g, tuple(pair(y) for y in its)) for b, g, its in x.cases), x.order) if isinstance(x, Seg) else pair(x) for x in m.fs)


@contract('IntoIterator::into_iter')
def _(ex, st, c, v):
    x = v[0]
    if is_iter(x) or isinstance(x, Agg) and x.ty == 'StrSplit':
        return ret(st, x)
    if isinstance(x, Agg) and x.ty in ('Vec', 'array', 'BTreeMap', 'TokenStream'):
        return ret(st, Agg('Iter', None, (tuple(x.fs),)))
    if isinstance(x, Ref):
        r, seq = seq_at(ex, st, x)
        if seq is None:
            return None
        if seq.ty == 'BTreeMap':
            return ret(st, Agg('Iter', None, (map_ref_items(st, seq),)))
        return ret(st, Agg('Iter', None, (ref_items(ex, st, r, seq),)))
    return None


@contract('RepAsIteratorExt::quote_into_iter')
def _(ex, st, c, v):
    r, seq = seq_at(ex, st, v[0])
    if seq is None or r is None:
        raise Unsupported('quote repetition')
    return ret(st, Agg('tuple', None, (Agg('Iter', None, (ref_items(ex, st, r, seq),)), Agg('HasIterator', None, ()))))


@contract('RepIteratorExt::quote_into_iter')
def _(ex, st, c, v):
    return ret(st, Agg('tuple', None, (v[0], Agg('HasIterator', None, ()))))


@contract('RepToTokensExt::quote_into_iter')
def _(ex, st, c, v):
    return ret(st, Agg('tuple', None, (v[0], Agg('HasIterator', None, ()))))


@contract('BitOr::bitor')
def _(ex, st, c, v):
    if 'HasIterator' in c.callee:
        return ret(st, Agg('HasIterator', None, ()))
    return None


@contract('CheckHasIterator::check')
def _(ex, st, c, v):
    return ret(st, UNIT)


@contract('Iterator::next')
def _(ex, st, c, v):
    r = v[0]
    while isinstance(ex.load(st, r), Ref):
        r = ex.load(st, r)
    it = ex.load(st, r)
    if not reaches(st, it, special):
        return None
    out = []
    for s, items in drive(ex, st, it):
        if isinstance(items, Leaf):
            out.append(items); continue
        for s2, x, rest in ex.first_of(s, tuple(items)):
            ex.store(s2, r, Agg('Iter', None, (rest,)))
            out += ret(s2, NONE if x is None else some(x))
    return out


@contract('Iterator::chain')
def _(ex, st, c, v):
    b = v[1]
    if isinstance(b, Agg) and b.ty in ('Vec', 'array'):
        b = Agg('Iter', None, (tuple(b.fs),))
    elif isinstance(b, Ref):
        r, seq = seq_at(ex, st, b)
        if seq is None:
            raise Unsupported('chain')
        b = Agg('Iter', None, (ref_items(ex, st, r, seq),))
    return ret(st, Agg('ChainIter', None, (v[0], b)))


def is_iter(x):
    return isinstance(x, Agg) and x.ty in ('Iter', 'MapIter', 'FilterIter', 'FilterMapIter', 'ClonedIter', 'EnumIter', 'ChainIter')


def items_of(ex, st, v):
    """the items of an iterable value: list of (state, items | leaf)"""
    x = v
    if isinstance(x, Ref):
        y = ex.deep(st, x)
        if is_iter(y):
            return drive(ex, st, y)
        r, seq = seq_at(ex, st, x)
        if seq is None or r is None:
            raise Unsupported('iteration over %r' % (x,))
        return [(st, list(ref_items(ex, st, r, seq)))]
    if is_iter(x):
        return drive(ex, st, x)
    if isinstance(x, Agg) and x.ty in ('Vec', 'array', 'TokenStream'):
        return [(st, list(x.fs))]
    if isinstance(x, Agg) and x.ty == 'Option':
        return [(st, list(x.fs))]
    raise Unsupported('iteration over %r' % (x,))


@contract('Iterator::collect')
def _(ex, st, c, v):
    ty = c.dty if c.dty != '?' else c.margs[0]
    b = base_ty(ty)
    if is_iter(v[0]) and b in ('Result', 'Option') and base_ty(stdc.generic_args(ty)[0]) == 'Vec':
        return collect_fallible(ex, st, v[0], dict(Result='Ok', Option='Some')[b])
    if not is_iter(v[0]) or b not in ('Vec', 'TokenStream'):
        return None
    out = []
    for s, items in drive(ex, st, v[0]):
        if isinstance(items, Leaf):
            out.append(items)
        elif b == 'Vec':
            out += ret(s, Agg('Vec', None, items))
        else:
            out += ret(s, TS(flatten(ex, s, items)))
    return out


def collect_fallible(ex, st, it, good):
    """all payloads, if every item is Ok / Some; else the first that is not"""
    out = []
    for s, items in drive(ex, st, it):
        if isinstance(items, Leaf):
            out.append(items); continue
        acc, live = [], s
        for x in items:
            if not isinstance(x, Seg):
                if special(x) or not isinstance(x, Agg) or x.ty not in ('Result', 'Option'):
                    raise Unsupported('collect')
                if x.var != good:
                    out.append(Leaf(live, 'return', x)); live = None
                    break
                acc.append(x.fs[0])
                continue
            ok, bad = [], []
            for b, g, its in x.live():
                if len(its) != 1 or not isinstance(its[0], Agg) or its[0].ty not in ('Result', 'Option'):
                    raise Unsupported('collect')
                (ok if its[0].var == good else bad).append((b, g, its[0]))
            for b, g, y in bad:
                if any(isinstance(z, Agg) for z in y.fs):
                    raise Unsupported('an error that carries data')
                f = ex.assuming(live, ex.cnt(b, g) >= 1)
                if f is not None:
                    out.append(Leaf(f, 'return', y))
            live = ex.assuming(live, conj(*[ex.cnt(b, g) == 0 for b, g, _ in bad])) if bad else live
            if live is None:
                break
            acc.append(Seg([(b, g, (y.fs[0],)) for b, g, y in ok], x.order))
        if live is not None:
            out += ret(live, Agg(dict(Ok='Result', Some='Option')[good], good, (Agg('Vec', None, acc),)))
    return out


def flatten(ex, st, items):
    out = []
    for x in items:
        if isinstance(x, Seg):
            out.append(Seg(((b, g, tuple(flatten(ex, st, its))) for b, g, its in x.cases), x.order))
        elif special(x):
            out.append(x)
        else:
            out += tokens_of(ex, st, x, '?')
    return out


@contract('Extend::extend')
def _(ex, st, c, v):
    x = ex.load(st, v[0])
    if not isinstance(x, Agg) or x.ty not in ('Vec', 'TokenStream'):
        return None
    out = []
    for s, items in items_of(ex, st, v[1]):
        if isinstance(items, Leaf):
            out.append(items); continue
        if x.ty == 'TokenStream':
            items = flatten(ex, s, items)
        ex.store(s, v[0], Agg(x.ty, None, x.fs + tuple(items)))
        out += ret(s, UNIT)
    return out


@contract('Vec::append')
def _(ex, st, c, v):
    a, b = ex.load(st, v[0]), ex.load(st, v[1])
    ex.store(st, v[0], Agg('Vec', None, a.fs + b.fs))
    ex.store(st, v[1], Agg('Vec', None, ()))
    return ret(st, UNIT)


@contract('Vec::extend_from_slice')
def _(ex, st, c, v):
    a = ex.load(st, v[0])
    r, b = seq_at(ex, st, v[1])
    if b is None:
        return None
    ex.store(st, v[0], Agg('Vec', None, a.fs + b.fs))
    return ret(st, UNIT)


@contract('slice::into_vec', 'slice::to_vec')
def _(ex, st, c, v):
    x = v[0]
    if isinstance(x, Agg) and x.ty == 'Box':
        x = x.fs[0]
    r, b = seq_at(ex, st, x)
    if b is None:
        return None
    return ret(st, Agg('Vec', None, b.fs))


@contract('Vec::len', 'slice::len', 'BTreeMap::len')
def _(ex, st, c, v):
    r, x = seq_at(ex, st, v[0])
    return None if x is None else ret(st, ex.total(st, x.fs))


@contract('Vec::is_empty', 'slice::is_empty', 'BTreeMap::is_empty', 'TokenStream::is_empty')
def _(ex, st, c, v):
    r, x = seq_at(ex, st, v[0])
    if x is None:
        return None
    n = ex.total(st, x.fs)
    return ret(st, n == 0)


def at_first(ex, st, v, k):
    r, x = seq_at(ex, st, v)
    if x is None or not any(special(y) for y in x.fs):
        return None
    items = ref_items(ex, st, r, x)
    if k == 'last':
        items = tuple(reversed(items))
        k = 0
    if not isinstance(k, int) or k > 3:
        raise Unsupported('index into a list of unknown length')
    work = [(st, None, items)]
    for _ in range(k + 1):
        nw = []
        for s, y, rest in work:
            nw += ex.first_of(s, rest)
        work = nw
    return [(s, y) for s, y, _ in work]


@contract('Index::index')
def _(ex, st, c, v):
    r, x = seq_at(ex, st, v[0])
    if x is None:
        return None
    if isinstance(v[1], int):
        rs = at_first(ex, st, v[0], v[1])
        if rs is None:
            return None
        return [Leaf(s, 'panic', 'index out of bounds') if y is None else Leaf(s, 'return', y) for s, y in rs]
    return None


@contract('slice::first', 'slice::get')
def _(ex, st, c, v):
    rs = at_first(ex, st, v[0], 0 if c.method == 'first' else v[1])
    if rs is None:
        r, x = seq_at(ex, st, v[0])
        if c.method == 'first' and x is not None and r is not None:
            return ret(st, some(Ref(r.cell, r.path + (0,))) if x.fs else NONE)
        return None
    return [Leaf(s, 'return', NONE if y is None else some(y)) for s, y in rs]


@contract('slice::split_first', 'slice::split_last')
def _(ex, st, c, v):
    r, x = seq_at(ex, st, v[0])
    if x is None or r is None:
        return None
    last = c.method == 'split_last'
    items = ref_items(ex, st, r, x)
    if last and any(special(y) for y in items):
        raise Unsupported('split_last')

    def val(s, y):
        if isinstance(y, Seg):
            return Seg(tuple((b, g, tuple(val(s, z) for z in its)) for b, g, its in y.cases), y.order)
        return ex.load(s, y) if isinstance(y, Ref) else y
    out = []
    for s, y, rest in ex.first_of(st, tuple(reversed(items)) if last else tuple(items)):
        if y is None:
            out += ret(s, NONE); continue
        rest = tuple(reversed(rest)) if last else rest
        out += ret(s, some(Agg('tuple', None, (y, Ref(s.new(Agg('array', None, tuple(val(s, z) for z in rest))))))))
    return out


@contract('Iterator::for_each')
def _(ex, st, c, v):
    out = []
    for s, items in items_of(ex, st, v[0]):
        if isinstance(items, Leaf):
            out.append(items); continue
        fcell = s.new(v[1])
        out += run_over(ex, s, items, lambda s1, x: ex.call_value(s1, Ref(fcell), [x]), UNIT)
    return out


def folded(ex, st, items, init, fun):
    acc = st.new(init)

    def f(s1, x):
        r = []
        for l in ex.call_value(s1, fun, [s1.mem[acc], x]):
            if l.kind == 'return':
                l.st.mem[acc] = l.val
            r.append(l)
        return r
    return [Leaf(l.st, 'return', l.st.mem[acc]) if l.kind == 'return' else l for l in run_over(ex, st, items, f, UNIT)]


@contract('Iterator::fold')
def _(ex, st, c, v):
    out = []
    for s, items in items_of(ex, st, v[0]):
        if isinstance(items, Leaf):
            out.append(items); continue
        out += folded(ex, s, items, v[1], v[2])
    return out


@contract('Iterator::reduce')
def _(ex, st, c, v):
    out = []
    for s, items in items_of(ex, st, v[0]):
        if isinstance(items, Leaf):
            out.append(items); continue
        for s2, x, rest in ex.first_of(s, tuple(items)):
            if x is None:
                out += ret(s2, NONE); continue
            out += [Leaf(l.st, 'return', some(l.val)) if l.kind == 'return' else l for l in folded(ex, s2, rest, x, v[1])]
    return out


@contract('IdentFragmentAdapter::span')
def _(ex, st, c, v):
    return ret(st, NONE)


@contract('__private::mk_ident')
def _(ex, st, c, v):
    return ret(st, Agg('Ident', None, (word(text(ex, st, v[0])),)))


@contract('ToString::to_string')
def _(ex, st, c, v):
    x = ex.deep(st, v[0])
    if isinstance(x, Agg) and x.ty == 'TokenStream':
        return ret(st, Agg('CodeText', None, (x,)))
    if isinstance(x, Agg) and x.ty == 'IdentFragmentAdapter':
        s = stdc.as_str(ex, st, ex.deep(st, x.fs[0]))
        if s is not None:
            return ret(st, Agg('String', None, (s,)))
    return None


def run_over(ex, st, items, f, val):
    """f for every item, with effects"""
    work, out = [st], []
    for x in items:
        nw = []
        for s in work:
            if isinstance(x, Seg):
                def step(s0, its):
                    w, leaves = [s0], []
                    for y in its:
                        n2 = []
                        for s1 in w:
                            for l in f(s1, y):
                                if l.kind == 'return':
                                    n2.append(l.st)
                                else:
                                    leaves.append(l)
                        w = n2
                    return leaves + [Leaf(s1, 'cut', None) for s1 in w]
                for l in ex.loop(s, x, step, set(), None):
                    if l.kind == 'exit':
                        nw.append(l.st)
                    else:
                        out.append(l)
            elif special(x):
                raise Unsupported('an accumulator is inspected')
            else:
                for l in f(s, x):
                    if l.kind == 'return':
                        nw.append(l.st)
                    else:
                        out.append(l)
        work = nw
    return out + [Leaf(s, 'return', val) for s in work]


# ---- maps, sorting, locale identifiers -------------------------------------------------------------------
def v0_is(ex, st, vals, ty):
    if not vals:
        return False
    x = vals[0]
    while isinstance(x, Ref):
        x = ex.load(st, x)
    return isinstance(x, Agg) and x.ty == ty


def string(*ps):
    return Agg('String', None, (Str(ps),))


def rule_map(ex, st, v):
    """the rules of one locale: any subset of the named entries; -> list of (state, value) with the entries known"""
    r, x = None, v
    while isinstance(x, Ref):
        r, x = x, ex.load(st, x)
    out = [(st.fork(), ())]
    for name, p, val in x.fs:
        nw = []
        for s, es in out:
            a, b = ex.branch(s, p)
            if a is not None:
                nw.append((a, es + (Agg('tuple', None, (string(name), val)),)))
            if b is not None:
                nw.append((b, es))
        out = nw
    res = []
    for s, es in out:
        m = Agg('BTreeMap', None, sorted(es, key=lambda e: e.fs[0].fs[0].ps))
        if r is not None:
            ex.store(s, r, m)
        res.append((s, v if r is not None else m))
    return res


def lit_key(ex, st, v):
    s = stdc.as_str(ex, st, ex.deep(st, v))
    if s is None or any(not isinstance(p, bytes) for p in st.norm(s.ps)):
        raise Unsupported('key of a map')
    return b''.join(st.norm(s.ps))


def map_find(ex, st, v, key):
    r, m = seq_at(ex, st, v)
    if m is None or m.ty != 'BTreeMap' or r is None or any(special(x) for x in m.fs):
        raise Unsupported('map')
    k = lit_key(ex, st, key)
    ks = [lit_key(ex, st, e.fs[0]) for e in m.fs]
    return r, m, k, ks


@contract('BTreeMap::new')
def _(ex, st, c, v): return ret(st, Agg('BTreeMap', None, ()))


@contract('BTreeMap::contains_key')
def _(ex, st, c, v):
    r, m, k, ks = map_find(ex, st, v[0], v[1])
    return ret(st, k in ks)


@contract('BTreeMap::get', 'BTreeMap::get_mut')
def _(ex, st, c, v):
    r, m, k, ks = map_find(ex, st, v[0], v[1])
    return ret(st, some(Ref(r.cell, r.path + (ks.index(k), 1))) if k in ks else NONE)


@contract('BTreeMap::insert')
def _(ex, st, c, v):
    r, m, k, ks = map_find(ex, st, v[0], v[1])
    fs = list(m.fs)
    if k in ks:
        j = ks.index(k)
        old = fs[j].fs[1]
        fs[j] = Agg('tuple', None, (fs[j].fs[0], v[2]))
        ex.store(st, r, Agg('BTreeMap', None, fs))
        return ret(st, some(old))
    fs.append(Agg('tuple', None, (v[1], v[2])))
    fs.sort(key=lambda e: lit_key(ex, st, e.fs[0]))
    ex.store(st, r, Agg('BTreeMap', None, fs))
    return ret(st, NONE)


@contract('BTreeMap::entry')
def _(ex, st, c, v):
    r, m, k, ks = map_find(ex, st, v[0], v[1])
    ex.p.enums.setdefault('Entry', {'Vacant': 0, 'Occupied': 1})
    if ex.p.enums['Entry'] != {'Vacant': 0, 'Occupied': 1}:
        raise Unsupported('Entry')
    kind = 'Occupied' if k in ks else 'Vacant'
    return ret(st, Agg('Entry', kind, (Agg(kind + 'Entry', None, (v[0], v[1])),)))


@contract('VacantEntry::insert')
def _(ex, st, c, v):
    r, m, k, ks = map_find(ex, st, v[0].fs[0], v[0].fs[1])
    TABLE['BTreeMap::insert'](ex, st, c, [v[0].fs[0], v[0].fs[1], v[1]])
    m = ex.load(st, r)
    return ret(st, Ref(r.cell, r.path + ([lit_key(ex, st, e.fs[0]) for e in m.fs].index(k), 1)))


@contract('BTreeMap::remove')
def _(ex, st, c, v):
    r, m, k, ks = map_find(ex, st, v[0], v[1])
    if k not in ks:
        return ret(st, NONE)
    j = ks.index(k)
    ex.store(st, r, Agg('BTreeMap', None, m.fs[:j] + m.fs[j + 1:]))
    return ret(st, some(m.fs[j].fs[1]))


def sort_by(ex, st, v, compare):
    """compare(state, ref a, ref b) -> Ordering value; the result is a permutation in that order"""
    r, x = seq_at(ex, st, v)
    if x is None or r is None:
        raise Unsupported('sort')
    if not any(special(y) for y in x.fs):
        if len(x.fs) > 1:
            raise Unsupported('sort of a known list')
        return ret(st, UNIT)
    if len(x.fs) != 1 or not isinstance(x.fs[0], Seg) or any(len(i) > 1 for _, _, i in x.fs[0].cases):
        raise Unsupported('sort')
    seg = x.fs[0]
    orders = set()
    key = {}
    for b1, g1, i1 in seg.live():
        for b2, g2, i2 in seg.live():
            s = st.fork()
            mp = [(y, z3.Const(fresh(y.decl().name()), y.sort())) for y in b2.vars]
            j2 = subst(s, i2, mp)
            ls = compare(s, Ref(s.new(i1[0])), Ref(s.new(j2[0])))
            if len(ls) != 1 or ls[0].kind != 'return':
                raise Unsupported('comparator')
            o = ls[0].val
            flip = isinstance(o, Agg) and o.ty == 'Reversed'
            if flip:
                o = o.fs[0]
            if not isinstance(o, Opaque) or o.tag[0] != 'langcmp':
                raise Unsupported('comparator')
            a, b = o.data
            first, second = (a, b) if not mentions(st, a, {n.decl().name() for _, n in mp}) else (b, a)
            asc = (first is a) != flip
            key.setdefault((id(b1), str(g1)), first)
            if not same(second, subst(s, key.get((id(b2), str(g2)), second), mp)) or not same(first, key[(id(b1), str(g1))]):
                raise Unsupported('comparator')
            orders.add('asc' if asc else 'desc')
    if len(orders) > 1 or len({repr(k) for k in key.values()}) > 1:
        raise Unsupported('comparator')
    if orders:
        ex.store(st, r, Agg(x.ty, None, (Seg(seg.cases, (orders.pop(), list(key.values())[0])),)))
    return ret(st, UNIT)


@contract('slice::sort_by', 'slice::sort_unstable_by')
def _(ex, st, c, v):
    f = st.new(v[1])
    return sort_by(ex, st, v[0], lambda s, a, b: ex.call_value(s, Ref(f), [a, b]))


@contract('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _(ex, st, c, v):
    f = st.new(v[1])

    def compare(s, a, b):
        out = []
        for l in ex.call_value(s, Ref(f), [a]):
            for l2 in ex.call_value(l.st, Ref(f), [b]):
                out += lang_cmp(ex, l2.st, l.val, l2.val)
        return out
    return sort_by(ex, st, v[0], compare)


@contract('slice::sort', 'slice::sort_unstable')
def _(ex, st, c, v):
    def compare(s, a, b):
        x, y = ex.deep(s, a), ex.deep(s, b)
        if isinstance(x, Agg) and x.ty == 'tuple':
            x, y = x.fs[0], y.fs[0]                 # the keys are distinct: the rest of the tuple does not matter
        return lang_cmp(ex, s, x, y)
    return sort_by(ex, st, v[0], compare)


def lang_cmp(ex, st, a, b):
    a, b = ex.deep(st, a), ex.deep(st, b)
    if not (isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty == 'SymLang'):
        raise Unsupported('order of %r' % (a,))
    return ret(st, Opaque(('langcmp', repr(a), repr(b)), (a, b)))


@contract('Ord::cmp')
def _(ex, st, c, v):
    return lang_cmp(ex, st, v[0], v[1]) if v0_is(ex, st, v, 'SymLang') else None


@contract('Ordering::reverse')
def _(ex, st, c, v):
    return ret(st, Agg('Reversed', None, (v[0],))) if isinstance(v[0], Opaque) and v[0].tag[0] == 'langcmp' else None


@contract('LanguageIdentifier::into_raw_parts')
def _(ex, st, c, v):
    if not v0_is(ex, st, v, 'SymLang'):
        return None
    L, hs, S, hr, R = ex.deep(st, v[0]).fs[0].fs
    out = []
    a, b = ex.branch(st, hs)
    for s, scr in ((a, some(S)), (b, NONE)):
        if s is None:
            continue
        x, y = ex.branch(s, hr)
        for s2, reg in ((x, some(R)), (y, NONE)):
            if s2 is not None:
                out += ret(s2, Agg('tuple', None, (some(L), scr, reg, NONE)))
    return out


@contract('str::parse', 'FromStr::from_str')
def _(ex, st, c, v):
    ty = c.selfty if c.method == 'from_str' else (c.margs[0] if c.margs else '?')
    if base_ty(ty) == 'TokenStream':
        t = text(ex, st, v[0])
        if not isinstance(t, str) or not re.match(r'^[a-z_][a-z0-9_]*$', t):
            raise Unsupported('parse into tokens')
        return ret(st, stdc.ok(TS((word(t),))))
    if base_ty(ty) != 'LanguageIdentifier':
        return None
    s = stdc.as_str(ex, st, ex.deep(st, v[0]))
    if s is not None:
        for a, val in ex.known_texts:
            if st.norm((a,)) == st.norm(s.ps):
                return ret(st, stdc.ok(val))
    raise Unsupported('parse into ' + ty)


def eq_texts(ex, st, a, b):
    """equality of values holding texts that are known to be the same or different; None: no verdict"""
    a, b = ex.deep(st, a), ex.deep(st, b)
    x, y = stdc.as_str(ex, st, a), stdc.as_str(ex, st, b)
    if x is not None and y is not None:
        p, q = st.norm(x.ps), st.norm(y.ps)
        if len(p) == len(q) == 1 and isinstance(p[0], Atom) and isinstance(q[0], Atom) and p[0].id in ex.distinct and q[0].id in ex.distinct:
            return p[0].id == q[0].id
        return None
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty == 'Option':
        if a.var != b.var:
            return False
        return eq_texts(ex, st, a.fs[0], b.fs[0]) if a.fs else True
    return None


@contract('PartialEq::eq', 'PartialEq::ne')
def _(ex, st, c, v):
    if not ex.distinct:
        return None
    r = eq_texts(ex, st, v[0], v[1])
    return None if r is None else ret(st, r == (c.method == 'eq'))


# ---- token streams ---------------------------------------------------------------------------------------
PUNCT = dict(add='+', add_eq='+=', bang='!', colon=':', colon2='::', comma=',', div='/', div_eq='/=', dot='.', dot2='..', dot3='...',
             dot_dot_eq='..=', dot_dot='..', eq='=', eq_eq='==', ge='>=', gt='>', le='<=', lt='<', mul_eq='*=', ne='!=', pound='#',
             question='?', rarrow='->', larrow='<-', rem='%', rem_eq='%=', fat_arrow='=>', semi=';', shl='<<', shl_eq='<<=', shr='>>', shr_eq='>>=',
             star='*', sub='-', sub_eq='-=', at='@', caret='^', caret_eq='^=', tilde='~')
PUNCT.update({'and': '&', 'and_and': '&&', 'and_eq': '&=', 'or': '|', 'or_or': '||', 'or_eq': '|=', 'dollar': '$'})


def push(ex, st, r, toks):
    while isinstance(ex.load(st, r), Ref):
        r = ex.load(st, r)
    x = ex.load(st, r)
    if not isinstance(x, Agg) or x.ty != 'TokenStream':
        raise Unsupported('tokens pushed on %r' % (x,))
    ex.store(st, r, TS(x.fs + tuple(toks)))


def text(ex, st, v):
    s = stdc.as_str(ex, st, ex.deep(st, v))
    if s is None:
        raise Unsupported('text %r' % (v,))
    ps = st.norm(s.ps)
    if any(not isinstance(p, bytes) for p in ps):
        raise Unsupported('unknown text in a token')
    return b''.join(ps).decode()


def word(t):
    if not re.match(r'^(r#)?[A-Za-z_]\w*$', t):
        raise Unsupported('identifier %r' % t)
    return ('id', t)


@contract('__private::push_*')
def _(ex, st, c, v):
    k = c.method[5:]
    if k.endswith('_spanned'):
        k = k[:-8]
        v = [v[0]] + list(v[2:])
    if k == 'group':
        d = v[1]
        if not isinstance(d, Agg) or d.var not in DELIM:
            raise Unsupported('delimiter')
        push(ex, st, v[0], [('grp', DELIM[d.var], tuple(v[2].fs))])
    elif k == 'ident':
        t = text(ex, st, v[1])
        push(ex, st, v[0], [word(t)])
    elif k == 'underscore':
        push(ex, st, v[0], [('id', '_')])
    elif k == 'lifetime':
        push(ex, st, v[0], [('life', text(ex, st, v[1]))])
    elif k in PUNCT:
        push(ex, st, v[0], [('p', PUNCT[k])])
    else:
        raise Unsupported('no contract for `%s`' % c.callee)
    return ret(st, UNIT)


DELIM = {'Parenthesis': '(', 'Brace': '{', 'Bracket': '['}
LEXER = [None]


@contract('__private::parse', '__private::parse_spanned')
def _(ex, st, c, v):
    t = text(ex, st, v[-1])
    push(ex, st, v[0], LEXER[0](t))
    return ret(st, UNIT)


@contract('TokenStream::new')
def _(ex, st, c, v): return ret(st, TS())


@contract('Default::default')
def _(ex, st, c, v):
    return ret(st, TS()) if base_ty(c.dty) == 'TokenStream' else None


@contract('Ident::new')
def _(ex, st, c, v):
    return ret(st, Agg('Ident', None, (word(text(ex, st, v[0])),)))


@contract('Span::call_site', 'Span::mixed_site')
def _(ex, st, c, v): return ret(st, Agg('Span', None, ()))


for _t in sym.INT_RANGE:
    def _mk(t, suf):
        def f(ex, st, c, v):
            return ret(st, Agg('Literal', None, (('num', v[0], suf),)))
        return f
    TABLE['Literal::%s_unsuffixed' % _t] = _mk(_t, '')
    TABLE['Literal::%s_suffixed' % _t] = _mk(_t, _t)


def tokens_of(ex, st, v, ty):
    """the tokens a value is quoted as"""
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty)
    v = ex.deep(st, v)
    if isinstance(v, tuple) and v and v[0] in ('ex', 'p', 'id', 'num', 'str', 'grp', 'life', 'float'):
        return [v]
    if isinstance(v, Agg):
        if v.ty == 'TokenStream':
            return list(v.fs)
        if v.ty in ('Literal', 'Ident', 'Group', 'Punct'):
            return [v.fs[0]]
        if v.ty == 'RepInterp':
            m = re.match(r'.*RepInterp<(.*)>$', ty, re.S)
            return tokens_of(ex, st, v.fs[0], m.group(1) if m else '?')
        if v.ty == 'Option':
            return tokens_of(ex, st, v.fs[0], '?') if v.fs else []
        if v.ty == 'Box':
            return tokens_of(ex, st, v.fs[0], '?')
    if isinstance(v, bool):
        return [('id', 'true' if v else 'false')]
    if isinstance(v, int) or z3.is_int(v):
        if ty not in sym.INT_RANGE or ty == 'char':
            raise Unsupported('tokens of a %s' % ty)
        return [('num', v, ty)]
    if isinstance(v, Str):
        return [('str', '"%s"' % text(ex, st, v))]
    raise Unsupported('tokens of %r' % (v,))


@contract('ToTokens::to_tokens')
def _(ex, st, c, v):
    push(ex, st, v[1], tokens_of(ex, st, v[0], c.selfty or '?'))
    return ret(st, UNIT)


@contract('ToTokens::to_token_stream', 'ToTokens::into_token_stream')
def _(ex, st, c, v):
    return ret(st, TS(tokens_of(ex, st, v[0], c.selfty or '?')))


@contract('TokenStreamExt::append', 'TokenStreamExt::append_all', 'TokenStreamExt::append_separated', 'TokenStreamExt::append_terminated')
def _(ex, st, c, v):
    if c.method == 'append':
        push(ex, st, v[0], tokens_of(ex, st, v[1], '?'))
        return ret(st, UNIT)
    out = []
    for s, items in items_of(ex, st, v[1]):
        if isinstance(items, Leaf):
            out.append(items); continue
        if c.method == 'append_all':
            push(ex, s, v[0], flatten(ex, s, items))
            out += ret(s, UNIT)
            continue
        sep = tokens_of(ex, s, v[2], '?')

        def with_sep(its, before):
            r = []
            for x in its:
                if isinstance(x, Seg):
                    r.append(Seg(((b, g, tuple(with_sep(i, before))) for b, g, i in x.cases), x.order))
                else:
                    t = tokens_of(ex, s, x, '?')
                    r += sep + t if before else t + sep
            return r
        if c.method == 'append_terminated':
            push(ex, s, v[0], with_sep(items, False))
            out += ret(s, UNIT)
            continue
        for s2, x, rest in ex.first_of(s, tuple(items)):
            if x is not None:
                s = s2
                push(ex, s2, v[0], tokens_of(ex, s2, x, '?') + with_sep(rest, True))
            out += ret(s2, UNIT)
    return out


@contract('From::from')
def _(ex, st, c, v):
    if base_ty(c.selfty or '') == 'TokenStream' or base_ty(c.dty) == 'TokenStream':
        return ret(st, TS(tokens_of(ex, st, v[0], '?')))
    return None


@contract('Into::into')
def _(ex, st, c, v):
    if base_ty(c.dty) == 'TokenStream':
        return ret(st, TS(tokens_of(ex, st, v[0], '?')))
    return None
