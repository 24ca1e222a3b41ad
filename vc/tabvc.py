"""Contracts on the table-making half of make_pluralrules (C14, C15) and their proof from MIR.

  fn(&LanguageIdentifier) -> TokenStream                       the tokens are a key that decodes to the identifier
  fn(map locale -> rules) -> Vec<TokenStream>                  one entry per locale other than `root`, in ascending order of the
                                                               identifiers; key and chain of each entry as C14 states
  fn(&[String]) -> String                                      C15: the sequence automaton below; C14: version and tables of the output

A resource is a text whose meaning (serde_json, the derived Deserialize) is given by contract.  The data of a rule type is a list of
unknown length: at most one element `root`, and locales with a generic name (any language[-Script][-REGION]), generic identifier
and any subset of the six categories, each with a generic condition."""
import itertools
import z3
from mirvc import sym, tok, stdc, autom as A
from mirvc.mir import Unsupported
from mirvc.sym import Agg, Ref, State, Leaf, Str, Atom, Opaque, norm_ty, strip_ref
from mirvc.tok import Bag, Seg, special, string
from .genvc import Gen, Broken, readable, replace_seg, abstract, COND
from . import gen, gentab, rsx

CATS = ('zero', 'one', 'two', 'few', 'many')
ALL6 = CATS + ('other',)
_az, _AZ = A.rng('a', 'z'), A.rng('A', 'Z')
rep = lambda x, n: A.cat(*[x] * n)
_LANG = A.alt(rep(_az, 2), rep(_az, 3), rep(_az, 5), rep(_az, 6), rep(_az, 7), rep(_az, 8))
_SCRIPT = A.cat(A.ch(ord('-')), _AZ, rep(_az, 3))
_REGION = A.cat(A.ch(ord('-')), A.alt(rep(_AZ, 2), rep(A.DIGIT, 3)))
_UND = A.compile_re(A.cat(A.lit(b'und'), A.star(A.cat(A.ch(ord('-')), A.star(A.ANYB)))))
LOCALE = A.inter(A.compile_re(A.cat(_LANG, A.opt(_SCRIPT), A.opt(_REGION))), A.compl(_UND))


def hidden(L, hs, S, hr, R):
    return Agg('SymLang', None, (Agg('hidden', None, (L, hs, S, hr, R)),))


class Locale:
    """a generic locale and its rules"""

    def __init__(self, tag=''):
        I, B = z3.Int, z3.Bool
        self.L, self.S, self.R = I('lang' + tag), I('script' + tag), I('region' + tag)
        self.hs, self.hr = B('has_script' + tag), B('has_region' + tag)
        self.p = {c: B('has_%s%s' % (c, tag)) for c in ALL6}
        self.y = {c: I('cond_%s%s' % (c, tag)) for c in ALL6}
        self.vars = [self.L, self.S, self.R, self.hs, self.hr] + list(self.p.values()) + list(self.y.values())
        self.facts = [self.L >= 1, self.L < 2 ** 64, self.S >= 1, self.S < 2 ** 32, self.R >= 1, self.R < 2 ** 32]
        self.id = hidden(self.L, self.hs, self.S, self.hr, self.R)

    def rules(self, st, conds):
        """the map of rules; conds: atom -> condition"""
        es = []
        for c in ALL6:
            a = st.atom('text_' + c, A.UTF8)
            conds.append((a, Agg('Condition', None, (self.y[c],), ('__abstract',))))
            es.append((b'pluralRule-count-' + c.encode(), self.p[c], string(a)))
        return Agg('RuleMap', None, es)


def parse_condition(conds):
    """override: parse_plural_condition, on the texts of the resource"""
    def pred(callee, tys, dty):
        return sym.strip_generics(callee).split('::')[-1] == 'parse_plural_condition'

    def con(ex, st, callee, vals, tys, dty):
        s = stdc.as_str(ex, st, ex.deep(st, vals[0]))
        if s is None:
            return None
        for a, v in conds:
            if st.norm((a,)) == st.norm(s.ps):
                return [Leaf(st, 'return', stdc.ok(v))]
        raise Unsupported('condition text')
    con.__name__ = 'contract of parse_plural_condition (C10)'
    return (pred, con)


# ---- keys ------------------------------------------------------------------------------------------------
def key_parts(toks):
    """`langid!(..)` -> three arguments, or the identifier of a key given by contract"""
    if len(toks) == 1 and toks[0][0] == 'key':
        return toks[0][1]
    if not (len(toks) == 3 and toks[0] == ('id', 'langid') and toks[1] == ('p', '!') and toks[2][0] == 'grp'):
        raise rsx.NotRust('key ' + rsx.show(toks)[:80])
    ps = rsx.commas(toks[2][2])
    if len(ps) != 3:
        raise rsx.NotRust('key with %d parts' % len(ps))
    r = [rsx.subtag(ps[0], 'Language', False), rsx.subtag(ps[1], 'Script', True), rsx.subtag(ps[2], 'Region', True)]
    for t, suf in zip(r, (('', 'u64'), ('', 'u32'), ('', 'u32'))):
        if t is not None and t[2] not in suf:
            raise rsx.NotRust('raw subtag with suffix ' + t[2])
    return r


def key_goal(parts, loc):
    if isinstance(parts, Agg):
        return z3.BoolVal(bool(tok.same(parts, loc.id)))
    l, s, r = parts
    eq = lambda t, v: t[1] == v
    return z3.And(eq(l, loc.L) if l is not None else z3.BoolVal(False),
                  z3.And(loc.hs, eq(s, loc.S)) if s is not None else z3.Not(loc.hs),
                  z3.And(loc.hr, eq(r, loc.R)) if r is not None else z3.Not(loc.hr))


def prove_key(G, f):
    """fn(&LanguageIdentifier) -> TokenStream"""
    ck = G.ck
    ex = G.engine()
    loc = Locale()
    st = State()
    st.pc += loc.facts
    leaves = ex.run(f, [G.arg(f, st, loc.id)], st)
    G.done(ex)
    ck.functions.add(f.name)
    for n, l in enumerate(leaves):
        nm = '%s: path %d' % (f.name.split('::')[-1], n)
        prem = [c for c in l.st.pc if z3.is_expr(c)]
        if l.kind == 'unreachable':
            continue
        if l.kind != 'return':
            if ck.prove(nm + ' does not panic', prem, z3.BoolVal(False)) is not None:
                raise Broken('%s panics (%s)' % (f.name, l.val), [])
            continue
        try:
            goal = key_goal(key_parts(readable(ex, l.st, l.val.fs)), loc)
        except rsx.NotRust as e:
            raise Broken('%s: %s' % (f.name, e), [])
        m = ck.prove(nm + ': the key decodes to the identifier', prem, goal)
        if m is not None:
            raise Broken('%s: %s is not the key of the locale' % (f.name, rsx.show(readable(ex, l.st, l.val.fs))[:300]), [])


def key_contract(fns):
    names = {f.name for f in fns}

    def pred(callee, tys, dty):
        return sym.strip_generics(callee) in names or callee in names

    def con(ex, st, callee, vals, tys, dty):
        v = ex.deep(st, vals[0])
        if not (isinstance(v, Agg) and v.ty == 'SymLang'):
            return None
        return [Leaf(st, 'return', tok.TS([('key', v)]))]
    con.__name__ = 'contract of fn(&LanguageIdentifier) -> TokenStream'
    return (pred, con)


# ---- the table of one rule type --------------------------------------------------------------------------
MAPTY = 'BTreeMap<String,BTreeMap<String,String>>'


def squeeze(t):
    import re
    return re.sub(r'\s+', '', re.sub(r'\b(?:\w+::)+', '', t))


def by_types(G, args, ret):
    out = []
    for f in G.prog.fns:
        if f.kind == 'fn' and '{closure' not in f.name and len(f.args) == len(args) and squeeze(f.ret) == ret and \
                all(squeeze(strip_ref(a[1])) == w or squeeze(a[1]) == w for a, w in zip(f.args, args)):
            out.append(f)
    return out


def entry(toks):
    if len(toks) != 1 or toks[0][:2] != ('grp', '('):
        raise rsx.NotRust('table entry ' + rsx.show(toks)[:80])
    ps = rsx.commas(toks[0][2])
    if len(ps) != 2:
        raise rsx.NotRust('table entry with %d parts' % len(ps))
    k, c = ps
    if not (len(c) == 4 and c[0] == ('p', '|') and c[1] == ('id', 'po') and c[2] == ('p', '|') and c[3][:2] == ('grp', '{')):
        raise rsx.NotRust('rule ' + rsx.show(c)[:80])
    return key_parts(k), rsx.chain(c[3][2])


def chain_goal(ch, loc):
    """every category given is one whose rule is listed and holds; other only if none holds"""
    M = rsx.Meaning(gen.O, sem=lambda t: t)
    before, out = [], []
    holds = {c: z3.And(loc.p[c], COND(loc.y[c])) for c in CATS}
    for c, cat in ch:
        z = z3.BoolVal(True) if c is None else M.boolean(c)
        here = z3.And(z, *[z3.Not(b) for b in before])
        if cat not in ALL6:
            raise rsx.NotRust('category ' + cat)
        out.append(z3.Implies(here, holds[cat] if cat != 'other' else z3.Not(z3.Or(*holds.values()))))
        before.append(z)
    return z3.And(*out)


class Witness:
    """what a counterexample suggests: categories, shape of the name, text"""

    def __init__(self, loc, model=None, texts=()):
        self.texts = list(texts)
        self.cats = None
        self.hs = self.hr = None
        if model is not None:
            t = lambda b: z3.is_true(model.eval(b, model_completion=True))
            self.cats = [c for c in ALL6 if t(loc.p[c])]
            self.hs, self.hr = t(loc.hs), t(loc.hr)


def prove_table(G, f, keyf, condf):
    ck = G.ck
    conds = []
    cons = [parse_condition(conds), abstract(G, condf, lambda y: COND(y), 1, 'Condition')]
    if keyf:
        cons.append(key_contract(keyf))
    ex = G.engine(cons)
    loc, root = Locale(), Locale('_root')
    st = State()
    name = st.atom('locale', LOCALE)
    ex.known_texts.append((name, loc.id))
    B = ex.bag('locales', loc.vars, loc.facts)
    Z = ex.bag('root', root.vars)
    ex.axioms.append(Z.count <= 1)
    pair = lambda k, v: Agg('tuple', None, (k, v))
    m = Agg('BTreeMap', None, (Seg([(B, True, (pair(string(name), loc.rules(st, conds)),)), (Z, True, (pair(string(b'root'), root.rules(st, conds)),))],
                                   ('asc', 'text')),))
    ck.satisfiable('a resource with locales and root', ex.axioms + [c for c in st.pc if z3.is_expr(c)] + [B.count >= 2, Z.count == 1])
    leaves = ex.run(f, [G.arg(f, st, m)], st)
    G.done(ex)
    ck.functions.add(f.name)
    short = f.name.split('::')[-1]
    if not leaves:
        raise Unsupported('no path')

    def witness(model, guard=None):
        texts = []
        if model is not None:
            for n, sts in ex.texts.items():
                v = model.eval(z3.Int(n), model_completion=True).as_long()
                if 0 <= v < len(sts):
                    texts += words_of(sts[v], name)
        return Witness(loc, model, texts)
    for n, l in enumerate(leaves):
        nm = '%s: path %d' % (short, n)
        prem = ex.axioms + [c for c in l.st.pc if z3.is_expr(c)]
        if l.kind == 'unreachable':
            continue
        if l.kind != 'return':
            mm = ck.prove(nm + ' does not panic', prem, z3.BoolVal(False))
            if mm is not None:
                w = witness(mm)
                w.texts = words_of(l.st, name) + w.texts
                raise Broken('%s panics (%s)' % (f.name, l.val), [w])
            continue
        v = ex.deep(l.st, l.val)
        if not isinstance(v, Agg) or v.ty != 'Vec':
            raise Unsupported('result of ' + f.name)
        items = [x for x in v.fs if not (isinstance(x, Seg) and all(ex.entails(l.st, ex.cnt(b, g) == 0) for b, g, _ in x.live()))]
        if not items:
            mm = ck.prove(nm + ': empty only without locales', prem, B.count == 0)
            if mm is not None:
                raise Broken('%s: no entries' % f.name, [witness(None)])
            continue
        if len(items) != 1 or not isinstance(items[0], Seg):
            raise Unsupported('table is not one list')
        seg = items[0]
        mine = []
        for b, g, its in seg.live():
            if b is B:
                mine.append((g, its))
            elif ck.prove(nm + ': no entry for root', prem + ([] if g is True else [g]), ex.cnt(b, g) == 0) is not None:
                raise Broken('%s: entry for root' % f.name, [witness(None)])
        gs = [z3.BoolVal(True) if g is True else g for g, _ in mine]
        mm = ck.prove(nm + ': every locale has an entry', prem + list(B.facts), z3.Or(*gs))
        if mm is not None:
            raise Broken('%s: a locale without entry' % f.name, [witness(mm)])
        sel = z3.Int('which entry')
        mm = ck.prove(nm + ': no locale has two', prem + list(B.facts), z3.And(*[len(its) == 1 and z3.BoolVal(True) or z3.BoolVal(False) for _, its in mine] + [
            z3.Not(z3.And(gs[0], g)) for g in gs[1:]] + [z3.AtMost(*gs, 1) if len(gs) > 1 else z3.BoolVal(True)]))
        if mm is not None:
            raise Broken('%s: a locale with two entries' % f.name, [witness(mm)])
        if not (seg.order and seg.order[0] == 'asc' and tok.same(seg.order[1], loc.id)):
            raise Broken('%s: entries in order %s' % (f.name, seg.order and seg.order[0]), [witness(None)])
        ck.ok(nm + ': entries ascending by identifier')
        for k, (g, its) in enumerate(mine):
            pg = prem + list(B.facts) + ([] if g is True else [g])
            t = ex.deep(l.st, its[0])
            if not isinstance(t, Agg) or t.ty != 'TokenStream':
                raise Unsupported('entry %r' % (t,))
            toks = readable(ex, l.st, t.fs)
            try:
                kp, ch = entry(toks)
                goals = [('key', key_goal(kp, loc)), ('categories', chain_goal(ch, loc))]
            except rsx.NotRust as e:
                s = z3.Solver(); s.add(*pg)
                if s.check() == z3.unsat:
                    continue
                raise Broken('%s: entry %s: %s' % (f.name, rsx.show(toks)[:200], e), [witness(s.model())])
            for what, goal in goals:
                mm = ck.prove('%s, entry %d: %s' % (nm, k, what), pg, goal)
                if mm is not None:
                    raise Broken('%s: %s of entry %s' % (f.name, what, rsx.show(toks)[:300]), [witness(mm)])


def words_of(st, atom):
    try:
        d = st.dfa_of((atom,))
        ws = [w.decode() for w in A.words(d, 6, 16)]
        return [w for w in ws if w]
    except Exception:
        return []


# ---- replays for C14 -------------------------------------------------------------------------------------
def table_replays(ws, seed=1):
    """resources suggested by the witnesses -> cases for gentab.judge_table"""
    out = []
    base = [0]
    names0 = ['en', 'fil', 'abcde', 'abcdefgh', 'sr-Latn', 'pt-PT', 'es-419', 'zh-Hant-TW', 'aa', 'zz', 'zza-Zzzz-ZZ', 'en-Latn', 'en-US', 'sr-Cyrl', 'sr', 'pt']
    for w in ws:
        names = names0 + w.texts
        if w.hs is not None:
            shaped = ['qq' + ('-Latn' if w.hs else '') + ('-US' if w.hr else ''), 'qqabcdef' + ('-Zyyy' if w.hs else '') + ('-419' if w.hr else '')]
            names = shaped + names
        catsets = ([w.cats] if w.cats is not None else []) + [['one'], ['zero', 'two'], list(ALL6), [], ['few', 'many', 'other']]
        for ver in ('37', '1', '40'):
            for cs in catsets:
                for t in ('cardinal', 'ordinal'):
                    js, want = {'root': gen.rules(other='')}, {}
                    for l in dict.fromkeys(names):
                        d, wd = {}, {}
                        for c in cs:
                            if c == 'other':
                                d[c] = ''
                                continue
                            txt, rel = gentab.marker(base[0]); base[0] += 1
                            d[c], wd[c] = txt, rel
                        js[l] = gen.rules(**d)
                        want[l] = wd
                    out.append(([gen.resource(ver, **{t: js})], ver, {t: want}))
    return out


# ---- sequences of resources (C15) and the whole output (C14) -----------------------------------------------
class Refused(Exception):
    pass


NOMODE = (False, None, None)                   # (a version was seen, cardinal data, ordinal data)


def spec_step(mode, kind):
    """mode after a further resource, or None: the input is inconsistent"""
    if kind == 'bad':
        return None
    v, c, o = kind
    seen, mc, mo = mode
    if v != 'V' or c and mc or o and mo:
        return None
    return (True, (kind, 'cardinal') if c else mc, (kind, 'ordinal') if o else mo)


def acceptable(mode):
    return mode[0] and (mode[1] is not None or mode[2] is not None)


class SeqEngine(tok.TokEngine):
    """explores the states of a loop over the resources: one state per mode of the specification and content of the variables"""
    bad = None
    ntrans = 0

    def loop(self, st, seg, step, dead, skip):
        kinds = [(b, g, its) for b, g, its in seg.cases if b in self.kinds]
        if len(kinds) != len(seg.cases) or len(kinds) != len(self.kinds):
            return tok.TokEngine.loop(self, st, seg, step, dead, skip)
        if st.ghost.get('path') is not None:
            raise Unsupported('a second loop over the resources')
        if not self.checks(st, seg, step, dead, skip):
            return self.mapped
        roots = sorted(c for c in st.mem if c not in dead)
        base = st
        s0 = st.fork()
        s0.ghost['path'], s0.ghost['mode'] = (), NOMODE
        seen = {(self.canon(s0, roots, skip), NOMODE)}
        work, out = [s0], []
        while work:
            s = work.pop()
            e = s.fork()
            out.append(Leaf(e, 'exit', None))
            path, mode = s.ghost['path'], s.ghost['mode']
            for b, g, its in kinds:
                kind = self.kinds[b]
                if kind != 'bad' and kind[0] == 'W' and not mode[0]:
                    continue                                          # the first version is V by name
                nxt = spec_step(mode, kind)
                for l in step(s.fork(), its):
                    self.ntrans += 1
                    if l.kind == 'panic':
                        if nxt is not None:
                            raise Broken('resources %s are refused (%s)' % (show_path(path + (kind,)), l.val), [(path + (kind,), None)])
                    elif l.kind == 'cut':
                        if nxt is None:
                            raise Broken('resources %s are not refused' % show_path(path + (kind,)), [(path + (kind,), None)])
                        if tok.learned(base, l.st):
                            raise Unsupported('a text is inspected')
                        n = l.st.fork()
                        n.pc = list(base.pc)
                        n.ghost['path'], n.ghost['mode'] = path + (kind,), nxt
                        k = (self.canon(n, roots, skip), nxt)
                        if k not in seen:
                            seen.add(k)
                            work.append(n)
                            if len(seen) > 80:
                                raise Unsupported('states of the loop over the resources')
                    elif l.kind == 'return':                          # the resources after this one are not looked at
                        l.st.ghost['path'], l.st.ghost['mode'] = path + (kind,), nxt
                        l.st.ghost['left'] = True
                        out.append(l)
                    else:
                        raise Unsupported('a loop body that leaves the loop')
        self.nstates = len(seen)
        return out

    def checks(self, st, seg, step, dead, skip):
        """False if the loop only maps the resources to a list (self.mapped: its leaves)"""
        try:
            ls = self.loop1(st.fork(), seg, step, dead, skip)
        except (tok.Carried, Broken):
            return True
        if any(l.kind != 'exit' for l in ls) and not all(l.kind == 'exit' or l.kind == 'panic' for l in ls):
            return True
        if any(l.kind == 'panic' for l in ls):
            return True
        self.mapped = ls
        return False

    def canon(self, st, roots, skip):
        num, todo, out = {}, [], []

        def cell(c):
            if c not in num:
                num[c] = len(num)
                todo.append(c)
            return num[c]

        def go(v):
            if isinstance(v, Ref):
                return ('ref', cell(v.cell), v.path)
            if isinstance(v, z3.ExprRef):
                return v.sexpr()
            if isinstance(v, Agg):
                return (v.ty, v.var) + tuple(go(x) for x in v.fs)
            if isinstance(v, sym.Closure):
                return ('closure', v.span) + tuple(go(x) for x in v.caps)
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, Str):
                return ('str',) + tuple(p if isinstance(p, bytes) else ('atom', p.id) for p in st.norm(v.ps))
            if isinstance(v, Seg):
                return ('seg',) + tuple((b.count.decl().name(), str(g), go(i)) for b, g, i in v.cases)
            return repr(v)
        for c in roots:
            if skip is not None and c == skip.cell:
                continue
            out.append((c, go(st.mem.get(c))))
            num.setdefault(c, 'root%d' % c)
        while todo:
            c = todo.pop()
            out.append((num[c], go(st.mem.get(c))))
        return repr(out)


def show_path(p):
    return '[%s]' % ', '.join('no resource' if k == 'bad' else '%s%s%s' % (k[0], ' cardinal' if k[1] else '', ' ordinal' if k[2] else '') for k in p)


NONUMBER = A.compl(A.compile_re(A.cat(A.opt(A.alt(A.ch(ord('+')), A.ch(ord('-')))), A.plus(A.DIGIT))))


def sequence_setup(G, versions=A.DIGITS1):
    """engine, state and argument: any sequence of resources"""
    tables = {}
    fns = by_types(G, [MAPTY], 'Vec<TokenStream>')
    if not fns:
        raise Unsupported('no function from the data of a rule type to its entries')
    names = {f.name for f in fns}

    def pred(callee, tys, dty):
        return sym.strip_generics(callee) in names or callee in names

    def con(ex, st, callee, vals, tys, dty):
        v = ex.deep(st, vals[0])
        if not (isinstance(v, Agg) and v.ty == 'DataMap'):
            return None
        tag = v.fs[0].tag
        if tag not in tables:
            tables[tag] = ex.bag('entries', [])
        return [Leaf(st, 'return', Agg('Vec', None, (Seg([(tables[tag], True, (tok.TS([('ex', rsx.PRIMARY, ('entry', tag))]),))]),)))]
    con.__name__ = 'contract of fn(data of a rule type) -> Vec<TokenStream>'
    jsons = {}

    def pred2(callee, tys, dty):
        c = stdc.Call(callee, tys, dty, None)
        return c.key in ('serde_json::from_str', 'de::from_str')

    def con2(ex, st, callee, vals, tys, dty):
        s = stdc.as_str(ex, st, ex.deep(st, vals[0]))
        if s is None:
            return None
        p = st.norm(s.ps)
        if len(p) != 1 or not isinstance(p[0], Atom) or p[0].id not in jsons:
            raise Unsupported('resource text')
        r = jsons[p[0].id]
        return [Leaf(st, 'return', stdc.err(Opaque(('serde_json::Error',))) if r is None else stdc.ok(r))]
    con2.__name__ = 'assumed contract of serde_json::from_str and the derived Deserialize'
    ex = SeqEngine(G.prog, G.structs, [(pred, con), (pred2, con2)])
    ex.max_steps = 4000000
    st = State()
    ver = {v: st.atom('version_' + v, A.inter(A.UTF8, versions)) for v in 'VW'}
    ex.distinct |= {a.id for a in ver.values()}
    num = None
    if versions is A.DIGITS1:
        num = st.const('NUM', (ver['V'],))
        st.pc.append(num < 2 ** 63)
    ex.kinds = {}
    cases = []
    fields = dict(Resource=G.structs.get('Resource'), Version=G.structs.get('Version'), Supplemental=G.structs.get('Supplemental'))
    if fields['Resource'] != ['supplemental'] and tuple(fields['Resource'] or ()) != ('supplemental',):
        raise Unsupported('struct Resource')

    def build(name, **kw):
        fs = fields[name]
        if fs is None or set(fs) != set(kw):
            raise Unsupported('struct ' + name)
        return Agg(name, None, [kw[k] for k in fs], tuple(fs))
    for kind in [(v, c, o) for v in 'VW' for c in (False, True) for o in (False, True)] + ['bad']:
        a = st.atom('json', A.UTF8)
        b = ex.bag('resources', [])
        ex.kinds[b] = kind
        cases.append((b, True, (string(a),)))
        if kind == 'bad':
            jsons[a.id] = None
            continue
        data = lambda has, t: stdc.some(Agg('DataMap', None, (Opaque((kind, t)),))) if has else stdc.NONE
        jsons[a.id] = build('Resource', supplemental=build(
            'Supplemental', version=build('Version', number=stdc.NONE, unicode_version=string(st.atom('unicode', A.UTF8)), cldr_version=string(ver[kind[0]])),
            plurals_type_cardinal=data(kind[1], 'cardinal'), plurals_type_ordinal=data(kind[2], 'ordinal')))
    arg = Ref(st.new(Agg('array', None, (Seg(cases),))))
    return ex, st, arg, num, tables


def read_output(ex, st, v):
    """the items of the generated file"""
    if not isinstance(v, Agg) or v.ty != 'CodeText':
        raise Unsupported('output %r' % (v,))
    out = [(st, v.fs[0].fs)]
    return rsx.items(readable(ex, st, v.fs[0].fs))


def table_tag(ex, st, toks, tables):
    """the table whose entries, in order and separated by commas, the tokens are; None: no entries"""
    it = [t for t in toks]
    if not it:
        return [('empty', None)]
    # entry , entry , ... : the first entry by itself, or a list with a separator after each
    flat = []
    for t in it:
        if t[0] == 'seg':
            if len(t[1]) != 1:
                raise Unsupported('table of several lists')
            b, g, its = t[1][0]
            if g is not True:
                raise Unsupported('filtered table')
            flat.append(('seg', b, its))
        else:
            flat.append(t)
    comma = ('p', ',')
    if flat[0][0] == 'ex':
        tag = flat[0][2]
        rest = flat[1:]
        if rest and rest[-1] == comma:
            rest = rest[:-1]
        if not rest:
            return [('one', tag)]
        if len(rest) == 1 and rest[0][0] == 'seg' and rest[0][2] == (comma, ('ex', flat[0][1], tag)) and rest[0][1].parent is not None:
            return [('all', tag, rest[0][1].parent[0])]
    if len(flat) == 1 and flat[0][0] == 'seg' and len(flat[0][2]) == 2 and flat[0][2][1] == comma and flat[0][2][0][0] == 'ex':
        return [('all', flat[0][2][0][2], flat[0][1])]
    raise rsx.NotRust('table ' + rsx.show(toks)[:200])


def explore(G, content):
    """C15 (and, with content, the C14 part of generate_rs); raises Broken with resource kinds"""
    ck = G.ck
    fs = by_types(G, ['[String]'], 'String')
    if not fs:
        raise Unsupported('no function from resources to code')
    for f in fs:
        ex, st, arg, num, tables = sequence_setup(G)
        leaves = ex.run(f, [arg], st)
        G.done(ex)
        ck.functions.add(f.name)
        if not getattr(ex, 'nstates', 0):
            raise Unsupported('no loop over the resources found')
        ck.extra['states'] = ex.nstates
        ck.extra['transitions'] = ex.ntrans
        if not content:
            ck.ok('%s: %d transitions over %d states follow the specification' % (f.name, ex.ntrans, ex.nstates), 'symbolic execution')
        for n, l in enumerate(leaves):
            if 'path' not in l.st.ghost:
                raise Unsupported('a path around the loop over the resources')
            path, mode = l.st.ghost['path'], l.st.ghost['mode']
            nm = '%s after %s, path %d' % (f.name, show_path(path), n)
            prem = ex.axioms + [c for c in l.st.pc if z3.is_expr(c)]
            if l.kind == 'unreachable':
                continue
            if l.st.ghost.get('left'):
                if l.kind == 'panic' and mode is None:
                    ck.ok(nm + ': refused', 'symbolic execution')
                    continue
                m = ck.prove(nm + ' looks at every resource', prem, z3.BoolVal(False))
                if m is not None:
                    if l.kind == 'panic':
                        raise Broken('%s refuses %s (%s)' % (f.name, show_path(path), l.val), [(path, version_of(m, num))])
                    raise Broken('%s accepts %s, whatever follows' % (f.name, show_path(path)), [(path if mode is None else path + ('bad',), None)])
                continue
            if l.kind == 'panic':
                if acceptable(mode):
                    m = ck.prove(nm + ' produces output', prem, z3.BoolVal(False))
                    if m is not None:
                        raise Broken('%s refuses %s (%s)' % (f.name, show_path(path), l.val), [(path, version_of(m, num))])
                else:
                    ck.ok(nm + ': refused', 'symbolic execution')
                continue
            if not acceptable(mode):
                m = ck.prove(nm + ' is refused', prem, z3.BoolVal(False))
                if m is not None:
                    raise Broken('%s accepts %s' % (f.name, show_path(path)), [(path, None)])
                continue
            if not content:
                ck.ok(nm + ': produces output', 'symbolic execution')
                continue
            v = ex.deep(l.st, l.val)
            try:
                it = read_output(ex, l.st, v)
                want = {gentab.NAME[k[1]]: k for k in mode[1:] if k is not None}
                if set(it['tables']) != set(want):
                    raise rsx.NotRust('tables %s' % sorted(it['tables']))
                if it['version'] is None:
                    raise rsx.NotRust('no CLDR_VERSION')
                for t, tag in want.items():
                    r = table_tag(ex, l.st, it['tables'][t], tables)[0]
                    b = tables[tag]
                    if r[0] == 'empty':
                        m = ck.prove(nm + ': %s empty' % t, prem, b.count == 0)
                    elif r[0] == 'one':
                        m = ck.prove(nm + ': %s of one entry' % t, prem, z3.And(b.count == 1, r[1] == ('entry', tag)))
                    elif r[1] == ('entry', tag) and r[2] is b:
                        ck.ok(nm + ': %s has the entries of the data' % t)
                        m = None
                    else:
                        raise rsx.NotRust('table %s' % t)
                    if m is not None:
                        raise Broken('%s: table %s of %s' % (f.name, t, show_path(path)), [(path, None)])
            except rsx.NotRust as e:
                s = z3.Solver(); s.add(*prem)
                if s.check() == z3.unsat:
                    continue
                raise Broken('%s: output for %s: %s' % (f.name, show_path(path), e), [(path, None)])
            m = ck.prove(nm + ': CLDR_VERSION', prem, it['version'] == num)
            if m is not None:
                raise Broken('%s: version of %s' % (f.name, show_path(path)), [(path, version_of(m, num))])


def explore_version(G):
    """C14: versions that are not whole numbers cannot be recorded: there is no output"""
    ck = G.ck
    for f in by_types(G, ['[String]'], 'String'):
        ex, st, arg, num, tables = sequence_setup(G, NONUMBER)
        leaves = ex.run(f, [arg], st)
        G.done(ex)
        for n, l in enumerate(leaves):
            if 'path' not in l.st.ghost:
                raise Unsupported('a path around the loop over the resources')
            if l.kind in ('panic', 'unreachable'):
                continue
            nm = '%s with a version that is no number, after %s, path %d' % (f.name, show_path(l.st.ghost['path']), n)
            m = ck.prove(nm + ': no output', ex.axioms + [c for c in l.st.pc if z3.is_expr(c)], z3.BoolVal(False))
            if m is not None:
                raise Broken('%s accepts a version that is no number' % f.name, [])
        ck.ok('%s: no output for a version that is no number' % f.name, 'symbolic execution')


def version_of(m, num):
    try:
        return m.eval(num, model_completion=True).as_long()
    except Exception:
        return None


def concrete_paths(conds):
    """resource kinds (and version) -> sequences for gentab"""
    out = []
    for path, ver in conds:
        if any(k == 'bad' for k in path):
            continue
        for v, w in ((str(37 if ver is None else ver), '38'), ('37', '38'), ('3', '33'), ('40', '4')):
            for d in (0, 1, 2):
                out.append(tuple((v if k[0] == 'V' else w, d if k[1] else None, d if k[2] else None) for k in path))
                out.append(out[-1] + ((v, None, None),))
    return out


# ---- the checks -------------------------------------------------------------------------------------------
def load(ck):
    G = [None]

    def go():
        G[0] = Gen(ck)
    ck.part('MIR of make_pluralrules', go)
    return G[0]


def tables_check(ck, g):
    """C14"""
    G = load(ck)
    if G is None:
        return
    keyf, good = by_types(G, ['LanguageIdentifier'], 'TokenStream'), []

    def broken(what, e, cases):
        for (res, ver, want), a in zip(cases, g.run([c[0] for c in cases])):
            m = gentab.judge_table(a, ver, want)
            if m:
                ck.fail(what, e.what, [('resources %s' % [r[:400] for r in res], lambda m=m: m)])
                return
        ck.fail(what, e.what, [])

    def key(f):
        try:
            prove_key(G, f)
            good.append(f)
        except Broken as e:
            broken(f.name, e, table_replays([Witness(None)]))
    for f in keyf:
        ck.part('contract of %s' % f.name, lambda: key(f))
    condf = G.by_signature('Condition', 'TokenStream')
    mapf = by_types(G, [MAPTY], 'Vec<TokenStream>')

    def table(f):
        try:
            prove_table(G, f, good, condf)
        except Broken as e:
            broken(f.name, e, table_replays(e.conds) + gentab.table_cases(ck.seed, 200))
    for f in mapf:
        ck.part('contract of %s' % f.name, lambda: table(f))
    if not mapf:
        ck.undecided('fn(data of a rule type) -> Vec<TokenStream>', 'no such function')

    def output():
        try:
            explore(G, True)
        except Broken as e:
            cases = []
            for s in concrete_paths(e.conds):
                if not gentab.admissible(s):
                    continue
                cases.append(seq_case(s))
            broken('the generated file', e, cases + gentab.table_cases(ck.seed, 200))
    ck.part('contract of the generator on sequences of resources', output)

    def nonumber():
        try:
            explore_version(G)
        except Broken as e:
            n, bad = gentab.judge_versions(g)
            if bad:
                ck.fail('versions that are no numbers', e.what, [(bad[0][0], lambda: bad[0][1])])
            else:
                ck.fail('versions that are no numbers', e.what, [])
    ck.part('contract of the generator on versions that are no numbers', nonumber)


def seq_case(s):
    want = {}
    res = [gen.resource(v, None if c is None else gentab.DATA[c], None if o is None else gentab.DATA[o]) for v, c, o in s]
    for v, c, o in s:
        if c is not None:
            want['cardinal'] = gentab.WANT[c]
        if o is not None:
            want['ordinal'] = gentab.WANT[o]
    return res, s[0][0], want


def sequence_check(ck, g):
    """C15"""
    G = load(ck)
    if G is None:
        return

    def go():
        try:
            explore(G, False)
        except Broken as e:
            n, bad = gentab.judge_sequences(g, concrete_paths(e.conds) + gentab.sequences(ck.seed, 200))
            if bad:
                ck.fail('the generator on sequences of resources', e.what, [(bad[0][0], lambda: bad[0][1])])
            else:
                ck.fail('the generator on sequences of resources', e.what, [])
    ck.part('contract of the generator on sequences of resources', go)
