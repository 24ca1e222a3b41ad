"""Proof obligations on the crate intl_pluralrules, generated from the MIR of its current source."""
import re, os, time, struct, random
import z3
from mirvc import mir, sym, stdc
from mirvc import autom as A
from mirvc.sym import Agg, Ref, Opaque, F, Str, State, FnItem, Closure, INT_RANGE, INF, fl
from mirvc.mir import Unsupported
from . import cldr, lits
from .common import Check, Native, Undecided, emit_mir, known, REPO, BuildError

SRC = os.path.join(REPO, 'intl_pluralrules', 'src')
LEN_MAX = 2 ** 63
CATS6 = ['zero', 'one', 'two', 'few', 'many', 'other']
OPS = ('n', 'i', 'v', 'w', 'f', 't')

LIB_TRUST = [
    'mirvc: own verification condition generator over rustc MIR (parser, symbolic evaluator, DFA string domain)',
    'rustc nightly front end (source -> MIR); the runtime binary is built from the same source by the stable compiler',
    'z3 (obligations), cvc5 (second opinion; cross-check of every discharged obligation in the thorough tier)',
    'contracts assumed on std / unic-langid functions (listed under assumed_library_contracts)',
]
ASSUME_COMMON = [
    'string and collection lengths are below 2^63 (Rust allocation limit)',
    'unwinding and drop glue have no effect on returned values (std types only)',
    'allocation failure is not modelled',
    'the target is 64-bit (usize/isize are 64 bits)',
]


class Intl:
    def __init__(self, ck):
        self.ck = ck
        t = time.time()
        self.text = emit_mir('intl', 'intl_pluralrules')
        self.prog = mir.Program(self.text, SRC)
        self.structs = mir.parse_structs(SRC)
        self.native = Native('intl')
        ck.extra['mir_s'] = round(time.time() - t, 2)
        ck.trust(*LIB_TRUST)
        ck.assume(*ASSUME_COMMON)
        if set(self.structs.get('PluralOperands', ())) != set(OPS):
            raise Unsupported('PluralOperands no longer has the public fields n i v w f t')
        self.opnames = self.structs['PluralOperands']
        self._create, self._tables = {}, {}

    def engine(self, **kw):
        return sym.Engine(self.prog, self.structs, **kw)

    def done(self, ex):
        self.ck.functions |= {clean(f) for f in ex.unfolded}
        self.ck.contracts_used |= set(stdc.USED)

    def method(self, name, selfty):
        fs = [f for f in self.prog.fns if f.kind == 'fn' and f.name.endswith('::' + name) and f.args
              and sym.norm_ty(f.args[0][1]) == selfty]
        if len(fs) != 1:
            raise Unsupported('%s::%s not found (%d candidates)' % (selfty, name, len(fs)))
        return fs[0]

    def assoc(self, name):
        fs = [f for f in self.prog.fns if f.kind == 'fn' and re.search(r'<impl at [^>]*>::%s$' % name, f.name)]
        fs = [f for f in fs if 'PluralRules' in f.name or '/lib.rs' in f.name]
        if len(fs) != 1:
            raise Unsupported('%s not found (%d candidates)' % (name, len(fs)))
        return fs[0]

    def conversion(self, ty):
        """(function, wraps) converting `ty` into PluralOperands; wraps: the function cannot fail"""
        fs = [f for f in self.prog.fns if f.kind == 'fn' and re.search(r'>::(try_from|from)$', f.name) and len(f.args) == 1
              and sym.norm_ty(f.args[0][1]) == ty and 'PluralOperands' in f.ret]
        if len(fs) != 1:
            raise Unsupported('conversion from %s not found (%d candidates)' % (ty, len(fs)))
        f = fs[0]
        return f, not f.ret.startswith('std::result::Result') and not sym.base_ty(f.ret) == 'Result'

    def sym_ops(self, st):
        d = dict(i=z3.Int('i'), v=z3.Int('v'), w=z3.Int('w'), f=z3.Int('f'), t=z3.Int('t'), n=F(z3.Real('n'), False, False))
        return d, Agg('PluralOperands', None, [d[x] for x in self.opnames], self.opnames)

    def prt(self, kind):
        return Agg('PluralRuleType', kind.upper(), ())

    # ---- create ------------------------------------------------------------------------
    def create_leaves(self, kind):
        """every outcome of create for a symbolic identifier:
        -> (engine, {locale text: [(state, PluralRules value)]}, [other leaves], langid code var)"""
        if kind in self._create:
            return self._create[kind]
        ex = self.engine()
        ex.sorted_obligations = []
        f = self.assoc('create')
        st = State()
        code = z3.Int('langid')
        lang = Agg('LanguageIdentifier', None, (code,), ('__code',))
        st.pc.append(code >= 1)
        leaves = ex.run(f, [Opaque(('generic', 'L'), lang), self.prt(kind)], st)
        ex.unfolded.add(f.name)
        self.done(ex)
        names = {v: k for k, v in stdc.LANG.items()}
        self._create[kind] = (ex, leaves, code, lang, names)
        return self._create[kind]

    def tables(self, kind):
        """locale -> (state, PluralRules) for the Ok leaves, plus the unexpected leaves"""
        if kind in self._tables:
            return self._tables[kind]
        ex, leaves, code, lang, names = self.create_leaves(kind)
        table, odd, miss = {}, [], []
        for l in leaves:
            if l.kind == 'return' and isinstance(l.val, Agg) and l.val.var == 'Ok':
                c = ex.concretize(l.st, code)
                if c not in names:
                    odd.append((None, l)); continue
                loc = decode_langid(names[c])
                if loc in table:
                    odd.append((loc, l))
                else:
                    table[loc] = (l.st, l.val.fs[0])
            elif l.kind == 'return' and isinstance(l.val, Agg) and l.val.var == 'Err':
                miss.append(l)
            else:
                odd.append((None, l))
        self._tables[kind] = (table, odd, miss)
        return table, odd, miss


def clean(n):
    return re.sub(r'<impl at ([^>]*)>', r'impl(\1)', n)


def raw_text(x):
    b = x.to_bytes(8, 'little').rstrip(b'\0')
    return b.decode('ascii')


def decode_langid(rep):
    """text of an identifier value built from raw parts (repr of the engine value)"""
    m = re.match(r"^LanguageIdentifier\(Language\(Option::Some\((\d+),\),\), (Option::None\(\)|Option::Some\(Script\((\d+),\),\)), "
                 r"(Option::None\(\)|Option::Some\(Region\((\d+),\),\)), Option::None\(\)\)$", rep)
    if not m:
        raise Unsupported('identifier ' + rep[:200])
    t = raw_text(int(m.group(1)))
    for g in (3, 5):
        if m.group(g):
            t += '-' + raw_text(int(m.group(g)))
    return t


def order_key(loc):
    p = loc.split('-')
    lang = p[0].encode()
    scr = next((x for x in p[1:] if len(x) == 4), None)
    reg = next((x for x in p[1:] if len(x) in (2, 3)), None)
    return (lang, (scr is not None, (scr or '').encode()), (reg is not None, (reg or '').encode()))


def hx(s):
    return s.encode().hex()


def bits(x):
    return '%016x' % struct.unpack('>Q', struct.pack('>d', x))[0]


def num(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    raise ValueError(str(v))


def leaf_cat(ex, l):
    """category name of a returned PluralCategory"""
    v = ex.deep(l.st, l.val)
    if isinstance(v, Agg) and v.var and v.var.lower() in CATS6:
        return v.var.lower()
    raise Unsupported('category %r' % (v,))


# ======================================================================================== C09: select
def select_contract(I, unfold=False):
    """select(self, x) = match convert(x) { Ok(o) => Ok(self.function(&o)), Err(_) => Err(..) }.
    Proved for an arbitrary (uninterpreted) rule function and an arbitrary conversion outcome."""
    ck = I.ck
    ex = I.engine()
    f = I.method('select', '&PluralRules')
    ck.functions.add(clean(f.name))
    fields = I.structs['PluralRules']
    fn = Opaque(('rule',))
    st = State()
    d, po = I.sym_ops(st)
    lang = Agg('LanguageIdentifier', None, (z3.Int('langid'),), ('__code',))
    me = Agg('PluralRules', None, [{'locale': lang, 'function': fn}.get(x) for x in fields], fields)
    if any(x is None for x in me.fs):
        raise Unsupported('fields of PluralRules: %s' % (fields,))
    cell = st.new(me)
    okv, errv = stdc.ok(po), stdc.err(Opaque(('conversion error',)))
    leaves = ex.run(f, [Ref(cell), Opaque(('generic', 'N'), [okv, errv])], st)
    seen = set()
    for k, l in enumerate(leaves):
        nm = 'select: outcome %d' % k
        g = l.st.ghost.get('conversion')
        if l.kind != 'return':
            ck.fail(nm, 'select does not return: %s %s' % (l.kind, l.val), select_replays(I))
            continue
        if g is None:
            ck.fail(nm, 'select returns without converting its argument', select_replays(I)); continue
        v = ex.deep(l.st, l.val)
        good = False
        if g is errv:
            good = isinstance(v, Agg) and v.var == 'Err'
        elif isinstance(v, Agg) and v.var == 'Ok':
            r = ex.deep(l.st, v.fs[0])
            if isinstance(r, Opaque) and r.tag[0] == 'apply' and r.tag[1] == fn.tag and len(r.data) == 1:
                a = r.data[0]
                good = isinstance(a, Agg) and a.ty == 'PluralOperands' and all(same(a.get(x), d[x]) for x in OPS)
            elif not isinstance(r, Opaque):
                good = False
        if l.st.mem.get(cell) is not me:
            good = False
        seen.add('err' if g is errv else 'ok')
        if good:
            ck.ok(nm)
        else:
            ck.fail(nm, 'conversion outcome %s gives %r' % ('Err' if g is errv else 'Ok(operands)', v), select_replays(I))
    if seen != {'ok', 'err'}:
        ck.fail('select: both conversion outcomes are handled', 'outcomes reached: %s' % sorted(seen), select_replays(I))
    else:
        ck.ok('select: both conversion outcomes are handled')
    I.done(ex)
    # frame: the receiver is shared and no interior mutability is reachable from its fields
    tys = struct_field_types(os.path.join(SRC, 'lib.rs'), 'PluralRules')
    if all(re.match(r'^(LanguageIdentifier|rules::PluralRule|PluralRule|(for<[^>]*> )?fn\(.*)$', t) for t in tys):
        ck.ok('select: frame (fields of PluralRules are immutable through &self)')
    else:
        raise Unsupported('fields of PluralRules: %s' % tys)


def same(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return same(a.val, b.val) and a.nan is b.nan
    return z3.is_expr(a) and z3.is_expr(b) and z3.eq(a, b)


def struct_field_types(path, name):
    t = mir.strip_comments(open(path, encoding='utf-8').read())
    m = re.search(r'\bstruct\s+%s\s*\{([^}]*)\}' % name, t)
    if not m:
        raise Unsupported('struct ' + name)
    return [re.sub(r'^.*?:\s', '', x.strip(), flags=re.S).strip() for x in mir.split_top(m.group(1))]


SEL_NUMS = ['0', '1', '2', '3', '5', '11', '100', '1.0', '1.5', '0.1', '-1', '21', '103', '1000000']


def select_cases():
    """(request, expected answer or predicate)"""
    rules = {k: {l: {c: cldr.parse_rule(t) for c, t in r.items()} for l, r in cldr.load(k).items()} for k in ('cardinal', 'ordinal')}
    out = []
    kf = deviating()
    for k, locs in (('cardinal', ['en', 'lv', 'ar', 'pl', 'cy', 'ga', 'fr', 'pt-PT', 'ja']), ('ordinal', ['en', 'cy', 'it', 'uk', 'as', 'sv', 'ja'])):
        for l in locs:
            out.append(('sel %s %s bad' % (k, l), lambda a: a.startswith('err')))
            for s in ('', 'x', '-', '1.2.3', '--1', '1,5'):
                out.append(('sel %s %s str %s' % (k, l, hx(s)), lambda a: a.startswith('err')))
            for s in SEL_NUMS:
                o = cldr.operands_of(s)
                want = {cldr.category(rules[k][l], o)}
                if l in kf[k]:
                    want.add(cldr.category_dev(rules[k][l], o))
                out.append(('sel %s %s str %s' % (k, l, hx(s)), isin(want)))
                out.append(('sel %s %s clone %s' % (k, l, hx(s)), isin({w + ' true' for w in want})))
                out.append(('sel %s %s ops %s %d %d %d %d %d' % (k, l, bits(o['n']), o['i'], o['v'], o['w'], o['f'], o['t']), isin(want)))
                if o['v'] == 0:
                    out.append(('sel %s %s i64 %s' % (k, l, s), isin(want)))
    # operands no text can have: the rule's verdict (en: one iff i = 1 and v = 0; fr: one iff i = 0,1; ja: other) all the same
    M = 2 ** 64 - 1
    for n in (0.0, 1.0, 0.5, -1.0, 3.0, 1e300, float('inf'), -float('inf'), float('nan'), 5e-324):
        for i in (0, 1, 2, 10, 2 ** 53 + 1, M):
            for v, w in ((0, 0), (1, 0), (0, 1), (2, 2), (300, 0), (M, M)):
                for f, t in ((0, 0), (1, 1), (0, 1), (10, 1), (M, M)):
                    a = '%s %d %d %d %d %d' % (bits(n), i, v, w, f, t)
                    out.append(('sel cardinal en ops ' + a, isin({'one' if i == 1 and v == 0 else 'other'})))
                    out.append(('sel cardinal fr ops ' + a, isin({'one' if i <= 1 else 'other'})))
    for s in SEL_TEXTS:
        out.append(('selconv ' + hx(s), isin({'same'})))
    return out


SEL_TEXTS = (['0', '1', '-1', '1.0', '1.00', '0.0', '-0', '-0.0', '2', '1.5', '', '-', '.', '1.', '.5', '+1', '+1.5', 'inf', 'nan', 'NaN', 'infinity', '-inf', '1e5', '1e400', '1e-400',
              '1E2', ' 1', '1 ', '--1', '18446744073709551615', '18446744073709551616', '1.18446744073709551615', '1.18446744073709551616', '0x1', '1_0', '1,5', '\u0661', '\u22121', '1\u00a0']
             + ['1' * k for k in (20, 39, 100, 308, 309, 310, 400, 1000)] + ['1.' + '0' * k for k in (1, 19, 20, 255, 256, 300, 1100, 65536)]
             + ['0' * k + '1' for k in (1, 20, 255, 256, 400, 65536)] + ['0.' + '0' * k + '1' for k in (18, 20, 300, 330, 1100)])


def isin(s):
    s = set(s)
    f = lambda a: a in s
    f.want = s
    return f


def run_cases(I, cases):
    """-> list of (description, mismatch)"""
    ans = I.native.ask([c for c, _ in cases])
    bad = []
    for (req, p), a in zip(cases, ans):
        if not p(a):
            bad.append((show_req(req), 'expected %s, the code answers `%s`' % (sorted(getattr(p, 'want', {getattr(p, 'text', 'an error')})), a)))
    return bad


def show_req(r):
    p = r.split(' ')
    for k in range(len(p) - 1):
        if p[k] in ('str', 'string', 'clone') and re.match(r'^([0-9a-f]{2})*$', p[k + 1]):
            try:
                p[k + 1] = repr(bytes.fromhex(p[k + 1]).decode())
            except Exception:
                pass
    return ' '.join(p)


def batch_replay(I, desc, cases_fn):
    """a replay that runs a batch of concrete cases and reports the first mismatch"""
    def f():
        bad = run_cases(I, cases_fn())
        return '; '.join('%s: %s' % b for b in bad[:3]) if bad else None
    return (desc, f)


def select_replays(I):
    return [batch_replay(I, 'selection on concrete numbers', select_cases)]


# ======================================================================================== C03: lookup
def deviating():
    kf = known()
    out = {'cardinal': set(), 'ordinal': set()}
    for f in kf['findings']:
        if f.get('kind') == 'locale-rules':
            out[f['type']] |= set(f['locales'])
    return out


def lookup_cases(kind):
    locs = set(cldr.load(kind))
    out = []
    near = set()
    for l in locs:
        out.append(('create %s %s' % (kind, l), isin({'ok %s true true' % l})))
        for x in (l + '-US', l + '-PT', l + '-Latn', l + '-valencia', l.split('-')[0], l + '-Cyrl-RS', l[:-1], l + 'a', l.split('-')[0][:2]):
            near.add(x)
    near |= {'und', 'xx', 'root', 'tlh', 'zz', 'aaa', 'zzz', 'q', 'mul', 'pt-PT-valencia', 'pt-BR', 'sr-Latn', 'no-NO', 'in', 'iw', 'ji', 'mo', 'sh', 'tl'}
    ts = [t for t in lits.literals('intl_pluralrules')[1] if re.match(r'^[A-Za-z0-9-]{2,15}$', t)]
    near |= set(ts) | {a + '-' + b for a in ts + ['en', 'pt'] for b in ts if len(b) <= 8}
    other = set(cldr.load('ordinal' if kind == 'cardinal' else 'cardinal'))
    near |= other
    import itertools, string
    for a, b in itertools.product(string.ascii_lowercase, repeat=2):
        near.add(a + b)
    for x in sorted(near):
        y = canonical(x)
        if y is None:
            continue
        if y in locs:
            out.append(('create %s %s' % (kind, x), isin({'ok %s true true' % y})))
        else:
            p = lambda a: a.startswith('err') or a == 'badid'
            p.text = 'an error'
            out.append(('create %s %s' % (kind, x), p))
    want = 'true ' + ','.join(sorted(locs, key=order_key))
    p = lambda a: a == want
    p.want = {want}
    pl = lambda a: sorted(a.split(' ')[-1].split(',')) == sorted(locs)
    pl.text = 'exactly the CLDR locales'
    out.append(('locales ' + kind, pl))
    return out


def canonical(x):
    p = x.split('-')
    if not re.match(r'^([a-z]{2,3}|[a-z]{5,8})$', p[0]):
        return None
    return x


def lookup(I, kind):
    ck = I.ck
    rp = [batch_replay(I, 'lookup of every CLDR locale and of near misses', lambda: lookup_cases(kind))]
    ex, leaves, code, lang, names = I.create_leaves(kind)
    table, odd, miss = I.tables(kind)
    want = set(cldr.load(kind))
    for loc, l in odd:
        ck.fail('create(%s): outcomes' % kind, 'unexpected outcome %s %r (%s)' % (l.kind, l.val, loc), rp)
    if not odd:
        ck.ok('create(%s) never panics: every outcome is Ok or Err' % kind)
    for loc in sorted(want | set(table)):
        nm = 'create(%s) on %s' % (kind, loc)
        if loc not in table:
            ck.fail(nm, 'no entry for the CLDR locale', rp); continue
        if loc not in want:
            ck.fail(nm, 'succeeds for an identifier that is not a CLDR 37 locale', rp); continue
        st, pr = table[loc]
        pr = ex.deep(st, pr)
        rep = ex.deep(st, pr.fs[I.structs['PluralRules'].index('locale')])
        same_l = stdc.veq(ex, st, rep, lang)
        if same_l is True or (z3.is_expr(same_l) and ex.entails(st, same_l)):
            ck.ok(nm + ': found, reports the identifier asked for')
        else:
            ck.fail(nm, 'reports %r instead of the identifier asked for' % (rep,), rp)
    # the error outcome covers exactly the rest: the outcomes partition all identifiers
    t = time.time()
    s = z3.Solver()
    cover = z3.Or(*[z3.And(*[c for c in l.st.pc if z3.is_expr(c)]) for l in leaves])
    s.add(code >= 1, z3.Not(cover))
    if s.check() == z3.unsat:
        ck.ok('create(%s): the outcomes cover every identifier' % kind, 'z3', time.time() - t)
    else:
        raise Undecided('outcomes of create do not cover all identifiers')
    # precondition of binary search: strictly sorted keys
    if ex.sorted_obligations:
        for ks in ex.sorted_obligations:
            locs = [decode_langid(repr(k)) for k in ks]
            bad = [(a, b) for a, b in zip(locs, locs[1:]) if not order_key(a) < order_key(b)]
            if bad:
                ck.fail('create(%s): precondition of binary search' % kind, 'entries out of order: %s' % bad[:5], rp)
            else:
                ck.ok('create(%s): binary search precondition, %d keys strictly increasing' % (kind, len(locs)))
    # listing
    ex2 = I.engine()
    f = I.assoc('get_locales')
    ls = ex2.run(f, [I.prt(kind)], State())
    ck.functions.add(clean(f.name))
    I.done(ex2)
    if len(ls) != 1 or ls[0].kind != 'return':
        ck.fail('get_locales(%s)' % kind, 'outcomes %r' % ([l.kind for l in ls],), rp)
    else:
        v = ex2.deep(ls[0].st, ls[0].val)
        if not isinstance(v, Agg) or v.ty not in ('Vec', 'array'):
            raise Unsupported('get_locales returns %r' % (v,))
        got = [decode_langid(repr(ex2.deep(ls[0].st, x))) for x in v.fs]
        if sorted(got) == sorted(want):
            ck.ok('get_locales(%s) lists each of the %d CLDR locales exactly once' % (kind, len(want)))
        else:
            ck.fail('get_locales(%s)' % kind, 'missing %s, extra %s' % (sorted(want - set(got))[:5], [x for x in got if x not in want or got.count(x) > 1][:5]), rp)
    ck.samples.append('%s: %d locales, first %s' % (kind, len(table), sorted(table)[:3]))


def get_locale_contract(I):
    ck = I.ck
    ex = I.engine()
    f = I.method('get_locale', '&PluralRules')
    ck.functions.add(clean(f.name))
    rp = [batch_replay(I, 'reported locales', lambda: lookup_cases('cardinal'))]
    st = State()
    lang = Agg('LanguageIdentifier', None, (z3.Int('langid'),), ('__code',))
    fields = I.structs['PluralRules']
    me = Agg('PluralRules', None, [{'locale': lang, 'function': Opaque(('rule',))}.get(x) for x in fields], fields)
    if any(x is None for x in me.fs):
        raise Unsupported('fields of PluralRules')
    ls = ex.run(f, [Ref(st.new(me))], st)
    if len(ls) == 1 and ls[0].kind == 'return' and ex.deep(ls[0].st, ls[0].val) is lang:
        ck.ok('get_locale returns the stored identifier')
    else:
        ck.fail('get_locale returns the stored identifier', repr(ls), rp)
    # clone: derived or written, the copy has the same identifier and the same rule
    fs = [g for g in I.prog.fns if g.kind == 'fn' and g.name.endswith('>::clone') and g.args and sym.norm_ty(g.args[0][1]) == '&PluralRules']
    if len(fs) != 1:
        raise Unsupported('Clone for PluralRules: %d candidates' % len(fs))
    ex = I.engine()
    st = State()
    ls = ex.run(fs[0], [Ref(st.new(me))], st)
    ck.functions.add(clean(fs[0].name))
    good = len(ls) == 1 and ls[0].kind == 'return'
    if good:
        v = ex.deep(ls[0].st, ls[0].val)
        good = isinstance(v, Agg) and len(v.fs) == len(me.fs) and all(ex.deep(ls[0].st, a) is b or ex.deep(ls[0].st, a) == b for a, b in zip(v.fs, me.fs))
    I.done(ex)
    if good:
        ck.ok('clone has the same identifier and the same rule')
    else:
        ck.fail('clone has the same identifier and the same rule', repr(ls), rp + select_replays(I))


# ======================================================================================== C01 / C02: rules
_catcache = {}


def rules_part(I, kind):
    """for every locale: the rule stored for it returns the CLDR category for every well-formed operand set"""
    ck = I.ck
    spec = {l: {c: cldr.parse_rule(t) for c, t in r.items()} for l, r in cldr.load(kind).items()}
    dev = deviating()[kind]
    ex0, leaves, code, lang, names = I.create_leaves(kind)
    table, odd, miss = I.tables(kind)
    o = {k: z3.Int(k) for k in 'ivwft'}
    n = z3.Real('n')
    wf = cldr.wf(o, n)
    ck.satisfiable('well-formed operands with a fraction', wf + [o['f'] > 0, o['i'] > 10 ** 6])
    if odd:
        ck.fail('create(%s)' % kind, 'unexpected outcomes of create: %r' % (odd[:2],), [])
    fi = I.structs['PluralRules'].index('function')
    per = {}
    nleaf = 0
    for loc in sorted(spec):
        nm = '%s rule of %s' % (kind, loc)
        if loc not in table:
            ck.fail(nm, 'create does not find this CLDR locale', [batch_replay(I, 'lookup', lambda: lookup_cases(kind))])
            continue
        st0, pr = table[loc]
        try:
            fv = ex0.deep(st0, ex0.deep(st0, pr).fs[fi])
            st = State()
            st.mem.update(st0.mem)
            d, po = I.sym_ops(st)
            st.pc = list(wf)
            ex = I.engine()
            lv = ex.call_value(st, fv, [Ref(st.new(po))])
            I.done(ex)
            res = []
            for l in lv:
                pc = [c for c in l.st.pc[len(wf):] if z3.is_expr(c)]
                res.append((l.kind, leaf_cat(ex, l) if l.kind == 'return' else str(l.val), pc))
        except (Unsupported, Undecided) as e:
            ck.undecided(nm, e)
            continue
        key = (repr([(k, c, [str(x) for x in pc]) for k, c, pc in res]), repr(sorted(spec[loc].items())), loc in dev)
        per[loc] = len(res)
        if key in _catcache:
            status, info = _catcache[key]
        else:
            try:
                status, info = rule_obligations(ck, spec[loc], loc in dev, res, o, n, wf)
            except Undecided as e:
                status, info = 'undecided', str(e)
            _catcache[key] = (status, info)
        nleaf += len(res)
        if status == 'ok':
            for k, c, _ in res:
                ck.ok('%s: path to %s' % (nm, c), 'z3')
            if info:
                kf = [f for f in known()['findings'] if f.get('kind') == 'locale-rules' and f['type'] == kind and loc in f['locales']][0]
                ck.finding('%s %s: %s, e.g. %s' % (kind, loc, kf['id'], info))
        elif status == 'undecided':
            ck.undecided(nm, info)
        else:
            cat, model = info
            ck.fail('%s: path to %s' % (nm, cat), 'counterexample operands %s' % (model,),
                    [(r, mk_rule_replay(I, kind, loc, spec[loc], loc in dev, r)) for r in model])
    ck.extra['rule_paths'] = ck.extra.get('rule_paths', 0) + nleaf
    ck.extra.setdefault('locales', {})[kind] = len(table)
    ck.extra['distinct_rule_bodies'] = len(_catcache)


def rule_obligations(ck, rules, dev, res, o, n, wf):
    """each path returns the category of the rule -> ('ok', finding example or None) / ('bad', (cat, decimals))"""
    zs = cldr.z_category(rules, o)
    zd = cldr.z_category_dev(rules, o) if dev else None
    example = None
    for kind, cat, pc in res:
        if kind != 'return':
            goal = z3.BoolVal(False)
        else:
            goal = zs.get(cat, z3.BoolVal(False))
            if dev:
                goal = z3.Or(goal, zd.get(cat, z3.BoolVal(False)))
        n0 = len(ck.obligations)
        m = ck.prove('path', wf + pc, goal)
        del ck.obligations[n0:]                  # counted per locale by the caller
        if m is not None:
            return 'bad', (cat, concrete_decimals(wf + pc + [z3.Not(goal)], o, n, m))
        if dev and kind == 'return':
            s = z3.Solver(); s.set('timeout', 20000)
            s.add(*cldr.wf(o, n, strong=True)); s.add(*pc)
            s.add(z3.Not(zs.get(cat, z3.BoolVal(False))), o['i'] < 1000, o['v'] < 3)
            if s.check() == z3.sat:
                mm = s.model()
                dec = decimal_of({k: num(mm, o[k]) for k in 'ivwft'})
                example = example or '%s gives %s' % (dec, cat)
    return 'ok', example


def decimal_of(o):
    s = str(o['i'])
    if o['v'] > 0:
        s += '.' + str(o['f']).rjust(o['v'], '0')
    return s


def concrete_decimals(cs, o, n, m):
    """decimal numerals (small ones preferred) satisfying the refuted obligation"""
    out = []
    for bound in ([o['i'] < 1000, o['v'] < 4], [o['v'] < 19, o['i'] < 2 ** 53], [o['v'] < 19], []):
        s = z3.Solver(); s.set('timeout', 10000)
        s.add(*cs); s.add(*cldr.wf(o, n, strong=True)); s.add(*bound)
        if s.check() == z3.sat:
            mm = s.model()
            d = {k: num(mm, o[k]) for k in 'ivwft'}
            if d['v'] < 400:
                t = decimal_of(d)
                if cldr.operands_of(t) and t not in out:
                    out.append(t)
            break
    if not out:
        d = {k: num(m, o[k]) for k in 'ivwft'}
        out.append(str(d['i']) if d['v'] == 0 or d['v'] > 400 else decimal_of(d))
    return out


def mk_rule_replay(I, kind, loc, rules, dev, dec):
    def f():
        o = cldr.operands_of(dec)
        want = {cldr.category(rules, o)}
        if dev:
            want.add(cldr.category_dev(rules, o))
        cases = [('sel %s %s str %s' % (kind, loc, hx(dec)), isin(want)),
                 ('sel %s %s ops %s %d %d %d %d %d' % (kind, loc, bits(o['n']), o['i'], o['v'], o['w'], o['f'], o['t']), isin(want))]
        bad = run_cases(I, cases)
        return '; '.join('%s: %s' % b for b in bad) if bad else None
    return f


BOUND_NUMS = None


def bounded_numbers(seed, extra=0):
    r = random.Random(seed)
    nums = [str(k) for k in range(0, 130)]
    nums += [str(k) for k in (200, 211, 212, 219, 220, 221, 299, 300, 400, 500, 600, 800, 900, 999, 1000, 1001, 1002, 1011, 1100, 1103, 2000, 9999,
                              10000, 11000, 20000, 40000, 60000, 80000, 100000, 100001, 111111, 999999, 1000000, 1000001, 1100000, 2000000,
                              2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 53 - 1, 2 ** 53 + 2, 10 ** 18, 2 ** 64 - 1)]
    nums += ['%d.%s' % (a, b) for a in (0, 1, 2, 3, 4, 5, 10, 11, 12, 20, 21, 71, 100, 101, 1000000)
             for b in ('0', '1', '2', '3', '4', '5', '9', '00', '01', '10', '11', '12', '19', '20', '21', '50', '99', '001', '010', '100', '111', '1000000')]
    nums += [str(r.randrange(0, 10 ** r.randrange(1, 19))) for _ in range(40 + extra)]
    nums += ['%d.%s' % (r.randrange(0, 10 ** r.randrange(1, 9)), ''.join(r.choice('0123456789') for _ in range(r.randrange(1, 7)))) for _ in range(40 + extra)]
    ks = [k for k in lits.rule_numbers() if k >= 130]
    for k in ks if len(ks) < 120 else r.sample(ks, 120):
        nums += [str(k)] + ['%d.0' % k, '1.%d' % k, '%d.5' % k, str(k + 1000000)][:4 if extra else 0]
    return nums


def bounded_rules(I, kind, locs=None, extra=0):
    ck = I.ck
    spec = {l: {c: cldr.parse_rule(t) for c, t in r.items()} for l, r in cldr.load(kind).items()}
    dev = deviating()[kind]
    nums = bounded_numbers(ck.seed, extra)
    ops = [(s, cldr.operands_of(s)) for s in nums]
    cases = []
    for loc in sorted(spec):
        if locs is not None and loc not in locs:
            continue
        for s, o in ops:
            want = {cldr.category(spec[loc], o)}
            if loc in dev:
                want.add(cldr.category_dev(spec[loc], o))
            cases.append(('sel %s %s str %s' % (kind, loc, hx(s)), isin(want)))
    ck.bounded.append(dict(part='%s rules, native' % kind, cases=len(cases), bound='%d numbers per locale' % len(nums)))
    return run_cases(I, cases)
