"""Checks C13 .. C16 (crate make_pluralrules)."""
import random, time
import z3
from .common import Check, BuildError, known, Undecided
from .intl import LIB_TRUST, ASSUME_COMMON, Intl, run_cases, bits, isin, hx, batch_replay
from mirvc.mir import Unsupported
from . import gen, genvc, gentab, tabvc, tool, toolvc, rsx, intl

READ = 'vc/rsx.py: own reader of the emitted Rust subset (tokens, precedences and typing of the Rust reference); what it does not know is undecided, never an alarm'
FMT = 'the emitted token text is read as rustfmt prints it (`5 . 0` as the literal 5.0)'

QUOTE = 'quote / proc_macro2 (mirvc/tok.py): a token stream is the sequence of the tokens pushed on it; Literal and Ident print as given'
LOOP = 'loops over lists of unknown length: the loop rule of mirvc/tok.py (inductive step on a generic element of every kind, arbitrary accumulators)'

TABLE = ('serde_json::from_str and the derived Deserialize: a text is either no resource or a resource of which only version and data are used',
         'slice sorts: the result is the permutation ascending by the comparator or key (elements with equal keys do not occur: distinct identifiers)',
         'unic-langid: parsing a locale name gives its identifier; into_raw_parts gives its raw subtags; Ord is a total order on identifiers',
         'parse_plural_condition: contract of C10; fn(Condition) -> TokenStream: contract of C13')


def c13(pid):
    ck = Check(pid)
    ck.trust(*LIB_TRUST)
    ck.trust(READ, QUOTE)
    ck.assume(*ASSUME_COMMON)
    ck.assume(FMT, LOOP, 'moduli are positive; constants compared with n are below 2^53 (exact as f64)',
              'operand sets quantified over: the well-formed ones (cldr.wf)')
    J = gen.Judge()
    genvc.conditions(ck, J)

    def bounded(ck, parts):
        deep = bool(ck.undecideds or ck.failed or ck.tier == 'thorough')
        rd = J.probe()
        for f in known()['findings']:
            if f['property'] == 'C13' and rd.get(f['shape']):
                ck.finding(f['what'])
        pool = gen.single_pool(ck.seed, deep) + gen.compound_pool(ck.seed, 1200 if deep else 150)
        n, bad = J.judge(pool)
        ck.bounded.append(dict(part='conditions through the real generator, the emitted expression proved equivalent (z3, all operand sets)', cases=n, left_open=J.open,
                               bound='every operand x modulus x operator with list shapes up to 6 items; sampled and/or structures up to 12 x 11'))
        return bad[:20]
    return ck.finish(bounded)


def c14(pid):
    ck = Check(pid)
    ck.trust(*LIB_TRUST)
    ck.trust(READ, QUOTE)
    ck.assume(*ASSUME_COMMON)
    ck.assume('locale keys: language 2-8 letters, optional script, optional region, no variants, no `und`, distinct as identifiers',
              'version: a decimal number below 2^63', FMT, LOOP, *TABLE)
    g = gen.Generator()
    tabvc.tables_check(ck, g)

    def bounded(ck, parts):
        deep = bool(ck.undecideds or ck.failed or ck.tier == 'thorough')
        cs = gentab.table_cases(ck.seed, 400 if deep else 60)
        bad, n = [], 0
        for (res, ver, want), a in zip(cs, g.run([c[0] for c in cs])):
            n += 1
            m = gentab.judge_table(a, ver, want)
            if m:
                bad.append(('resources %s' % [r[:160] for r in res], m))
        k, b2 = gentab.judge_versions(g)
        n, bad = n + k, bad + b2[:5]
        ck.bounded.append(dict(part='random resources through the real generator', cases=n, bound='sampled resources of up to about 100 locales'))
        return bad
    return ck.finish(bounded)


def c15(pid):
    ck = Check(pid)
    ck.trust(*LIB_TRUST)
    ck.trust(READ, QUOTE)
    ck.assume(*ASSUME_COMMON)
    ck.assume('version: a decimal number below 2^63', LOOP, *TABLE[:1],
              'the data of a rule type is turned into its entries without panic (C14: proved there for the resources C14 speaks of)')
    g = gen.Generator()
    tabvc.sequence_check(ck, g)

    def bounded(ck, parts):
        deep = bool(ck.undecideds or ck.failed or ck.tier == 'thorough')
        n, bad = gentab.judge_sequences(g, gentab.sequences(ck.seed, 3000 if deep else 300))
        ck.bounded.append(dict(part='sequences of resources through the real generator', cases=n,
                               bound='all sequences of up to 3 resources over 2 versions x 4 contents; sampled ones up to length 6'))
        n, b2 = gentab.judge_refused(g)
        ck.bounded.append(dict(part='sequences to be refused through the real generator', cases=n, bound='versions of different text, resources that declare none, types given twice (vc/gentab.py refused_sequences)'))
        return bad + b2[:10]
    return ck.finish(bounded)


# ---- C16 ---------------------------------------------------------------------------------------------
def c16(pid):
    ck = Check(pid)
    ck.trust(READ)
    ck.assume(FMT, 'operand sets quantified over: the well-formed ones (cldr.wf)')
    g = gen.Generator()
    try:
        I = Intl(ck)
    except (Unsupported, BuildError) as e:
        ck.undecided('anchors', e)
        I = None
    made = None
    try:
        made = gentab.generated(g)
    except (Unsupported, Undecided, rsx.NotRust) as e:
        ck.undecided('generated table', e)
    if I and made:
        for kind in ('cardinal', 'ordinal'):
            ck.part('%s table' % kind, lambda: shipped(ck, I, kind, made[1].get(gentab.NAME[kind])))
        ck.part('version', lambda: version(ck, I, made[0]))

    def bounded(ck, parts):
        return fallback(ck, g, made)
    return ck.finish(bounded)


def version(ck, I, want):
    f = [f for f in I.prog.fns if f.kind in ('static', 'const') and f.name.split('::')[-1] == 'CLDR_VERSION']
    if len(f) != 1:
        raise Unsupported('CLDR_VERSION: %d candidates' % len(f))
    from mirvc.sym import State
    ex = I.engine()
    ls = ex.run(f[0], [], State())
    v = ex.deep(ls[0].st, ls[0].val)
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v).as_long()
    if v == want:
        ck.ok('CLDR_VERSION is the version of the shipped data')
    else:
        ck.fail('CLDR_VERSION is the version of the shipped data', 'shipped %s, data %s' % (v, want), [
            ('CLDR_VERSION', lambda: None if intl_native(I).ask(['version'])[0] == str(want) else 'CLDR_VERSION is %s, the data is %s' % (v, want))])


def intl_native(I):
    return I.native


def shipped(ck, I, kind, made):
    if made is None:
        ck.fail('%s table' % kind, 'the generator makes no %s table of the shipped data' % kind, [('generator', lambda: 'no table')])
        return
    want = [l for l, _ in made]
    got = gentab.listed(I, kind)

    def order_replay():
        a = I.native.ask(['locales ' + kind])[0].split(' ')[-1].split(',')
        return None if a == want else 'shipped locales %s.. generated %s..' % ([x for x in a if x not in want][:4], [x for x in want if x not in a][:4])
    if got == want:
        ck.ok('%s: the same %d locales in the same order' % (kind, len(want)))
    else:
        ck.fail('%s: the same locales in the same order' % kind, 'only shipped: %s; only generated: %s' % (
            [x for x in got if x not in want][:5], [x for x in want if x not in got][:5]), [('listed locales', order_replay)])
    cache = {}
    for loc, ch in made:
        nm = '%s rule of %s' % (kind, loc)
        if loc not in got:
            continue
        try:
            paths = gentab.shipped_rule(I, kind, loc)
            cats = gentab.chain_cats(ch)
        except (Unsupported, Undecided) as e:
            ck.undecided(nm, e)
            continue
        key = repr(([(k, c, [str(x) for x in pc]) for k, c, pc in paths], ch))
        if key in cache:
            for n in range(cache[key]):
                ck.ok('%s: path %d' % (nm, n), 'z3')
            continue
        bad = False
        for n, (k, c, pc) in enumerate(paths):
            goal = cats.get(c, z3.BoolVal(False)) if k == 'return' else z3.BoolVal(False)
            try:
                m = ck.prove('%s: path %d to %s' % (nm, n, c), gen.WF + pc, goal)
            except Undecided as e:
                ck.undecided(nm, e)
                bad = True
                continue
            if m is not None:
                bad = True
                ck.fail('%s: path %d to %s' % (nm, n, c), 'operands %s' % gen.operands(m), [rule_replay(I, kind, loc, ch, gen.WF + pc + [z3.Not(goal)], m)])
        if not bad:
            cache[key] = len(paths)


def rule_replay(I, kind, loc, ch, cs, m):
    decs = intl.concrete_decimals(cs, {k: gen.O[k] for k in 'ivwft'}, gen.O['n'], m)

    def go():
        return concrete(I.native, kind, loc, ch, decs)
    return ('numbers %s' % decs, go)


def concrete(native, kind, loc, ch, decs):
    from . import cldr
    for d in decs:
        o = cldr.operands_of(d)
        a = native.ask(['sel %s %s str %s' % (kind, loc, hx(d))])[0]
        w = chain_value(ch, o)
        if w != a:
            return '%s %s on %s: shipped rule gives %s, generated rule %s' % (kind, loc, d, a, w)
    return None


def chain_value(ch, o):
    from fractions import Fraction
    M = rsx.Meaning(gen.O)
    sub = [(gen.O[k], z3.IntVal(o[k])) for k in 'ivwft'] + [(gen.O['n'], z3.RealVal(str(Fraction(o['n']))))]
    for c, cat in ch:
        if c is None or z3.is_true(z3.simplify(z3.substitute(M.boolean(c), *sub))):
            return cat


def fallback(ck, g, made):
    """native comparison of the two tables; only for what the proof leaves open"""
    from . import cldr
    from .common import Native
    nat = Native('intl')
    out = []
    if made is None:
        r = g.run([list(gentab.shipped_resources().values())])[0]
        if r[0] != 'ok':
            return [('generator on the shipped data', 'refused: ' + r[1][:200])]
        try:
            made = gentab.tables(r[1])
        except rsx.NotRust as e:
            return [('generator on the shipped data', 'not well-formed: %s' % e)]
    if not (ck.undecideds or ck.tier == 'thorough'):
        return []
    nums = intl.bounded_numbers(ck.seed)
    ops = [(d, cldr.operands_of(d)) for d in nums]
    n = 0
    if nat.ask(['version'])[0] != str(made[0]):
        out.append(('CLDR_VERSION', 'is %s, the data %s' % (nat.ask(['version'])[0], made[0])))
    for kind in ('cardinal', 'ordinal'):
        t = made[1].get(gentab.NAME[kind], [])
        a = nat.ask(['locales ' + kind])[0].split(' ')[-1].split(',')
        if a != [l for l, _ in t]:
            out.append(('locales ' + kind, 'shipped and generated tables list different locales or orders'))
        cases, cache = [], {}
        for loc, ch in t:
            k = repr(ch)
            if k not in cache:
                f = pyfun(ch)
                cache[k] = [f(o) for _, o in ops]
            cases += [('sel %s %s str %s' % (kind, loc, hx(d)), isin({w})) for (d, _), w in zip(ops, cache[k])]
        n += len(cases)
        out += run_cases(type('N', (), dict(native=nat)), cases)
    ck.bounded.append(dict(part='native comparison of shipped and generated rules', cases=n, bound='%d numbers per locale' % len(nums)))
    return out[:20]


def pyfun(ch):
    """evaluator of a chain on concrete operands"""
    def ev(e, o):
        k = e[0]
        if k in ('paren', 'block'):
            return ev(e[1], o)
        if k == 'num':
            return e[1]
        if k == 'float':
            return e[1][0] + (float('0.' + e[1][1]) if e[1][1].strip('0') else 0)
        if k == 'bool':
            return e[1]
        if k == 'field':
            return o[e[2]]
        if k == 'un':
            v = ev(e[2], o)
            return (not v) if e[1] == '!' else v
        if k == 'range':
            return (ev(e[1], o), ev(e[2], o), e[3])
        if k == 'call':
            lo, hi, inc = ev(e[1], o)
            x = ev(e[3][0], o)
            return lo <= x and (x <= hi if inc else x < hi)
        if k == 'bin':
            a, b = ev(e[2], o), ev(e[3], o)
            return {'&&': lambda: a and b, '||': lambda: a or b, '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                    '>': lambda: a > b, '>=': lambda: a >= b, '%': lambda: a % b}[e[1]]()
        raise Unsupported('expression ' + k)

    def f(o):
        for c, cat in ch:
            if c is None or ev(c, o):
                return cat
    return f


# ---- C17 ---------------------------------------------------------------------------------------------
def c17(pid):
    ck = Check(pid)
    ck.trust(*LIB_TRUST)
    ck.trust('std::fs, std::io::Write, std::process: assumed contracts over a ghost trace of effects (vc/toolvc.py); create truncates, write_all writes all or fails',
             'clap 2: the declared arguments are parsed as declared; an argument list it rejects never reaches the rest of main',
             'rustfmt (external program): formats the file it is given')
    ck.assume(*ASSUME_COMMON)
    ck.assume(LOOP, 'nobody else changes the files while the tool runs', 'input paths contain no comma (the argument parser separates values there)')
    memo = []

    def judged():
        if not memo:
            memo.append(tool.judge(tool.cases()))
        return memo[0]
    toolvc.check(ck, judged)

    def bounded(ck, parts):
        n, bad = judged()
        ck.bounded.append(dict(part='the real tool in a scratch directory: argument forms, refused and unreadable input, short and failing writes, missing rustfmt', cases=n,
                               bound='the scenarios of vc/tool.py'))
        return bad[:20]
    return ck.finish(bounded)


CHECKS = dict(C13=c13, C14=c14, C15=c15, C16=c16, C17=c17)
