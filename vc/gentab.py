"""Crate make_pluralrules: resources, the tables generated from them, and the shipped table (C14 - C16)."""
import itertools, json, os, random, re, time
import z3
from .common import Undecided, REPO
from .intl import order_key, raw_text, Intl, leaf_cat
from mirvc.sym import Ref, State, Agg
from mirvc.mir import Unsupported
from . import rsx, gen, cldr, lits

NAME = dict(cardinal='PRS_CARDINAL', ordinal='PRS_ORDINAL')


# ---- reading a generated file ------------------------------------------------------------------------
def table(toks):
    """-> list of (locale text, [(condition ast or None, category)])"""
    out = []
    for e in rsx.commas(toks):
        key, body = rsx.entry(e)
        if len(key) != 3:
            raise rsx.NotRust('key with %d parts' % len(key))
        lang, scr, reg = rsx.subtag(key[0], 'Language', False), rsx.subtag(key[1], 'Script', True), rsx.subtag(key[2], 'Region', True)
        for t, suf in ((lang, ('', 'u64')), (scr, ('', 'u32')), (reg, ('', 'u32'))):
            if t is not None and t[2] not in suf:
                raise rsx.NotRust('raw subtag with suffix ' + t[2])
        if lang is None:
            raise rsx.NotRust('key without language')
        loc = '-'.join(raw_text(t[1]) for t in (lang, scr, reg) if t is not None)
        # parts of the wrong kind (a region given as script ..) do not decode to the identifier
        if scr is not None and len(raw_text(scr[1])) != 4 or reg is not None and len(raw_text(reg[1])) not in (2, 3):
            loc += ' (misplaced subtag)'
        out.append((loc, rsx.chain(body)))
    return out


def tables(code):
    it = rsx.items(rsx.lex(code))
    return it['version'], {k: table(v) for k, v in it['tables'].items()}


# ---- C14: resources ----------------------------------------------------------------------------------
def from_source(rnd, pat, f):
    ts = [f(t) for t in lits.literals('make_pluralrules')[1] if re.match(pat, f(t))]
    return rnd.choice(ts) if ts and rnd.random() < .15 else None


def rnd_locale(rnd):
    loc = rnd_locale0(rnd).split('-')
    loc[0] = from_source(rnd, r'^([a-z]{2,3}|[a-z]{5,8})$', str.lower) or loc[0]
    for k in range(1, len(loc)):
        if len(loc[k]) == 4:
            loc[k] = from_source(rnd, r'^[A-Z][a-z]{3}$', str.capitalize) or loc[k]
        else:
            loc[k] = from_source(rnd, r'^([A-Z]{2}|[0-9]{3})$', str.upper) or loc[k]
    return '-'.join(loc)


def rnd_locale0(rnd):
    lang = ''.join(rnd.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(rnd.choice([2, 2, 2, 3, 3, 5, 6, 7, 8])))
    loc = lang
    if rnd.random() < .35:
        loc += '-' + ''.join(rnd.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(4)).capitalize()
    if rnd.random() < .4:
        loc += '-' + (''.join(rnd.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(2)) if rnd.random() < .7
                      else ''.join(rnd.choice('0123456789') for _ in range(3)))
    return loc


def marker(k):
    """the k-th of a family of pairwise disjoint conditions"""
    return 'i = %d and v = 0' % (1000 + k), [[('i', None, 'EQ', [('v', 1000 + k)]), ('v', None, 'EQ', [('v', 0)])]]


def rnd_table(rnd, n, base):
    """-> (json map, {locale: {category: rels}})"""
    locs = set()
    while len(locs) < n:
        l = rnd_locale(rnd)
        if l not in ('root', 'und') and not l.startswith(('root-', 'und-')):
            locs.add(l)
            if rnd.random() < .5:                            # neighbours in the order: same prefix, further subtags
                for x in ('-' + rnd.choice(['Latn', 'Cyrl', 'Arab']), '-' + rnd.choice(['US', 'PT', '419', 'AA', 'ZZ']), '-Latn-US', '-Latn-GB'):
                    if rnd.random() < .6:
                        locs.add(l.split('-')[0] + x)
    js, want = {}, {}
    if rnd.random() < .5:
        js['root'] = gen.rules(other='')
    ls = list(locs)
    rnd.shuffle(ls)
    for l in ls:
        cs = [c for c in gen.CATS if rnd.random() < rnd.choice([.2, .5, .9])]
        if rnd.random() < .1:
            cs = list(gen.CATS)
        if rnd.random() < .1:
            cs = []
        d, w = {}, {}
        for c in cs:
            t, rel = marker(base[0]); base[0] += 1
            d[c], w[c] = t + (rnd.choice(['', ' @integer 1, 3~5', ' @decimal 1.0~1.5, …', ' @integer 2 @decimal 1.0'])), rel
        if rnd.random() < .8:
            d['other'] = rnd.choice(['', ' @integer 0, 2~16, 100, 1000, … @decimal 0.0, 2.0'])
        items = list(d.items())
        rnd.shuffle(items)
        js[l] = gen.rules(**dict(items))
        want[l] = w
    return js, want


def shipped_like():
    """the CLDR 37 data as a resource"""
    out = {}
    for k in ('cardinal', 'ordinal'):
        out[k] = {l: {c: cldr.parse_rule(t) for c, t in r.items() if c != 'other'} for l, r in cldr.load(k).items()}
    return out


def table_cases(seed, n):
    """-> list of (resources, version, {type: {locale: {cat: rels}}})"""
    rnd = random.Random(seed + 14)
    out = []
    base = [0]
    for k in range(n):
        ver = str(rnd.choice([0, 1, 33, 37, 38, 40, 100, 999, 65536, 2 ** 31, 2 ** 40]))
        size = rnd.choice([0, 1, 1, 2, 3, 5, 12, 40])
        if n >= 200 and k % 5 == 4:                          # numbers of the source as version and as size
            ver = str(rnd.choice(lits.around('make_pluralrules', 2 ** 63 - 1)))
            size = rnd.choice(lits.around('make_pluralrules', 300))
        kinds = rnd.choice([('cardinal',), ('ordinal',), ('cardinal', 'ordinal')])
        data, want = {}, {}
        for t in kinds:
            data[t], want[t] = rnd_table(rnd, size, base)
        if len(kinds) == 2 and rnd.random() < .5:
            ts = list(kinds)
            rnd.shuffle(ts)
            res = [gen.resource(ver, **{t: data[t]}) for t in ts]
        else:
            res = [gen.resource(ver, **data)]
        if rnd.random() < .2:
            res.insert(rnd.randrange(len(res) + 1), gen.resource(ver))
        out.append((res, ver, want))
    return out


def judge_table(answer, ver, want):
    """-> mismatch or None"""
    if answer[0] != 'ok':
        return 'refused: ' + answer[1][:120]
    try:
        v, ts = tables(answer[1])
    except rsx.NotRust as e:
        return 'the generated code is not well formed: %s' % e
    if v != int(ver):
        return 'CLDR version %s recorded for a resource of version %s' % (v, ver)
    if set(ts) != {NAME[t] for t in want}:
        return 'tables %s for resources with %s' % (sorted(ts), sorted(want))
    for t, locs in want.items():
        got = ts[NAME[t]]
        names = [l for l, _ in got]
        if sorted(names) != sorted(locs):
            return '%s: locales missing %s, extra %s' % (t, sorted(set(locs) - set(names))[:4], [x for x in names if x not in locs or names.count(x) > 1][:4])
        for a, b in zip(names, names[1:]):
            if not order_key(a) < order_key(b):
                return '%s: %s is listed before %s' % (t, a, b)
        for l, ch in got:
            m = judge_chain(ch, locs[l])
            if m:
                return '%s %s: %s' % (t, l, m)
    return None


def judge_chain(ch, want):
    """the chain gives category c exactly where want[c] holds (conditions pairwise disjoint), other elsewhere"""
    M = rsx.Meaning(gen.O)
    before = []
    got = {}
    for c, cat in ch:
        z = z3.BoolVal(True) if c is None else M.boolean(c)
        got.setdefault(cat, []).append(z3.And(z, *[z3.Not(b) for b in before]))
        if c is not None:
            before.append(z)
    anyw = []
    for c, rels in want.items():
        z = z3.Or(*[z3.And(*[gen.rel_uts(*r) for r in a]) for a in rels])
        anyw.append(z)
        if fast(ch, c, rels):
            continue
        m = gen.equal(z3.Or(*got.get(c, [z3.BoolVal(False)])), z)
        if m is not None:
            return 'for operands %s the table does not give the category listed (%s)' % (gen.operands(m), c)
    if ch[-1] != (None, 'other') or any(cat not in want for _, cat in ch[:-1]) or len(ch) != len(want) + 1:
        m = gen.equal(z3.Or(*got.get('other', [z3.BoolVal(False)])), z3.Not(z3.Or(*anyw)))
        if m is not None:
            return 'for operands %s: category other expected' % gen.operands(m)
    return None


def fast(ch, c, rels):
    """the marker condition is there as written, guarded by other markers only"""
    k = rels[0][0][3][0][1]
    hit = [e for e, cat in ch if cat == c]
    return len(hit) == 1 and all(is_marker(e) for e, _ in ch[:-1]) and is_marker(hit[0]) == k and len({is_marker(e) for e, _ in ch[:-1]}) == len(ch) - 1


def is_marker(e):
    while e is not None and e[0] == 'paren':
        e = e[1]
    try:
        (b, op, x, y) = e
        if (b, op) != ('bin', '&&') or y != ('bin', '==', ('field', ('path', ('po',)), 'v'), ('num', 0, '')):
            return None
        if x[:3] == ('bin', '==', ('field', ('path', ('po',)), 'i')) and x[3][0] == 'num':
            return x[3][1]
    except Exception:
        pass
    return None


# ---- C15: sequences of resources ---------------------------------------------------------------------
DATA = [{'en': gen.rules(one='i = 1 and v = 0', other='')}, {'fr': gen.rules(one='i = 0,1', other=''), 'root': gen.rules(other='')}, {}]
WANT = [{'en': {'one': [[('i', None, 'EQ', [('v', 1)]), ('v', None, 'EQ', [('v', 0)])]]}}, {'fr': {'one': [[('i', None, 'EQ', [('v', 0), ('v', 1)])]]}}, {}]
KINDS = [(v, c, o) for v in ('37', '38') for c in (None, 0) for o in (None, 0)]


def admissible(seq):
    """seq of (version, cardinal data or None, ordinal data or None)"""
    return (len({v for v, _, _ in seq}) == 1 and sum(c is not None for _, c, _ in seq) <= 1 and sum(o is not None for _, _, o in seq) <= 1
            and any(c is not None or o is not None for _, c, o in seq))


def sequences(seed, n):
    out = []
    for k in range(0, 4):
        out += list(itertools.product(KINDS, repeat=k))
    rnd = random.Random(seed + 15)
    for _ in range(n):
        s = []
        vers = rnd.choice([['37'], ['37'], ['37', '38'], ['1', '2', '10'], ['3', '33', '337'], ['40', '4', '400']])
        p = rnd.choice([.1, .3, .6])
        for _ in range(rnd.randrange(0, 7)):
            s.append((rnd.choice(vers) if rnd.random() < .3 else vers[0], rnd.randrange(3) if rnd.random() < p else None, rnd.randrange(3) if rnd.random() < p else None))
        out.append(tuple(s))
    if n >= 1000:                                            # numbers of the source as lengths and versions
        ks = lits.around('make_pluralrules', 70)
        vs = lits.around('make_pluralrules', 2 ** 63 - 1)
        for k in [8, 9, 16, 17, 32, 33, 64, 65] + ks:
            e = [('37', None, None)] * k
            out += [tuple(e), tuple(e + [('37', 1, None)]), tuple([('37', 1, None)] + e + [('37', 1, None)]), tuple([('37', None, 1)] + e + [('38', None, None)]),
                    tuple([('37', 1, None)] + e + [('37', None, 2)]), tuple([('37', None, 2)] + e + [('37', 2, None)] + e)]
        for v in vs:
            out += [((str(v), 1, None), (str(v + 1), None, None)), ((str(v), 1, None), (str(v), None, 1)), (('37', 1, None), (str(v), None, 1)), ((str(v), None, None),), ((str(v), None, 1), ('37', 1, None))]
    return out


def judge_versions(g):
    """versions that are not whole numbers: no output -> (number of cases, [(description, mismatch)])"""
    vs = ['', ' ', 'abc', '37.1', '37.0', '37a', ' 37', '37 ', '3 7', 'v37', '0x25', '1e2', '37-beta', '\u0663\u0667', '37.', '.37', '3_7', '37\n', '--37', '+', '-', 'NaN']
    vs += [t for t in lits.literals('make_pluralrules')[1] if not re.match(r'^[+-]?[0-9]+$', t)] + ['37' + t for t in lits.literals('make_pluralrules')[1] if not t.isdigit()]
    cs = []
    for v in vs:
        cs += [[gen.resource(v, DATA[1])], [gen.resource(v, None, DATA[1])], [gen.resource(v, DATA[1]), gen.resource(v, None, DATA[2])]]
    bad = []
    for c, a in zip(cs, g.run(cs)):
        if a[0] == 'ok':
            bad.append(('resources %s' % [r[:200] for r in c], 'output is produced although the version is no number'))
    return len(cs), bad


def refused_sequences():
    """sequences of resource texts that are to be refused: versions that differ in their text, resources that declare none or a type twice, no resources at all"""
    card = lambda v: gen.resource(v, DATA[0])
    ordi = lambda v: gen.resource(v, None, DATA[1])
    none = lambda v: gen.resource(v)
    out = []
    vs = ['037', '+37', '37 ', ' 37', '37.0', '37.1', '37.0.1', '', '3', '370', '137', '73', '37a', '37-beta', '37\t', '0037', '36', '38', '-37', '3 7', '\uff13\uff17', '37\u200b', 'x', 'latest', '0x25', '37e0', '25']
    vs += [t for t in lits.literals('make_pluralrules')[1] if t != '37'] + ['37' + t for t in lits.literals('make_pluralrules')[1]] + [str(k) for k in lits.around('make_pluralrules', 2 ** 63 - 1) if k != 37]
    for v in vs:
        out += [('versions 37 and %r' % v, [card('37'), ordi(v)]), ('versions %r and 37' % v, [ordi(v), card('37')]), ('versions 37, 37 and %r' % v, [card('37'), ordi('37'), none(v)]),
                ('versions 37, %r and 37' % v, [card('37'), none(v), ordi('37')]), ('versions %r, 37 and 37' % v, [none(v), card('37'), ordi('37')]), ('versions 37 and %r' % v, [none('37'), card(v)])]
    c = card('37')

    def sup(f):
        d = json.loads(c)
        f(d['supplemental'])
        return json.dumps(d)
    body = json.dumps(json.loads(c)['supplemental'])
    twice = lambda k, x: '{"supplemental": %s, %s}}' % (body[:-1], '"%s": %s' % (k, json.dumps(x)))
    ver = json.dumps(json.loads(c)['supplemental']['version'])
    raw = {'empty text': '', 'a blank': ' ', 'a line end': '\n', 'null': 'null', 'an empty object': '{}', 'a list': '[]', 'a number': '37', 'a text': '"37"', 'no version': sup(lambda s: s.pop('version')),
           'version null': sup(lambda s: s.update(version=None)), 'an empty version': sup(lambda s: s.update(version={})), 'a version text': sup(lambda s: s.update(version='37')),
           'no CLDR version': sup(lambda s: s['version'].pop('_cldrVersion')), 'CLDR version null': sup(lambda s: s['version'].update(_cldrVersion=None)),
           'another name for the CLDR version': sup(lambda s: s['version'].update(cldrVersion=s['version'].pop('_cldrVersion'))), 'a version in _number only': sup(lambda s: (s['version'].pop('_cldrVersion'), s['version'].update(_number='37'))),
           'no supplemental': json.dumps({'main': json.loads(c)['supplemental']}), 'supplemental null': '{"supplemental": null}', 'supplemental empty': '{"supplemental": {}}', 'cut text': c[:-2], 'text after it': c + ' x',
           'it twice': c + c, 'not text': '\x00', 'comment': '// none',
           'cardinal data twice': twice('plurals-type-cardinal', DATA[0]), 'cardinal data twice, different': twice('plurals-type-cardinal', DATA[1]),
           'the CLDR version twice': c.replace(ver, ver[:-1] + ', "_cldrVersion": "38"}'), 'two versions': twice('version', dict(_unicodeVersion='12.1.0', _cldrVersion='38'))}
    for nm, t in raw.items():
        out += [('%s alone' % nm, [t]), ('%s last' % nm, [ordi('37'), t]), ('%s first' % nm, [t, ordi('37')]), ('%s between' % nm, [none('37'), t, ordi('37')]), ('%s last of four' % nm, [ordi('37'), none('37'), none('37'), t])]
    out += [('no resources', []), ('no data', [none('37')]), ('no data', [none('37')] * 5)]
    for k in (0, 1, 2, 7):
        e = [none('37')] * k
        for x in (0, 1, 2):
            for y in (0, 1, 2):
                out += [('cardinal data twice', [gen.resource('37', DATA[x])] + e + [gen.resource('37', DATA[y])]), ('ordinal data twice', [gen.resource('37', None, DATA[x])] + e + [gen.resource('37', None, DATA[y])]),
                        ('cardinal data twice', [gen.resource('37', DATA[x], DATA[0])] + e + [gen.resource('37', DATA[y])]), ('ordinal data twice', e + [gen.resource('37', None, DATA[x]), gen.resource('37', DATA[0], DATA[y])]),
                        ('both twice', [gen.resource('37', DATA[x], DATA[y])] + e + [gen.resource('37', DATA[x], DATA[y])]),
                        ('both, then again', [gen.resource('37', DATA[0]), gen.resource('37', None, DATA[1])] + e + [gen.resource('37', DATA[x] if x else None, DATA[y])]),
                        ('both, then another version', [gen.resource('37', DATA[x]), gen.resource('37', None, DATA[y])] + e + [none('38')])]
    return out


def judge_refused(g):
    cs = refused_sequences()
    return len(cs), [(d + ': resources %s' % [r[:120] for r in c][:4], 'output is produced') for (d, c), a in zip(cs, g.run([c for _, c in cs])) if a[0] == 'ok']


def judge_sequences(g, seqs):
    reqs = [[gen.resource(v, None if c is None else DATA[c], None if o is None else DATA[o]) for v, c, o in s] for s in seqs]
    bad = []
    for s, a in zip(seqs, g.run(reqs)):
        d = describe(s)
        ok = admissible(s)
        if a[0] == 'ok' and not ok:
            bad.append((d, 'accepted, although ' + why(s)))
        elif a[0] != 'ok' and ok:
            bad.append((d, 'consistent input is refused: ' + a[1][:100]))
        elif ok:
            try:
                v, ts = tables(a[1])
            except rsx.NotRust as e:
                bad.append((d, 'the generated code is not well formed: %s' % e)); continue
            want = {}
            for _, c, o in s:
                if c is not None:
                    want['PRS_CARDINAL'] = sorted(x for x in DATA[c] if x != 'root')
                if o is not None:
                    want['PRS_ORDINAL'] = sorted(x for x in DATA[o] if x != 'root')
            if {k: [l for l, _ in t] for k, t in ts.items()} != want or v != int(s[0][0]):
                bad.append((d, 'the output has version %s and tables %s' % (v, {k: [l for l, _ in t] for k, t in ts.items()})))
    return len(seqs), bad


def why(s):
    if len({v for v, _, _ in s}) > 1:
        return 'the versions differ'
    if not any(c is not None or o is not None for _, c, o in s):
        return 'no resource carries plural data'
    return 'a rule type is given twice'


def describe(s):
    return 'resources [%s]' % ', '.join('%s:%s%s' % (v, '' if c is None else 'cardinal', '' if o is None else '+ordinal') for v, c, o in s)


# ---- C16: the shipped table --------------------------------------------------------------------------
def shipped_resources():
    d = os.path.join(REPO, 'intl_pluralrules', 'cldr_data')
    return {f: open(os.path.join(d, f), encoding='utf-8').read() for f in sorted(os.listdir(d)) if f.endswith('.json')}


def generated(g):
    r = g.run([list(shipped_resources().values())])[0]
    if r[0] != 'ok':
        raise Undecided('the generator refuses the shipped data: ' + r[1][:200])
    return tables(r[1])


def listed(I, kind):
    """locales of the shipped table, in table order (get_locales, evaluated on MIR)"""
    ex = I.engine()
    f = I.assoc('get_locales')
    ls = ex.run(f, [I.prt(kind)], State())
    I.done(ex)
    if len(ls) != 1 or ls[0].kind != 'return':
        raise Unsupported('get_locales')
    v = ex.deep(ls[0].st, ls[0].val)
    if not isinstance(v, Agg) or v.ty not in ('Vec', 'array'):
        raise Unsupported('get_locales returns %r' % (v,))
    from .intl import decode_langid
    return [decode_langid(repr(ex.deep(ls[0].st, x))) for x in v.fs]


def shipped_rule(I, kind, loc):
    """paths of the shipped rule on symbolic operands: [(kind, category, path condition)]"""
    ex0, leaves, code, lang, names = I.create_leaves(kind)
    tab, odd, miss = I.tables(kind)
    if loc not in tab:
        raise Undecided('create does not find ' + loc)
    fi = I.structs['PluralRules'].index('function')
    st0, pr = tab[loc]
    fv = ex0.deep(st0, ex0.deep(st0, pr).fs[fi])
    st = State()
    st.mem.update(st0.mem)
    d, po = I.sym_ops(st)
    st.pc = list(gen.WF)
    ex = I.engine()
    lv = ex.call_value(st, fv, [Ref(st.new(po))])
    I.done(ex)
    return [(l.kind, leaf_cat(ex, l) if l.kind == 'return' else str(l.val), [c for c in l.st.pc[len(gen.WF):] if z3.is_expr(c)]) for l in lv]


def chain_cats(ch):
    """category -> formula of the operand sets the chain gives it to"""
    M = rsx.Meaning(gen.O)
    before, out = [], {}
    for c, cat in ch:
        z = z3.BoolVal(True) if c is None else M.boolean(c)
        out.setdefault(cat, []).append(z3.And(z, *[z3.Not(b) for b in before]))
        if c is not None:
            before.append(z)
    return {k: z3.Or(*v) for k, v in out.items()}
