"""Crate make_pluralrules: what the generator has to emit (UTS #35), and the comparison of emitted code with it."""
import json, random, re
import z3
from .common import Native, Undecided
from mirvc.mir import Unsupported
from . import rsx, pgram, cldr, lits

B53 = 2 ** 53
O = dict(i=z3.Int('i'), v=z3.Int('v'), w=z3.Int('w'), f=z3.Int('f'), t=z3.Int('t'), n=z3.Real('n'))
WF = cldr.wf(O, O['n'])
NEG = {'NotEQ', 'IsNot', 'NotIn', 'NotWithin'}
WITHIN = {'Within', 'NotWithin'}
CATS = ['zero', 'one', 'two', 'few', 'many']
ALLCATS = CATS + ['other']


# ---- meaning of a relation ---------------------------------------------------------------------------
def rem(a, m):
    return a % m if isinstance(m, int) else rsx.REM(a, m)


def item_uts(x, m, op, it):
    """does the (modulo) operand lie in one item?  it: ('v', k) | ('r', lo, hi)"""
    lo, hi = (it[1], it[1]) if it[0] == 'v' else (it[1], it[2])
    base = O['i'] if x == 'n' else O[x]
    if m is not None:
        base = rem(base, m)
    whole = O['f'] == 0 if x == 'n' else z3.BoolVal(True)
    if op in WITHIN and x == 'n':
        return z3.And(base >= lo, z3.Or(base < hi, z3.And(base == hi, whole)))
    return z3.And(whole, base >= lo, base <= hi)


def item_dev(x, m, op, it):
    """the recorded reading (known_findings.json, C13) of one item of a relation on n, without `within`; already negated if op is"""
    neg = op in NEG
    if it[0] == 'v':
        if m is None:
            c = z3.And(O['i'] == it[1], O['f'] == 0)
        else:
            c = rem(O['i'], m) == it[1]
        return z3.Not(c) if neg else c
    c = z3.And(O['i'] >= it[1], O['i'] <= it[2])
    if neg:
        c = z3.Not(c)
    return z3.And(c, O['f'] == 0) if m is None else c


def within_dev(x, m, op, lo, hi):
    """the recorded reading of within / not within a range"""
    if x == 'n':
        b = O['n'] if m is None else rem(O['i'], m)
    else:
        b = O[x] if m is None else rem(O[x], m)
    return z3.And(lo > b, b > hi) if op in NEG else z3.And(lo <= b, b <= hi)


def shape(x, m, op, items):
    """name of the recorded deviation a relation falls under, or None"""
    if op in WITHIN:
        if op == 'NotWithin':
            return 'not within'
        if len(items) != 1 or items[0][0] != 'r':
            return 'within list'
        return 'within n mod' if x == 'n' and m is not None else None
    if x != 'n':
        return None
    if m is not None:
        return 'n mod'
    if op in NEG and any(i[0] == 'r' for i in items):
        return 'n != range'
    return None


def rel_uts(x, m, op, items):
    r = z3.Or(*[item_uts(x, m, op, i) for i in items])
    return z3.Not(r) if op in NEG else r


def rel_dev(x, m, op, items):
    if op in WITHIN:
        rs = [i for i in items if i[0] == 'r']
        return within_dev(x, m, op, rs[0][1], rs[0][2]) if rs else None        # None: refused
    if x != 'n':
        return rel_uts(x, m, op, items)
    parts = [item_dev(x, m, op, i) for i in items]
    return z3.And(*parts) if op in NEG else z3.Or(*parts)


# ---- syntax trees (vc/pgram.py) ----------------------------------------------------------------------
def fields(s):
    return dict(s[2])


def relation(t):
    """tree -> (operand, modulus, operator, items)"""
    f = fields(t)
    e = fields(f['expression'])
    m = e['modulus']
    m = None if m[1] == 'Option::None' else m[2][0][2][0][2][0]
    its = []
    for it in f['range_list'][2][0][1]:
        if it[1].endswith('::Range'):
            r = fields(it[2][0])
            its.append(('r', r['lower_val'][2][0], r['upper_val'][2][0]))
        else:
            its.append(('v', it[2][0][2][0]))
    return e['operand'][1].split('::')[1].lower(), m, f['operator'][1].split('::')[1], its


def relations(cond):
    """tree of a condition -> list of lists of relations"""
    return [[relation(r) for r in a[2][0][1]] for a in cond[2][0][1]]


OPTEXT = {'EQ': ' = ', 'NotEQ': ' != ', 'Is': ' is ', 'IsNot': ' is not ', 'In': ' in ', 'NotIn': ' not in ', 'Within': ' within ',
          'NotWithin': ' not within '}


def text_of(rels):
    def item(i):
        return str(i[1]) if i[0] == 'v' else '%d..%d' % (i[1], i[2])
    return ' or '.join(' and '.join(x + ('' if m is None else ' % ' + str(m)) + OPTEXT[op] + ','.join(map(item, its))
                                    for x, m, op, its in a) for a in rels)


# ---- resources and the real generator ----------------------------------------------------------------
def resource(version='37', cardinal=None, ordinal=None):
    d = dict(version=dict(_unicodeVersion='12.1.0', _cldrVersion=version))
    if cardinal is not None:
        d['plurals-type-cardinal'] = cardinal
    if ordinal is not None:
        d['plurals-type-ordinal'] = ordinal
    return json.dumps(dict(supplemental=d))


def rules(**kw):
    return {'pluralRule-count-' + k: v for k, v in kw.items()}


class Generator:
    def __init__(self):
        self.native = Native('gen')

    def run(self, requests):
        """requests: lists of resource texts -> list of ('ok', code) | ('panic', message)"""
        out = []
        for a in self.native.ask(['gen ' + ' '.join(r.encode().hex() or '-' for r in q) for q in requests]):
            k, _, h = a.partition(' ')
            if k not in ('ok', 'panic'):
                raise Undecided('generator answered ' + a[:80])
            out.append((k, bytes.fromhex(h).decode()))
        return out

    def emitted(self, conds):
        """condition texts -> list of ast | ('refused', message) | NotRust"""
        locs = keys(len(conds))
        out = [None] * len(conds)

        def go(lo, hi):
            if lo >= hi:
                return
            r = self.run([[resource('37', {locs[k]: rules(one=conds[k]) for k in range(lo, hi)})]])[0]
            if r[0] == 'panic':
                if hi - lo == 1:
                    out[lo] = ('refused', r[1])
                    return
                mid = (lo + hi) // 2
                go(lo, mid); go(mid, hi)
                return
            try:
                es = [rsx.entry(e) for e in rsx.commas(rsx.items(rsx.lex(r[1]))['tables']['PRS_CARDINAL'])]
            except (rsx.NotRust, KeyError) as x:
                if hi - lo == 1:
                    out[lo] = rsx.NotRust(str(x))
                    return
                mid = (lo + hi) // 2
                go(lo, mid); go(mid, hi)
                return
            if len(es) != hi - lo:
                raise Undecided('entries lost')
            for k, (key, body) in zip(range(lo, hi), es):
                try:
                    c = rsx.chain(body)
                    if len(c) != 2 or c[0][1] != 'one' or c[1] != (None, 'other'):
                        raise Undecided('rule body of another form')
                    out[k] = c[0][0]
                except rsx.NotRust as x:
                    out[k] = x
        step = 400
        for lo in range(0, len(conds), step):
            go(lo, min(len(conds), lo + step))
        return out


def keys(n):
    """n locale names in the order of the generated table"""
    import itertools
    out = []
    for a in itertools.product('abcdefghijklmnopqrstuvwxyz', repeat=3):
        out.append(''.join(a))
        if len(out) == n:
            return out
    raise ValueError(n)


class Point:
    """a concrete operand set, used like a model"""

    def __init__(self, sub):
        self.sub = sub

    def eval(self, t, model_completion=True):
        return z3.simplify(z3.substitute(t, *self.sub))


def points(*fs):
    """operand sets around the constants of the formulas"""
    ks, seen, todo = set(), set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_int_value(t) or z3.is_rational_value(t) and t.as_fraction().denominator == 1:
            ks.add(int(t.as_fraction()) if not z3.is_int_value(t) else t.as_long())
        todo += t.children()
    ks = sorted(k + d for k in list(ks)[:40] for d in (-1, 0, 1) if 0 <= k + d < B53)
    out = []
    for k in ks:
        out.append(cldr.operands_of(str(k)))
        if k < 10 ** 9:
            out += [cldr.operands_of('%d.%s' % (k, f)) for f in ('0', '5', '10')] + [cldr.operands_of('0.%d' % k)]
    return [o for o in out if o]


def equal(a, b, secs=20):
    """-> None if equivalent for all operand sets, else a model"""
    from fractions import Fraction
    d = a != b
    for t in (2, secs):
        s = z3.Solver(); s.set('timeout', t * 1000)
        s.add(*WF)
        s.add(d)
        r = s.check()
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return s.model()
        for o in points(a, b) if t == 2 else ():
            p = Point([(O[k], z3.IntVal(o[k])) for k in 'ivwft'] + [(O['n'], z3.RealVal(str(Fraction(o['n']))))])
            if z3.is_true(p.eval(d)):
                return p
    raise Undecided('solver')


def operands(m):
    return ' '.join('%s=%s' % (k, m.eval(O[k], model_completion=True)) for k in ('n', 'i', 'v', 'w', 'f', 't'))


class Judge:
    """decides for concrete conditions whether the emitted expression has the meaning of the condition"""

    def __init__(self):
        self.g = Generator()
        self.reading = None
        self.open = 0                                 # conditions left undecided

    PROBES = {'n mod': [[('n', 100, 'EQ', [('r', 3, 10)])], [('n', 10, 'EQ', [('v', 3)])], [('n', 10, 'NotEQ', [('r', 3, 4)])]],
              'n != range': [[('n', None, 'NotEQ', [('r', 2, 5)])]],
              'not within': [[('i', None, 'NotWithin', [('r', 8, 9)])]],
              'within list': [[('n', None, 'Within', [('r', 2, 3), ('r', 5, 6)])]],
              'within n mod': [[('n', 10, 'Within', [('r', 1, 2)])]]}

    def probe(self):
        """which of the recorded deviations does the current tree show?"""
        if self.reading is None:
            self.reading = {}
            for nm, ps in self.PROBES.items():
                es = self.g.emitted([text_of([p]) for p in ps])
                self.reading[nm] = any(isinstance(e, tuple) and e[0] != 'refused' and self.differs(e, rel_uts(*p[0])) for e, p in zip(es, ps))
        return self.reading

    def differs(self, e, want):
        try:
            return equal(rsx.Meaning(O).boolean(e), want) is not None
        except rsx.NotRust:
            return True
        except (Undecided, Unsupported):
            return False

    def expected(self, rels):
        rd = self.probe()
        ors = []
        for a in rels:
            ands = []
            for r in a:
                s = shape(*r)
                if s and rd.get(s):
                    d = rel_dev(*r)
                    if d is None:
                        return None
                    ands.append(d)
                else:
                    ands.append(rel_uts(*r))
            ors.append(z3.And(*ands))
        return z3.Or(*ors)

    def judge(self, pool):
        """pool: list of relation lists -> (cases, [(text, mismatch)])"""
        texts = [text_of(r) for r in pool]
        out, n = [], 0
        for rels, t, e in zip(pool, texts, self.g.emitted(texts)):
            want = self.expected(rels)
            if isinstance(e, tuple) and e[0] == 'refused':
                if not any(shape(*r) == 'within list' for a in rels for r in a):
                    out.append((t, 'a well-formed condition is refused: ' + e[1][:120]))
                continue
            if want is None:
                continue
            n += 1
            if isinstance(e, rsx.NotRust):
                out.append((t, 'the emitted code does not compile: %s' % e))
                continue
            try:
                m = equal(rsx.Meaning(O).boolean(e), want)
            except rsx.NotRust as x:
                out.append((t, 'the emitted code does not compile: %s' % x))
                continue
            except (Undecided, Unsupported):
                self.open += 1
                n -= 1
                continue
            if m is not None:
                v = m.eval(want, model_completion=True)
                out.append((t, 'for operands %s the emitted code is %s' % (operands(m), z3.is_false(v))))
        return n, out


# ---- conditions --------------------------------------------------------------------------------------
NUMS = [0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 14, 19, 20, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 32768, 65535, 65536, 65537, 1000000,
        2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 2 ** 53 - 1]


def number(rnd, big):
    return rnd.choice(NUMS[:18] if not big else NUMS)


def rnd_items(rnd, shape_, big):
    out = []
    for c in shape_:
        a = number(rnd, big)
        if c == 'v':
            out.append(('v', a))
        else:
            b = number(rnd, big)
            if rnd.random() < .93:
                a, b = min(a, b), max(a, b)
            out.append(('r', a, b))
    return out


SHAPES = ['v', 'r', 'vv', 'rr', 'vr', 'rv', 'vvv', 'vrv', 'rvr', 'rvv', 'vvrr', 'rrr', 'vvvvvv']


def single_pool(seed, thorough=False):
    """every operand x modulus x operator x list shape"""
    rnd = random.Random(seed)
    out = []
    for x in 'nivwft':
        for m in (None, 10):
            for op in OPTEXT:
                for k, s in enumerate(SHAPES):
                    if op in WITHIN and 'r' not in s:
                        continue
                    if not thorough and k > 5 and rnd.random() < .6:
                        continue
                    mm = m if m is None else rnd.choice([1, 2, 7, 10, 10, 100, 100, 1000, 65536, 1000000, 2 ** 32, 10 ** 12])
                    out.append([[(x, mm, op, rnd_items(rnd, s, rnd.random() < .4))]])
    for big in NUMS + [2 ** 63, 2 ** 64 - 1]:
        for x in 'nivwft':
            if x == 'n' and big >= B53:
                continue
            out.append([[(x, None, 'EQ', [('v', big)])]])
            out.append([[(x, None, 'NotEQ', [('v', 1), ('r', big // 2, big)])]])
        out.append([[('i', max(1, big), 'EQ', [('v', 1)])]])
    if thorough:
        for k in lits.around('make_pluralrules', 2 ** 53 - 2):
            for x in 'nif':
                out += [[[(x, None, 'EQ', [('v', k)])]], [[(x, None, 'NotEQ', [('r', k, k + 1)])]], [[(x, None, 'In', [('r', 1, max(1, k)), ('v', k)])]]]
            out += [[[('i', max(1, k), 'EQ', [('v', 1), ('r', 3, 5)])]], [[('n', None, 'Within', [('r', 0, k)])]]]
        for k in [16, 33, 64, 65] + [x for x in lits.around('make_pluralrules', 200) if x > 0]:
            for x in 'nf':
                for op in ('EQ', 'NotEQ'):
                    out += [[[(x, None, op, [('v', 2 * j) for j in range(k)])]], [[(x, None, op, [('r', 4 * j, 4 * j + 1) for j in range(k)])]]]
            out += [[[('i', None, 'NotEQ', [('v', j)]) for j in range(k)]], [[('i', None, 'EQ', [('v', j)])] for j in range(k)]]
    return out


def compound_pool(seed, n):
    rnd = random.Random(seed + 1)
    out = []
    for k in range(n):
        ors = []
        for _ in range(rnd.choice([1, 1, 2, 2, 3, 4 if k % 9 else 12])):
            ands = []
            for _ in range(rnd.choice([1, 2, 2, 3, 4 if k % 7 else 11])):
                op = rnd.choice(list(OPTEXT)) if rnd.random() < .5 else rnd.choice(['EQ', 'NotEQ'])
                s = 'r' if op in WITHIN else rnd.choice(SHAPES if k % 5 else ['v' * rnd.randrange(1, 20), 'r' * rnd.randrange(1, 12)])
                m = rnd.choice([None, None, 10, 100, 1000000])
                ands.append((rnd.choice('nivwft'), m, op, rnd_items(rnd, s, rnd.random() < .2)))
            ors.append(ands)
        out.append(ors)
        if k % 2:
            out.append(alike(rnd))
    return out


def alike(rnd):
    """a condition of few different parts: repeated relations, the same with another operator, neighbouring and overlapping ranges"""
    xs = rnd.sample('nivwft', rnd.choice([1, 1, 2]))
    ms = rnd.choice([[None], [None], [10], [None, 10], [10, 100]])
    ops = rnd.choice([['EQ', 'NotEQ'], ['EQ', 'NotEQ'], ['EQ'], ['NotEQ'], ['EQ', 'In', 'Is'], ['In', 'NotIn'], ['Is', 'IsNot', 'EQ'], ['EQ', 'Within'], ['NotEQ', 'NotIn']])
    a = rnd.choice([0, 1, 2, 5, 10, 99, 1000])
    lists = []
    for _ in range(rnd.choice([1, 2, 3])):
        b, its = a, []
        for _ in range(rnd.choice([1, 1, 2, 3, 4])):
            if rnd.random() < .5:
                its.append(('v', b))
                b += rnd.choice([0, 1, 1, 2, 3])
            else:
                w = rnd.choice([0, 1, 2, 5])
                its.append(('r', b, b + w))
                b += w + rnd.choice([-1, 0, 1, 1, 2, 3])
                b = max(b, 0)
        if rnd.random() < .2:
            rnd.shuffle(its)
        lists.append(its)
    ors = []
    for _ in range(rnd.choice([1, 1, 2, 3])):
        ands = []
        for _ in range(rnd.choice([1, 2, 2, 3, 4])):
            op = rnd.choice(ops)
            its = rnd.choice(lists)
            if op in WITHIN:
                its = [('r', a, a + rnd.choice([0, 1, 3]))]
            ands.append((rnd.choice(xs), rnd.choice(ms), op, its))
        ors.append(ands)
    return ors
