"""The grammar of plural rules (UTS #35, CLDR 37) used as the specification of the parser.

Two readings of the same grammar:
  K (strict)  -- texts a correct parser has to accept: blanks (space, tab) in the places listed in property C10/C12;
  S (lenient) -- texts a correct parser may accept at all: any white space between tokens.
From the grammar come the regular languages of every symbol (it has no recursion), the languages of what may follow
a symbol, the expected syntax trees, a reference parser (replay oracle) and a generator of texts."""
import re, random
from mirvc import autom as A

# ---- trees: ('T', 'Name', (values..)) tuple struct / variant, ('S', 'Name', ((field, value)..)) struct, ('L', (values..)) list,
#      ints, bools, and whatever the verifier uses for unknown subtrees
def T(name, *vs): return ('T', name, tuple(vs))
def S(name, **fs): return ('S', name, tuple(fs.items()))
def L(*vs): return ('L', tuple(vs))
NONE = T('Option::None')
def SOME(v): return T('Option::Some', v)

OPERANDS = 'nivwft'
SYMBOL_TYPE = {'value': 'Value', 'range': 'Range', 'item': 'RangeListItem', 'rlist': 'RangeList', 'operand': 'Operand',
               'modopt': 'Option<Modulo>', 'expr': 'Expression', 'op': 'Operator', 'rel': 'Relation', 'andc': 'AndCondition',
               'cond': 'Condition', 'dec': 'DecimalValue', 'srange': 'SampleRange', 'slist': 'SampleList',
               'samples': 'Option<Samples>', 'rule': 'Rule'}
TYPE_SYMBOL = {v: k for k, v in SYMBOL_TYPE.items()}


class Prod:
    """elements: ('d',) digits | ('t', (tokens..)) | ('nt', symbol) | ('list', symbol, (separator tokens..))
    tokens: literal text, or B0 / B1 for a run of (at least one) blanks"""

    def __init__(self, name, elems, build):
        self.name, self.elems, self.build = name, elems, build


B0, B1 = ('B0',), ('B1',)
def t(*toks): return ('t', toks)
def nt(s): return ('nt', s)
D = ('d',)
COMMA = (B0, ',', B0)
REL_OPS = [  # text, operator
    ((B0, '=', B0), 'EQ'), ((B0, '!=', B0), 'NotEQ'), ((B1, 'is', B1), 'Is'), ((B1, 'is', B1, 'not', B1), 'IsNot'),
    ((B1, 'in', B1), 'In'), ((B1, 'not', B1, 'in', B1), 'NotIn'), ((B1, 'within', B1), 'Within'),
    ((B1, 'not', B1, 'within', B1), 'NotWithin')]


def _rel(e, o, l):
    return S('Relation', expression=e, operator=T('Operator::' + o), range_list=l)


def _samples(i, d):
    return SOME(S('Samples', integer=i, decimal=d))


def _common():
    g = {}
    g['value'] = [Prod('digits', [D], lambda n: T('Value', n))]
    g['range'] = [Prod('range', [nt('value'), t('..'), nt('value')], lambda a, b: S('Range', lower_val=a, upper_val=b))]
    g['item'] = [Prod('range', [nt('range')], lambda r: T('RangeListItem::Range', r)),
                 Prod('value', [nt('value')], lambda v: T('RangeListItem::Value', v))]
    g['rlist'] = [Prod('list', [('list', 'item', COMMA)], lambda l: T('RangeList', l))]
    g['operand'] = [Prod(c, [t(c)], lambda c=c: T('Operand::' + c.upper())) for c in OPERANDS]
    g['modopt'] = [Prod('none', [], lambda: NONE),
                   Prod('mod', [t(B1, 'mod', B1), nt('value')], lambda v: SOME(T('Modulo', v))),
                   Prod('%', [t(B0, '%', B1), nt('value')], lambda v: SOME(T('Modulo', v)))]
    g['expr'] = [Prod('expr', [nt('operand'), nt('modopt')], lambda o, m: S('Expression', operand=o, modulus=m))]
    g['andc'] = [Prod('and', [('list', 'rel', (B1, 'and', B1))], lambda l: T('AndCondition', l))]
    g['cond'] = [Prod('or', [('list', 'andc', (B1, 'or', B1))], lambda l: T('Condition', l))]
    g['dec'] = [Prod('integer', [nt('value')], lambda v: S('DecimalValue', integer=v, decimal=NONE)),
                Prod('fraction', [nt('value'), t('.'), nt('value')], lambda v, f: S('DecimalValue', integer=v, decimal=SOME(f)))]
    g['srange'] = [Prod('single', [nt('dec')], lambda v: S('SampleRange', lower_val=v, upper_val=NONE)),
                   Prod('tilde', [nt('dec'), t(B0, '~', B0), nt('dec')], lambda a, b: S('SampleRange', lower_val=a, upper_val=SOME(b)))]
    g['slist'] = [Prod('list', [('list', 'srange', COMMA)], lambda l: S('SampleList', sample_ranges=l, ellipsis=False))]
    for e in ('...', '\u2026'):
        g['slist'].append(Prod('list ' + e, [('list', 'srange', COMMA), t(*COMMA, e)], lambda l: S('SampleList', sample_ranges=l, ellipsis=True)))
    I, De = t(B0, '@integer', B1), t(B0, '@decimal', B1)
    smp = [('integer', [I, nt('slist')], lambda a: _samples(SOME(a), NONE)),
           ('decimal', [De, nt('slist')], lambda a: _samples(NONE, SOME(a))),
           ('both', [I, nt('slist'), De, nt('slist')], lambda a, b: _samples(SOME(a), SOME(b)))]
    g['samples'] = [Prod('none', [], lambda: NONE)] + [Prod(*p) for p in smp]
    empty = T('Condition', L())
    g['rule'] = [Prod('condition samples', [nt('cond'), nt('samples')], lambda c, s: S('Rule', condition=c, samples=s)),
                 Prod('nothing', [t(B0)], lambda: S('Rule', condition=empty, samples=NONE))]
    for n, els, b in smp:
        g['rule'].append(Prod('only ' + n, els, lambda *a, b=b: S('Rule', condition=empty, samples=b(*a))))
    return g


def strict():
    g = _common()
    g['rel'] = [Prod(o, [nt('expr'), t(*txt), nt('rlist')], lambda e, l, o=o: _rel(e, o, l)) for txt, o in REL_OPS]
    return g


def lenient():
    g = _common()
    ops = {'EQ': ('=',), 'NotEQ': ('!=',), 'Is': ('is', B0), 'IsNot': ('is', B0, 'not'), 'In': ('in',), 'NotIn': ('not', B0, 'in'),
           'Within': ('within',), 'NotWithin': ('not', B0, 'within')}
    g['op'] = [Prod(o, [t(*txt)], lambda o=o: T('Operator::' + o)) for o, txt in ops.items()]
    g['rel'] = [Prod('relation', [nt('expr'), t(B0), nt('op'), t(B0), nt('rlist')],
                     lambda e, o, l: S('Relation', expression=e, operator=o, range_list=l))]
    g['cond'].append(Prod('absent', [t(B0)], lambda: T('Condition', L())))
    g['rule'] = [Prod('condition samples', [t(B0), nt('cond'), nt('samples'), t(B0)], lambda c, s: S('Rule', condition=c, samples=s))]
    return g


BLANK = A.ch(0x20, 0x09)
_w = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000 and chr(c).isspace() and c not in (0x1c, 0x1d, 0x1e, 0x1f)]
WHITE = A.alt(*[A.lit(chr(c).encode()) for c in _w])            # char::is_whitespace (White_Space)


class Grammar:
    def __init__(self, mode):
        self.mode = mode
        self.p = strict() if mode == 'K' else lenient()
        self._lang, self._rc = {}, {}

    def tok(self, x):
        if x == B0 or x == B1:
            if self.mode == 'S':
                return A.star(WHITE)
            return A.star(BLANK) if x == B0 else A.plus(BLANK)
        return A.lit(x.encode())

    def toks(self, ts):
        return A.compile_re(A.cat(*[self.tok(x) for x in ts]))

    def elem(self, e):
        if e[0] == 'd':
            return A.DIGITS1
        if e[0] == 't':
            return self.toks(e[1])
        if e[0] == 'nt':
            return self.lang(e[1])
        it = self.lang(e[1])
        return A.concat_dfa(it, self.tail(e))

    def tail(self, e):
        """(separator item)*"""
        k = ('tail', e[1], e[2])
        if k not in self._lang:
            self._lang[k] = A.star_dfa(A.concat_dfa(self.toks(e[2]), self.lang(e[1])))
        return self._lang[k]

    def seq(self, elems):
        d = A.compile_re(A.EPS)
        for e in elems:
            d = A.concat_dfa(d, self.elem(e))
        return d

    def lang(self, g):
        if g not in self._lang:
            d = None
            for p in self.p[g]:
                x = self.seq(p.elems)
                d = x if d is None else A.union(d, x)
            self._lang[g] = d
        return self._lang[g]

    def follow(self, g):
        """what may follow symbol g in a complete rule"""
        if g not in self._rc:
            d = A.compile_re(A.EPS) if g == 'rule' else None
            for h, ps in self.p.items():
                for p in ps:
                    for k, e in enumerate(p.elems):
                        if e[0] in ('nt', 'list') and e[1] == g:
                            x = A.concat_dfa(self.seq(p.elems[k + 1:]), self.follow(h))
                            if e[0] == 'list':
                                x = A.concat_dfa(self.tail(e), x)
                            d = x if d is None else A.union(d, x)
            self._rc[g] = d
        return self._rc[g]


# ---- Debug form of a tree, as Rust prints it ---------------------------------------------------------
def debug(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if v[0] == 'L':
        return '[' + ', '.join(debug(x) for x in v[1]) + ']'
    n = v[1].split('::')[-1]
    if v[0] == 'T':
        return n + ('(' + ', '.join(debug(x) for x in v[2]) + ')' if v[2] else '')
    return n + ' { ' + ', '.join('%s: %s' % (k, debug(x)) for k, x in v[2]) + ' }'


# ---- reference parser: all trees of a text under a grammar -------------------------------------------
_WS = '[' + ''.join('\\u%04x' % c for c in _w) + ']*'


class Reference:
    def __init__(self, mode):
        self.g = strict() if mode == 'K' else lenient()
        self.mode = mode
        self.memo = {}

    def rx(self, toks):
        out = ''
        for x in toks:
            if x == B0 or x == B1:
                out += _WS if self.mode == 'S' else '[ \t]*' if x == B0 else '[ \t]+'
            else:
                out += re.escape(x)
        return re.compile(out)

    def sym(self, s, i, g):
        """-> list of (end, tree)"""
        k = (i, g)
        if k not in self.memo:
            out = []
            for p in self.g[g]:
                for e, vs in self.elems(s, i, p.elems):
                    r = (e, p.build(*vs))
                    if r not in out:
                        out.append(r)
            self.memo[k] = out
        return self.memo[k]

    def elems(self, s, i, els):
        if not els:
            return [(i, ())]
        out = []
        for e, v in self.elem(s, i, els[0]):
            for e2, vs in self.elems(s, e, els[1:]):
                out.append((e2, v + vs))
        return out

    def elem(self, s, i, el):
        if el[0] == 'd':
            m = re.compile('[0-9]+').match(s, i)
            if not m:
                return []
            n = int(m.group())
            return [(m.end(), (n,))] if n < 2 ** 64 else []     # maximal: digits never touch digits
        if el[0] == 't':
            # blank runs are maximal in every accepted text except where two runs meet: try every length
            return [(e, ()) for e in self.tok_ends(s, i, el[1])]
        if el[0] == 'nt':
            return [(e, (v,)) for e, v in self.sym(s, i, el[1])]
        out, cur, seen = [], [(e, (v,)) for e, v in self.sym(s, i, el[1])], set()
        while cur:
            nxt = []
            for e, vs in cur:
                out.append((e, (('L', vs),)))
                for e2 in self.tok_ends(s, e, el[2]):
                    for e3, v in self.sym(s, e2, el[1]):
                        nxt.append((e3, vs + (v,)))
            cur = nxt
        return out

    def tok_ends(self, s, i, toks):
        ends = [i]
        for x in toks:
            nx = []
            for e in ends:
                if x == B0 or x == B1:
                    m = re.compile(_WS if self.mode == 'S' else '[ \t]*').match(s, e)
                    nx += list(range(e + (1 if x == B1 and self.mode == 'K' else 0), m.end() + 1))
                elif s.startswith(x, e):
                    nx.append(e + len(x))
            ends = sorted(set(nx))
        return ends

    def parse(self, s, g='rule'):
        self.memo = {}
        r = []
        for e, v in self.sym(s, 0, g):
            if e == len(s) and v not in r:
                r.append(v)
        return r


# ---- generation of strict texts ----------------------------------------------------------------------
NUMS = [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 14, 19, 20, 21, 99, 100, 101, 119, 255, 256, 1000, 65535, 65536, 1000000,
        2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


class Gen:
    def __init__(self, rnd, blanks=True, maxlist=4):
        self.r, self.g, self.blanks, self.maxlist = rnd, strict(), blanks, maxlist
        self.echo, self.memo, self.few = 0, {}, None

    def alike(self):
        """texts of few different parts from now on: parts are repeated, alternatives are few, numbers are near each other"""
        r = self.r
        self.echo = r.choice([.2, .5, .8])
        self.memo = {}
        self.few = {}
        self.base = r.choice([0, 1, 5, 10, 100, 10 ** 6, 2 ** 32 - 1])
        self.maxlist = r.choice([3, 6, 9, 12, 20])

    def varied(self):
        self.echo, self.memo, self.few, self.maxlist = 0, {}, None, 4

    def prods(self, g):
        if self.few is None:
            return self.g[g]
        if g not in self.few:
            ps = list(self.g[g])
            self.r.shuffle(ps)
            self.few[g] = ps[:self.r.choice([1, 1, 2, 3])]
        return self.few[g]

    def blank(self, least):
        if not self.blanks:
            return ' '
        n = self.r.choice([least, least, 1, 1, 1, 2, 3, 9])
        return ''.join(self.r.choice(' \t ') for _ in range(max(n, least)))

    def toks(self, ts):
        return ''.join(self.blank(0) if x == B0 else self.blank(1) if x == B1 else x for x in ts)

    def number(self):
        r = self.r
        if self.few is not None and r.random() < .9:
            return str(self.base + r.choice([0, 0, 0, 1, 1, 2, 3, 4]))
        n = r.choice(NUMS) if r.random() < .8 else r.getrandbits(r.randrange(1, 65))
        s = str(n)
        if r.random() < .12:
            s = '0' * r.choice([1, 1, 2, 5, 30]) + s
        return s

    def sym(self, g, pick=None):
        """-> (text, tree)"""
        if not pick and self.echo and self.memo.get(g) and self.r.random() < self.echo:
            return self.r.choice(self.memo[g][-3:])
        p = pick or self.r.choice(self.prods(g))
        txt, vs = '', []
        for e in p.elems:
            if e[0] == 'd':
                s = self.number(); txt += s; vs.append(int(s))
            elif e[0] == 't':
                txt += self.toks(e[1])
            elif e[0] == 'nt':
                s, v = self.sym(e[1]); txt += s; vs.append(v)
            else:
                n = self.r.choice([1, 1, 2, 2, 3, self.maxlist])
                items = []
                for k in range(n):
                    s, v = self.sym(e[1])
                    txt += (self.toks(e[2]) if k else '') + s
                    items.append(v)
                vs.append(('L', tuple(items)))
        v = p.build(*vs)
        if self.echo:
            self.memo.setdefault(g, []).append((txt, v))
        return txt, v
