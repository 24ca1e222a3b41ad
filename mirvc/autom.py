"""Regular languages over bytes as complete DFAs: the decision procedure for the string part of
the obligations.  Every operation is exact (no widening)."""
from functools import lru_cache
import random
from collections import deque


class DFA:
    """trans: tuple of 256-tuples of states; start; finals: frozenset.  Always complete, trimmed and minimal."""
    __slots__ = ('trans', 'start', 'finals', '_h', '_dist')

    def __init__(self, trans, start, finals):
        self.trans, self.start, self.finals = trans, start, frozenset(finals)
        self._h = self._dist = None

    def key(self):
        return (self.trans, self.start, self.finals)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, DFA) and self.key() == o.key()

    def delta(self, q, bs):
        for b in bs:
            q = self.trans[q][b]
        return q

    def accepts(self, bs):
        return self.delta(self.start, bs) in self.finals


def minimize(trans, start, finals):
    # reachable part
    order, seen = [start], {start}
    for q in order:
        for r in set(trans[q]):
            if r not in seen:
                seen.add(r); order.append(r)
    cls = {q: (1 if q in finals else 0) for q in order}
    ncls = len(set(cls.values()))
    while True:
        sig, new = {}, {}
        for q in order:
            s = (cls[q], tuple([cls[r] for r in trans[q]]))
            new[q] = sig.setdefault(s, len(sig))
        if len(sig) == ncls:
            break
        cls, ncls = new, len(sig)
    # canonical numbering by BFS
    num, rep, out = {}, [], []
    def get(q):
        c = cls[q]
        if c not in num:
            num[c] = len(rep); rep.append(q)
        return num[c]
    get(start)
    i = 0
    while i < len(rep):
        out.append(tuple([get(r) for r in trans[rep[i]]]))
        i += 1
    return DFA(tuple(out), 0, [k for k, q in enumerate(rep) if q in finals])


# ---- construction from small regex ASTs --------------------------------------------------
EPS = ('eps',)
def ch(*bs): return ('ch', frozenset(bs))
def rng(a, b): return ('ch', frozenset(range(ord(a) if isinstance(a, str) else a, (ord(b) if isinstance(b, str) else b) + 1)))
def cat(*xs): return ('cat', tuple(xs))
def alt(*xs): return ('alt', tuple(xs))
def star(x): return ('star', x)
def plus(x): return cat(x, star(x))
def opt(x): return alt(EPS, x)
def lit(s):
    bs = s.encode() if isinstance(s, str) else s
    return cat(*[ch(b) for b in bs])
def ilit(s): return cat(*[ch(ord(c.lower()), ord(c.upper())) for c in s])


@lru_cache(maxsize=None)
def compile_re(r):
    eps, tr = [], []
    def new():
        eps.append([]); tr.append([]); return len(eps) - 1
    def build(r):
        k = r[0]
        if k == 'eps':
            a = new(); return a, a
        if k == 'ch':
            a, b = new(), new(); tr[a].append((r[1], b)); return a, b
        if k == 'cat':
            if not r[1]:
                a = new(); return a, a
            s, e = build(r[1][0])
            for x in r[1][1:]:
                s2, e2 = build(x); eps[e].append(s2); e = e2
            return s, e
        if k == 'alt':
            a, b = new(), new()
            for x in r[1]:
                s, e = build(x); eps[a].append(s); eps[e].append(b)
            return a, b
        if k == 'star':
            a = new(); s, e = build(r[1]); eps[a].append(s); eps[e].append(a); return a, a
        raise ValueError(k)
    s, e = build(r)
    def clo(S):
        st, S = list(S), set(S)
        while st:
            for y in eps[st.pop()]:
                if y not in S:
                    S.add(y); st.append(y)
        return frozenset(S)
    ids, work, trans, fin = {}, [], [], set()
    def get(S):
        if S not in ids:
            ids[S] = len(work); work.append(S)
            if e in S:
                fin.add(ids[S])
        return ids[S]
    get(clo({s}))
    i = 0
    while i < len(work):
        S = work[i]
        row = [None] * 256
        moves = [(cs, t) for q in S for (cs, t) in tr[q]]
        cache = {}
        for b in range(256):
            T = frozenset(t for cs, t in moves if b in cs)
            if T not in cache:
                cache[T] = get(clo(T))
            row[b] = cache[T]
        trans.append(tuple(row))
        i += 1
    return minimize(trans, 0, fin)


@lru_cache(maxsize=None)
def inter(a, b):
    ids, work, trans = {}, [], []
    def get(p):
        if p not in ids:
            ids[p] = len(work); work.append(p)
        return ids[p]
    get((a.start, b.start))
    i = 0
    while i < len(work):
        p, q = work[i]
        ra, rb, row, cache = a.trans[p], b.trans[q], [], {}
        for k in range(256):
            t = (ra[k], rb[k])
            row.append(get(t))
        trans.append(row)
        i += 1
    fin = {ids[(p, q)] for (p, q) in work if p in a.finals and q in b.finals}
    return minimize(trans, 0, fin)


@lru_cache(maxsize=None)
def compl(a):
    return minimize(a.trans, a.start, set(range(len(a.trans))) - a.finals)


def is_empty(a):
    return not a.finals          # minimal and trimmed to reachable states


@lru_cache(maxsize=None)
def accepts_inter(a, b):
    """is L(a) ∩ L(b) nonempty?  (product reachability, no minimization)"""
    seen, work = {(a.start, b.start)}, [(a.start, b.start)]
    la, lb = live(a), live(b)
    while work:
        p, q = work.pop()
        if p in a.finals and q in b.finals:
            return True
        for r in set(zip(a.trans[p], b.trans[q])):
            if r not in seen and r[0] in la and r[1] in lb:
                seen.add(r); work.append(r)
    return False


def subset(a, b):
    return not accepts_inter(a, compl(b))


@lru_cache(maxsize=None)
def between(a, p, q):
    """words leading from state p to state q"""
    return minimize(a.trans, p, {q})


@lru_cache(maxsize=None)
def residual(a, p):
    return minimize(a.trans, p, a.finals)


@lru_cache(maxsize=None)
def union(a, b):
    return compl(inter(compl(a), compl(b)))


@lru_cache(maxsize=None)
def concat_dfa(a, b):
    """L(a)L(b) by subset construction"""
    ids, work, trans, fin = {}, [], [], set()
    def norm(p, S):
        return (p, frozenset(S | ({b.start} if p in a.finals else frozenset())))
    def get(k):
        if k not in ids:
            ids[k] = len(work); work.append(k)
            if k[1] & b.finals:
                fin.add(ids[k])
        return ids[k]
    get(norm(a.start, frozenset()))
    i = 0
    while i < len(work):
        p, S = work[i]
        trans.append([get(norm(a.trans[p][c], frozenset(b.trans[s][c] for s in S))) for c in range(256)])
        i += 1
    return minimize(trans, 0, fin)


@lru_cache(maxsize=None)
def star_dfa(a):
    """L(a)* by subset construction"""
    ids, work, trans, fin = {}, [], [], set()
    def norm(S):
        return frozenset(S | ({a.start} if S & a.finals else frozenset()))
    def get(k):
        if k not in ids:
            ids[k] = len(work); work.append(k)
            if k[1] or k[0] & a.finals:
                fin.add(ids[k])
        return ids[k]
    get((frozenset([a.start]), True))
    i = 0
    while i < len(work):
        S, _ = work[i]
        trans.append([get((norm(frozenset(a.trans[s][c] for s in S)), False)) for c in range(256)])
        i += 1
    return minimize(trans, 0, fin)


def lit_dfa(bs):
    return compile_re(lit(bytes(bs)))


@lru_cache(maxsize=None)
def only_word(a):
    """the single word of L(a), or None"""
    w = list(words(a, 2))
    return w[0] if len(w) == 1 else None


@lru_cache(maxsize=None)
def live(a):
    rev = {}
    for p, row in enumerate(a.trans):
        for q in set(row):
            rev.setdefault(q, set()).add(p)
    seen, st = set(a.finals), list(a.finals)
    while st:
        for p in rev.get(st.pop(), ()):
            if p not in seen:
                seen.add(p); st.append(p)
    return seen


def dist(a):
    """length of the shortest accepted continuation, per state"""
    if a._dist is None:
        pre = {}
        for q in range(len(a.trans)):
            for r in set(a.trans[q]):
                pre.setdefault(r, set()).add(q)
        d = {q: 0 for q in a.finals}
        dq = deque(d)
        while dq:
            q = dq.popleft()
            for p in pre.get(q, ()):
                if p not in d:
                    d[p] = d[q] + 1
                    dq.append(p)
        a._dist = d
    return a._dist


def words(a, limit, maxlen=64, rnd=None):
    """a shortest word, then words of random walks through the automaton (at most `limit`, distinct)"""
    d = dist(a)
    if a.start not in d:
        return
    rnd = rnd or random.Random(5)
    seen = set()
    for k in range(6 * limit):
        room = 0 if k == 0 else rnd.choice([0, 1, 2, 3, 5, 8, 13, maxlen])
        q, w = a.start, bytearray()
        while True:
            if q in a.finals and (len(w) >= room or rnd.random() < .1):
                break
            by = {}
            for b in range(256):
                r = a.trans[q][b]
                if r in d and (len(w) < room or d[r] < d[q]):
                    by.setdefault(r, []).append(b)
            if not by:
                if q in a.finals:
                    break
                room = len(w)
                by = {}
                for b in range(256):
                    r = a.trans[q][b]
                    if r in d and d[r] < d[q]:
                        by.setdefault(r, []).append(b)
            r = rnd.choice(sorted(by))
            w.append(rnd.choice(by[r]) if k else by[r][0])
            q = r
        w = bytes(w)
        if w not in seen:
            seen.add(w)
            yield w
            if len(seen) >= limit:
                return


def has_word_of_len_ge(a, k):
    """is there a word of length >= k?"""
    cur = {a.start}
    lv = live(a)
    for _ in range(k):
        cur = {r for q in cur for r in a.trans[q] if r in lv}
    return bool(cur & lv)


DIGIT = rng('0', '9')
ANYB = rng(0, 255)
_T = rng(0x80, 0xbf)
UTF8_CHAR = alt(rng(0, 0x7f), cat(rng(0xc2, 0xdf), _T), cat(ch(0xe0), rng(0xa0, 0xbf), _T),
                   cat(rng(0xe1, 0xec), _T, _T), cat(ch(0xed), rng(0x80, 0x9f), _T), cat(rng(0xee, 0xef), _T, _T),
                   cat(ch(0xf0), rng(0x90, 0xbf), _T, _T), cat(rng(0xf1, 0xf3), _T, _T, _T), cat(ch(0xf4), rng(0x80, 0x8f), _T, _T))
UTF8_RE = star(UTF8_CHAR)
UTF8 = compile_re(UTF8_RE)
# f64::from_str: doc grammar of core::num::dec2flt
_SIGN = opt(ch(ord('+'), ord('-')))
_NUMBER = cat(alt(cat(plus(DIGIT), opt(cat(ch(ord('.')), star(DIGIT)))), cat(ch(ord('.')), plus(DIGIT))),
              opt(cat(ch(ord('e'), ord('E')), _SIGN, plus(DIGIT))))
F64_RE = cat(_SIGN, alt(ilit('inf'), ilit('infinity'), ilit('nan'), _NUMBER))
F64 = compile_re(F64_RE)
F64_FINITE = compile_re(cat(_SIGN, _NUMBER))
U64S = compile_re(cat(opt(ch(ord('+'))), plus(DIGIT)))       # syntax of <unsigned>::from_str
I64S = compile_re(cat(opt(ch(ord('+'), ord('-'))), plus(DIGIT)))      # syntax of <signed>::from_str
DIGITS1 = compile_re(plus(DIGIT))
ZEROS = compile_re(star(ch(ord('0'))))
NOTEND0 = compile_re(alt(EPS, cat(star(ANYB), ('ch', frozenset(set(range(256)) - {ord('0')})))))
