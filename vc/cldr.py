"""The specification side: CLDR 37 plural rule data (vendored copy in /verif/spec) with UTS #35 semantics.

Independent of the code under test: own rule parser, own evaluator (concrete and as SMT formulas)."""
import json, os, re
import z3

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CATS = ['zero', 'one', 'two', 'few', 'many']


def load(kind):
    """-> {locale: {category: rule condition text}}"""
    d = json.load(open(os.path.join(SPEC, 'cldr37_%ss.json' % kind), encoding='utf-8'))
    out = {}
    for loc, rules in d['supplemental']['plurals-type-' + kind].items():
        if loc == 'root':
            continue
        out[loc] = {k.replace('pluralRule-count-', ''): v.split('@')[0].strip() for k, v in rules.items()}
    return out


# ---- rule syntax: or-list of and-lists of (operand, modulus, op, [(lo, hi)]) -------------------------
REL = re.compile(r'^([nivwft])\s*(?:(?:%|mod)\s+(\d+))?\s*(!=|=|is not|is|not in|not within|in|within)\s*([\d.,\s]+)$')


def parse_rule(text):
    if not text.strip():
        return []
    ors = []
    for o in re.split(r'\s+or\s+', text.strip()):
        ands = []
        for a in re.split(r'\s+and\s+', o):
            m = REL.match(re.sub(r'\s+', ' ', a.strip()))
            if not m:
                raise ValueError('rule ' + a)
            rl = []
            for it in m.group(4).split(','):
                it = it.strip()
                if '..' in it:
                    lo, hi = it.split('..')
                    rl.append((int(lo), int(hi)))
                else:
                    rl.append((int(it), int(it)))
            ands.append((m.group(1), int(m.group(2)) if m.group(2) else None, m.group(3), tuple(rl)))
        ors.append(ands)
    return ors


NEGATED = {'!=', 'is not', 'not in', 'not within'}


# ---- concrete UTS #35 semantics over exact decimal operands -------------------------------------------
def rel_holds(rel, o):
    """o: dict with integers i, v, w, f, t of an exact decimal number (n is given by i and f)"""
    x, m, op, rl = rel
    if x == 'n':
        base, frac = o['i'], o['f'] != 0
    else:
        base, frac = o[x], False
    if m is not None:
        base %= m
    within = 'within' in op
    r = False
    for lo, hi in rl:
        if within:
            r = r or (base >= lo and (base < hi or (base == hi and not frac)))
        else:
            r = r or (not frac and lo <= base <= hi)
    return (not r) if op in NEGATED else r


def cond_holds(cond, o):
    return any(all(rel_holds(r, o) for r in a) for a in cond)


def category(rules, o):
    """rules: {cat: parsed}"""
    for c in CATS:
        if c in rules and cond_holds(rules[c], o):
            return c
    return 'other'


# ---- as SMT formulas -----------------------------------------------------------------------------------
def z_and(xs):
    xs = list(xs)
    return z3.BoolVal(True) if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def z_or(xs):
    xs = list(xs)
    return z3.BoolVal(False) if not xs else (xs[0] if len(xs) == 1 else z3.Or(*xs))


def z_rel(rel, o):
    x, m, op, rl = rel
    base = o['i'] if x == 'n' else o[x]
    frac = (o['f'] != 0) if x == 'n' else z3.BoolVal(False)
    if m is not None:
        base = base % m
    within = 'within' in op
    parts = []
    for lo, hi in rl:
        if within and x == 'n':
            parts.append(z3.And(base >= lo, z3.Or(base < hi, z3.And(base == hi, z3.Not(frac)))))
        else:
            c = (base == lo) if lo == hi else z3.And(base >= lo, base <= hi)
            parts.append(z3.And(z3.Not(frac), c) if x == 'n' else c)
    r = z_or(parts)
    return z3.Not(r) if op in NEGATED else r


def z_cond(cond, o):
    return z_or(z_and(z_rel(r, o) for r in a) for a in cond)


def z_category(rules, o):
    """{category: formula}, mutually exclusive and exhaustive by construction (first match in the order of CATS)"""
    out, prev = {}, []
    for c in CATS:
        if c in rules:
            f = z_cond(rules[c], o)
            out[c] = z3.And(f, *[z3.Not(p) for p in prev]) if prev else f
            prev.append(f)
    out['other'] = z_and(z3.Not(p) for p in prev)
    return out


# ---- the recorded deviation (known findings G1..G3): what the generator makes of relations on n --------
def z_rel_dev(rel, o):
    """Semantics of the emitted code as recorded in known_findings.json.  Only relations on `n` deviate."""
    x, m, op, rl = rel
    if x != 'n' or 'within' in op:
        return z_rel(rel, o)
    neg = op in NEGATED
    parts = []
    vals = [r for r in rl if r[0] == r[1]]
    rngs = [r for r in rl if r[0] != r[1]]
    for lo, hi in vals:
        if m is None:
            c = z3.And(o['i'] == lo, o['f'] == 0)
            parts.append(z3.Not(c) if neg else c)
        else:
            c = (o['i'] % m == lo)                     # G2: fraction ignored
            parts.append(z3.Not(c) if neg else c)
    for lo, hi in rngs:
        c = z3.And(o['i'] >= lo, o['i'] <= hi)         # G1: modulus ignored
        if neg:
            c = z3.Not(c)
        if m is None:
            c = z3.And(c, o['f'] == 0)                 # G3 (only wrong under negation)
        parts.append(c)
    return z_and(parts) if neg else z_or(parts)


def z_cond_dev(cond, o):
    return z_or(z_and(z_rel_dev(r, o) for r in a) for a in cond)


def z_category_dev(rules, o):
    out, prev = {}, []
    for c in sorted(CATS):                              # emitted in alphabetical order of the category names
        if c in rules:
            f = z_cond_dev(rules[c], o)
            out[c] = z3.And(f, *[z3.Not(p) for p in prev]) if prev else f
            prev.append(f)
    out['other'] = z_and(z3.Not(p) for p in prev)
    return out


def rel_holds_dev(rel, o):
    x, m, op, rl = rel
    if x != 'n' or 'within' in op:
        return rel_holds(rel, o)
    neg = op in NEGATED
    parts = []
    for lo, hi in [r for r in rl if r[0] == r[1]]:
        c = (o['i'] == lo and o['f'] == 0) if m is None else o['i'] % m == lo
        parts.append((not c) if neg else c)
    for lo, hi in [r for r in rl if r[0] != r[1]]:
        c = lo <= o['i'] <= hi
        if neg:
            c = not c
        if m is None:
            c = c and o['f'] == 0
        parts.append(c)
    return all(parts) if neg else any(parts)


def category_dev(rules, o):
    for c in sorted(CATS):
        if c in rules and any(all(rel_holds_dev(r, o) for r in a) for a in rules[c]):
            return c
    return 'other'


# ---- operands of exact decimals ------------------------------------------------------------------------
def operands_of(text):
    """UTS #35 operands of a decimal numeral [-]D[.E]"""
    t = text.lstrip('-')
    d, _, e = t.partition('.')
    y = e.rstrip('0')
    return dict(i=int(d), v=len(e), w=len(y), f=int(e) if e else 0, t=int(y) if y else 0, n=float(t))


def wf(o, n, strong=False):
    """well-formed operand sets of a decimal number; n is the double, given by its real value"""
    M = 2 ** 64 - 1
    B = 2 ** 53
    i, v, w, f, t = (o[k] for k in 'ivwft')
    cs = [i >= 0, i <= M, f >= 0, f <= M, t >= 0, t <= f, v >= 0, v <= 2 ** 63, w >= 0, w <= v,
          (f == 0) == (t == 0), (f == 0) == (w == 0), z3.Implies(v == 0, f == 0),
          z3.If(f == 0,
                z3.If(i < B, n == z3.ToReal(i), z3.And(n >= B, n <= 2 ** 64)),
                z3.If(i < B, z3.And(n > z3.ToReal(i), n < z3.ToReal(i) + 1), z3.And(n >= B, n <= 2 ** 64)))]
    if strong:
        for k in range(0, 20):
            cs.append(z3.Implies(v == k, f < 10 ** k))
            cs.append(z3.Implies(v - w == k, f == t * 10 ** k))
        cs.append(z3.Implies(f != 0, z3.And(t % 10 != 0, v - w < 20)))
    return cs
