"""Obligations on the conversions into PluralOperands (C04 .. C08)."""
import os, re, random, struct, fractions, subprocess, tempfile, time
import z3
from mirvc import sym, stdc
from mirvc import autom as A
from mirvc.sym import Agg, Ref, Opaque, F, Str, State, INT_RANGE, INF, fl
from mirvc.mir import Unsupported
from . import cldr, lits
from .common import Undecided
from .intl import OPS, LEN_MAX, clean, batch_replay, run_cases, hx, bits, num, isin

M64 = 2 ** 64 - 1
UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'usize')
SIGNED = ('i8', 'i16', 'i32', 'i64', 'isize')
NZFRAC = stdc.FRACT
ZEROS1 = A.compile_re(A.plus(A.ch(ord('0'))))

ASSUME_NUM = [
    'f64::from_str is correctly rounded and accepts exactly the documented grammar; u64::from_str accepts [+]digits up to 2^64-1',
    'round-to-nearest is exact on integers up to 2^53, at least 2^53 above, odd (proved for 64-bit integers in lemmas/fl.smt2; '
    'IEEE 754 for longer numerals)',
]
ASSUME_DISPLAY = [
    'Display of a finite float: shortest round-trip decimal without exponent, no leading zeros, no trailing fraction zeros, a fraction exactly when '
    'the value is not integral, at most 17 significant digits',
]


LEMMA_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')


def lemmas(ck):
    """the general facts the string and float domains rest on, proved on every run; they do not depend on /repo"""
    if getattr(ck, 'lemmas_done', False):
        return
    ck.lemmas_done = True
    t = time.time()
    names = ('num_zero', 'num_prefix', 'num_append_zeros', 'num_lower', 'num_inj')
    out = ''
    try:
        with tempfile.TemporaryDirectory() as d:
            r = subprocess.run(['verus', os.path.join(LEMMA_DIR, 'num.rs')], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            out = r.stdout.decode('utf8', 'replace')
    except (OSError, subprocess.SubprocessError) as e:
        out = str(e)
    if re.search(r'[1-9][0-9]* verified, 0 errors', out):
        for n in names:
            ck.ok('lemma %s (lemmas/num.rs)' % n, 'verus', (time.time() - t) / len(names))
    else:
        ck.assume('lemmas of lemmas/num.rs on digit strings (value 0 iff all digits 0; a prefix denotes at most as much; appending zeros '
                  'keeps 0): verus did not run here')
    t = time.time()
    try:
        r = subprocess.run(['cvc5', '--incremental', os.path.join(LEMMA_DIR, 'fl.smt2')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        out = r.stdout.decode('utf8', 'replace').split()
    except (OSError, subprocess.SubprocessError) as e:
        out = [str(e)]
    if out == ['unsat'] * 4:
        for n in ('exact up to 2^53', 'above 2^53', 'at most 2^64', 'odd'):
            ck.ok('lemma rounding of 64-bit integers: %s (lemmas/fl.smt2)' % n, 'cvc5', (time.time() - t) / 4)
    else:
        ck.assume('facts of lemmas/fl.smt2 on rounding 64-bit integers: cvc5 did not decide them here')


# ---- concrete oracle ---------------------------------------------------------------------------------
F64RE = re.compile(r'^[+-]?(inf|infinity|nan|((\d+\.?\d*|\.\d+)(e[+-]?\d+)?))$', re.I)


def must_reject(s):
    b = s[1:] if s.startswith('-') else s
    if b.startswith('-') or not F64RE.match(b) or not b.isascii():
        return True
    if '.' in b:
        x, _, y = b.partition('.')
        for z in (x, y):
            if not re.match(r'^\+?[0-9]+$', z) or int(z) > M64:
                return True
    return False


def exact(s):
    """operands when the text is [-]D[.E] with both parts fitting 64 bits, else None"""
    if not re.match(r'^-?[0-9]+(\.[0-9]+)?$', s):
        return None
    o = cldr.operands_of(s)
    return o if o['i'] <= M64 and o['f'] <= M64 else None


def parse_ok(a):
    p = a.split(' ')
    if p[0] != 'ok':
        return None
    n = struct.unpack('>d', struct.pack('>Q', int(p[1], 16)))[0]
    return dict(n=n, i=int(p[2]), v=int(p[3]), w=int(p[4]), f=int(p[5]), t=int(p[6]))


def fmt(o):
    return 'ok %s %d %d %d %d %d' % (bits(o['n']), o['i'], o['v'], o['w'], o['f'], o['t'])


def coherent(o):
    return (not o['n'] < 0 and o['w'] <= o['v'] and (o['t'] == 0) == (o['f'] == 0) == (o['w'] == 0) and (o['t'] == 0) == (o['w'] == 0)
            and o['t'] <= o['f'] and (o['v'] != 0 or o['f'] == 0) and (not o['n'] < 2 ** 53 or o['i'] <= o['n'] <= o['i'] + 1))


def str_pred(s):
    o = exact(s)
    if o is not None:
        return isin({fmt(o)})
    if must_reject(s):
        p = lambda a: a.startswith('err')
        p.text = 'an error'
        return p

    def p(a):
        if a.startswith('err'):
            return True
        o = parse_ok(a)
        return o is not None and coherent(o)
    p.text = 'an error or coherent operands'
    return p


INTERESTING = ['', '-', '+', '.', '-.', '0', '-0', '00', '000', '1', '-1', '01', '1.', '.5', '-.5', '+5', '-+5', '+-5', '--5', '---5', '5-', '1e3', '1E3',
               '1.5e3', '1e-3', 'e5', '1e', 'inf', '-inf', '--inf', 'infinity', 'nan', '-nan', 'NaN', 'foo', '1.2.3', '1..2', '..', '1,5', ' 1', '1 ', '1_0', '٣', '1.٣',
               '0x10', 'é', '-é', 'é-', '€', '1€', '-€1', '\U0001F600', '-\U0001F600', '\u00a01', '1.0\u00e9', '0.0', '0.00', '-0.0', '0.10', '0.010', '1.00', '1.50', '10.500', '100.001',
               '1.0000000000', '0.000000000000000000', '0.0000000000000000000000000000000000001', '1.000000000000000000000000000000000000000',
               '9007199254740992', '9007199254740993', '9007199254740995', '18446744073709551615', '18446744073709551616', '18446744073709551614',
               '99999999999999999999999', '-18446744073709551615', '9223372036854775807', '9223372036854775808', '-9223372036854775808',
               '000000000000000000000000000000000000000018446744073709551615', '18446744073709551615.18446744073709551615', '18446744073709551616.0', '0.18446744073709551616',
               '1.18446744073709551615', '4294967295', '4294967296', '4294967297', '2147483648', '0.4294967296', '0.4294967295', '123.45', '-123.45', '1.230', '16777217', '16777217.5',
               '123456789012345678', '0.123456789012345678', '1.+5', '+1.5', '-+1.5', '1.-5', '1.5-', '1.5+', '0.1e1', '5.', '-5.', '+.5', '3.0e0', '1e400', '1e19', '1e20', '7e0', '12e-1', '5e-324',
               '1.20', '1.2', '1.1', '1.9', '1.99', '1.10', '1.100', '100', '1000000', '21.0', '0.5', '0.50', '10', '20', '30.30', '1' + '0' * 30, '0' * 30 + '1', '0.' + '0' * 30 + '1', '1.5' + '0' * 30,
               '0.1' + '0' * 18, '0.1' + '0' * 19, '1' + '0' * 19, '2' + '0' * 19, '-1.0', '-1.50', '-00.5', '255', '256', '65535', '65536', '127', '128', '1.255', '1.256', '300.300', '1.' + '1' * 19]


def string_pool(seed, n):
    r = random.Random(seed)
    out = list(INTERESTING)
    from .intl import SEL_TEXTS
    out += SEL_TEXTS
    for k in (31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1023, 1024, 65535, 65536, 65537):
        z = '0' * k
        out += ['1.' + z, '-1.' + z, z + '1', z + '1.5', '0.' + z + '1', '0.5' + z, '2.' + z + '50', '-' + z + '7.' + z + '3' + z]
    dig = lambda k: ''.join(r.choice('0123456789') for _ in range(k))
    for _ in range(n):
        s = r.choice(['', '', '-']) + '0' * r.choice([0, 0, 0, 1, 3]) + dig(r.choice([1, 1, 2, 3, 5, 10, 15, 16, 17, 19, 20]))
        if r.random() < 0.6:
            s += '.' + r.choice(['', '', '0', '00', '000']) + dig(r.choice([0, 1, 1, 2, 3, 6, 12, 17, 19])) + '0' * r.choice([0, 0, 1, 2, 5])
        if r.random() < 0.15:
            k = r.randrange(len(s) + 1)
            s = s[:k] + r.choice(['.', '-', '+', 'e', 'E', 'x', ' ', 'é', '€', '0']) + s[k:]
        out.append(s)
    return out + (literal_texts(r) if n >= 2000 else [])


def literal_texts(r):
    """numerals with the texts of the source put in, and numerals whose parts have the lengths and values of its numbers"""
    ints, texts = lits.literals('intl_pluralrules')
    out = []
    base = ['1', '12', '1.5', '-1', '-1.50', '0.00', '1234567', '12345678901234', '1234567890.5', '12345678901234567', '0.123456789012345', '7.' + '0' * 30, '0' * 30 + '7', '-' + '1' * 19, '1' * 25,
            '+1', '+1.5', '1e3', 'inf', 'nan', '1.', '.5', '']
    for t in texts + [a + b for a in texts for b in texts if len(a + b) <= 3] + [t.upper() for t in texts] + [t.lower() for t in texts]:
        for b in base:
            ks = {0, 1, 2, len(b) // 2, len(b) - 1, len(b), b.find('.'), b.find('.') + 1}
            out += [b[:k] + t + b[k:] for k in ks if 0 <= k <= len(b)]
            if '.' in b:
                out.append(b.replace('.', t))
            if len(b) > 5:
                out.append(b[:2] + t + b[2:5] + t + b[5:])
    d = lambda k: ''.join(r.choice('123456789') for _ in range(k))
    for k in lits.around('intl_pluralrules', 1 << 17):
        for c in (k, ) if k > 5000 else (k - 2, k, k + 2):
            if c > 0:
                out += ['1.' + '0' * c, '0' * c + '1', '0.' + '0' * c + '1', '1.5' + '0' * c, '9' * c, d(c), '-' + d(c), '1.' + d(c), d(c) + '.5', '-' + d(c) + '.' + d(min(c, 19))]
    for k in lits.around('intl_pluralrules', 2 * M64):
        out += [str(k), '-%d' % k, '%d.0' % k, '%d.5' % k, '1.%d' % k, '1.0%d' % k, '1.%d0' % k, '%d.%d' % (k, k), '0.%d00' % k, '%d0' % k, '%d.%d' % (k, k + 1)]
    return out


def str_cases(strings, kinds=('str', 'string')):
    return [('conv %s %s' % (k, hx(s)), str_pred(s)) for s in strings for k in kinds]


def int_values(ty, seed=1, n=40):
    lo, hi = INT_RANGE[ty]
    r = random.Random(seed)
    vs = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 9, 10, 42}
    for b in (7, 8, 15, 16, 24, 31, 32, 53, 63, 64):
        for d in (-2, -1, 0, 1, 2):
            vs |= {2 ** b + d, -(2 ** b) + d}
    for k in lits.around('intl_pluralrules'):
        vs |= {k, hi - k, lo + k}
    vs |= {-v for v in list(vs)}
    for _ in range(n):
        vs.add(r.randrange(lo, hi + 1))
    return sorted(v for v in vs if lo <= v <= hi)


def int_pred(ty, x):
    a = abs(x)
    w = {fmt(dict(n=float(a), i=a, v=0, w=0, f=0, t=0))}
    if ty in ('i64', 'isize') and x == INT_RANGE[ty][0]:
        p = lambda ans: ans.startswith('err') or ans in w
        p.want = w | {'err'}
        return p
    return isin(w)


def int_cases(seed=1, n=40, types=UNSIGNED + SIGNED):
    return [('conv %s %d' % (t, x), int_pred(t, x)) for t in types for x in int_values(t, seed, n)]


def float_pred(text):
    o = cldr.operands_of(text)
    if o['i'] <= M64:
        return isin({fmt(o)})

    def p(a):
        q = parse_ok(a)
        return q is not None and q['n'] == o['n'] and (q['v'], q['w'], q['f'], q['t']) == (0, 0, 0, 0)
    p.text = 'operands with n=%r and no fraction' % o['n']
    return p


def float_values(seed, n):
    r = random.Random(seed)
    xs = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, -1.5, 0.3, 0.1 + 0.2, 1e-7, 1e-10, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e15, 1e16, 1e17, 123456789.125, 1e21, 1e22, 1e23, 2.0 ** 53,
          2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, 2.0 ** 64 - 2048, 9007199254740993.0, 0.000123, 123.45, 1.005, 100.0, 1e6, 1e-5, 4.35, 1e100, 3.0, 10.0, 0.7, 16777217.0, 1.1, 2.2, 33.3, 100.25]
    for k in lits.around('intl_pluralrules', 10 ** 300):
        xs += [float(k), k + .5, k + .1, -float(k), k * 1.000001, 1 / (k + 1)]
    for _ in range(n):
        b = r.getrandbits(64)
        x = struct.unpack('>d', struct.pack('>Q', b))[0]
        if x == x and abs(x) != float('inf'):
            xs.append(x)
        xs.append(round(r.uniform(0, 10 ** r.randrange(1, 10)), r.randrange(0, 8)))
    return xs


def float_cases(I, seed=1, n=100):
    """the expected operands are those of the text the standard library displays"""
    reqs = ['f64 ' + bits(x) for x in float_values(seed, n)]
    r = random.Random(seed + 7)
    fb = [struct.unpack('>I', struct.pack('>f', x))[0] for x in (0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, 3.4028234e38, 1e-45, 16777216.0, 16777218.0, 123.45, 0.3, 1e10, 1e20, -2.75)]
    fb += [r.getrandbits(32) for _ in range(n)]
    reqs += ['f32 %08x' % b for b in fb if (b >> 23) & 255 != 255]
    texts = I.native.ask(['disp ' + q for q in reqs])
    return [('conv ' + q, float_pred(t)) for q, t in zip(reqs, texts)]


# ---- deductive part ----------------------------------------------------------------------------------
def operands_value(I, ex, l, wraps):
    """-> ('ok', Agg) / ('err', None) / ('panic', msg)"""
    if l.kind != 'return':
        return 'panic', '%s in %s: %s' % (l.kind, clean(l.where), l.val)
    v = ex.deep(l.st, l.val)
    if wraps:
        r = v
    elif isinstance(v, Agg) and v.var == 'Ok':
        r = ex.deep(l.st, v.fs[0])
    elif isinstance(v, Agg) and v.var == 'Err':
        return 'err', None
    else:
        raise Unsupported('result %r' % (v,))
    if not (isinstance(r, Agg) and r.ty == 'PluralOperands' and r.names):
        raise Unsupported('operands %r' % (r,))
    return 'ok', r


def field_goals(r, want):
    """[(field, goal)] comparing operands with expected values"""
    out = []
    for k in OPS:
        if k not in want:
            continue
        x = r.get(k)
        if k == 'n':
            if not isinstance(x, F):
                raise Unsupported('n = %r' % (x,))
            out.append((k, sym.conj(sym.neg(x.nan), eqz(x.val, want[k]))))
        else:
            out.append((k, eqz(x, want[k])))
    return out


def eqz(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = a == b
    return e


def check_goals(ck, nm, st, goals, replay):
    """replay(model) -> replays"""
    for k, g in goals:
        if isinstance(g, bool):
            if g:
                ck.ok('%s: %s' % (nm, k))
            else:
                ck.fail('%s: %s' % (nm, k), 'the result differs from the specification on every input of this path', replay(None))
            continue
        m = ck.prove('%s: %s' % (nm, k), st.pc, g)
        if m is not None:
            ck.fail('%s: %s' % (nm, k), 'refuted obligation %s\nmodel %s' % (str(g)[:300], str(m)[:400]), replay(m))


def int_contract(I, types=UNSIGNED + SIGNED):
    ck = I.ck
    for ty in types:
        def one():
            f, wraps = I.conversion(ty)
            ck.functions.add(clean(f.name) + ' [%s]' % ty)
            ex = I.engine()
            st = State()
            x = z3.Int('x')
            lo, hi = INT_RANGE[ty]
            st.pc += [x >= lo, x <= hi]
            a = z3.If(x < 0, -x, x)
            nok = 0
            for k, l in enumerate(ex.run(f, [x], st)):
                nm = 'from %s, path %d' % (ty, k)
                kind, r = operands_value(I, ex, l, wraps)

                def rp(m, ty=ty):
                    vs = [num(m, x)] if m is not None else []
                    return [batch_replay(I, '%s %s' % (ty, vs), lambda: [('conv %s %d' % (ty, v), int_pred(ty, v)) for v in vs + int_values(ty)])]
                if kind == 'panic':
                    ck.fail(nm, r, rp(model(l.st)))
                elif kind == 'err':
                    goal = (x == lo) if ty in ('i64', 'isize') else z3.BoolVal(False)
                    m = ck.prove(nm + ': rejected only at the minimum of a 64-bit type', l.st.pc, goal)
                    if m is not None:
                        ck.fail(nm, 'rejects %s value %s' % (ty, num(m, x)), rp(m))
                else:
                    nok += 1
                    want = dict(i=a, v=0, w=0, f=0, t=0, n=l.st.to_double(a))
                    check_goals(ck, nm, l.st, field_goals(r, want), rp)
            if not nok:
                ck.fail('from %s accepts values' % ty, 'no path succeeds', [batch_replay(I, ty, lambda: int_cases(types=(ty,)))])
            I.done(ex)
        ck.part('conversion from ' + ty, one)
    ck.assume('`as f64` on integers rounds to nearest (uninterpreted function fl with monotonicity facts; exact up to 2^53)')


def model(st):
    s = z3.Solver(); s.set('timeout', 10000)
    s.add(*[c for c in st.pc if z3.is_expr(c)])
    return s.model() if s.check() == z3.sat else None


def witness_strings(l, ps, limit=6):
    try:
        d = l.st.dfa_of(ps)
        out = []
        for w in A.words(d, limit):
            try:
                out.append(w.decode())
            except UnicodeDecodeError:
                pass
        return out
    except Exception:
        return []


def str_replay(I, l, ps):
    ws = witness_strings(l, ps)
    return [batch_replay(I, 'strings of the failing path %s' % ws[:3], lambda: str_cases(ws)),
            batch_replay(I, 'pool of numerals', lambda: str_cases(string_pool(I.ck.seed, 400)))]


def as_input(ty, ps):
    return Str(ps) if ty == '&str' else Agg('String', None, (Str(ps),))


def text_contract(I, ty='&str', fits=True):
    """exact operands for every numeral [-]D[.E]"""
    ck = I.ck
    f, wraps = I.conversion(ty)
    ck.functions.add(clean(f.name) + ' [%s]' % ty)
    for sign in (b'', b'-'):
        for shape in ('D', 'D.Z', 'D.YZ'):
            st = State()
            d = st.atom('D', A.DIGITS1); st.set_lang(d, A.DIGITS1)
            y = z = ()
            ps = (d,)
            if shape == 'D.Z':
                za = st.atom('Z', ZEROS1); st.set_lang(za, ZEROS1)
                z = (za,)
            if shape == 'D.YZ':
                ya = st.atom('Y', NZFRAC); st.set_lang(ya, NZFRAC)
                za = st.atom('Z', A.ZEROS); st.set_lang(za, A.ZEROS)
                y, z = (ya,), (za,)
            if shape != 'D':
                ps = ps + (b'.',) + y + z
            full = ((sign,) if sign else ()) + ps
            st.pc.append(st.length(full) < LEN_MAX)
            nd, nf = st.const('NUM', (d,)), st.const('NUM', y + z)
            st.pc += [nd <= M64, nf <= M64]
            ck.satisfiable('numerals of shape %s%s' % (sign.decode(), shape), st.pc)
            ex = I.engine()
            nm0 = '%s numeral %s%s' % (ty, sign.decode(), shape)
            ls = ex.run(f, [as_input(ty, full)], st)
            I.done(ex)
            for k, l in enumerate(ls):
                nm = '%s, path %d' % (nm0, k)
                kind, r = operands_value(I, ex, l, wraps)
                rp = lambda m, l=l: str_replay(I, l, full)
                if kind != 'ok':
                    m = ck.prove(nm + ' is not reachable', l.st.pc, z3.BoolVal(False))
                    if m is not None:
                        ck.fail(nm, 'a well-formed numeral is rejected or panics: %s %s' % (kind, r), rp(m))
                    continue
                s = l.st
                want = dict(i=s.const('NUM', (d,)), v=s.length(y + z), w=s.length(y), f=s.const('NUM', y + z) if y or z else 0,
                            t=s.const('NUM', y) if y else 0, n=s.const('DBL', ps))
                check_goals(ck, nm, s, field_goals(r, want), rp)
            if not ls:
                raise Undecided('no path for ' + nm0)
    ck.assume(*ASSUME_NUM)
    lemmas(ck)


SIGNLESS_F64 = A.inter(A.F64, A.compl(A.compile_re(A.cat(A.ch(ord('-')), A.star(A.ANYB)))))
OPTMINUS = A.compile_re(A.opt(A.ch(ord('-'))))
ACC = A.concat_dfa(OPTMINUS, SIGNLESS_F64)
HASDOT = A.compile_re(A.cat(A.star(A.ANYB), A.ch(ord('.')), A.star(A.ANYB)))
INTSIDE = A.compile_re(A.cat(A.opt(A.ch(ord('-'))), A.opt(A.ch(ord('+'))), A.plus(A.DIGIT)))
DOTTED = A.compile_re(A.cat(A.opt(A.ch(ord('-'))), A.opt(A.ch(ord('+'))), A.plus(A.DIGIT), A.ch(ord('.')), A.plus(A.DIGIT)))
SIGNS = A.compile_re(A.cat(A.opt(A.ch(ord('-'))), A.opt(A.ch(ord('+')))))
DOT = A.lit_dfa(b'.')


def reject_contract(I, ty='&str'):
    """arbitrary text: returns; accepted only when a number; accepted operands are coherent"""
    ck = I.ck
    f, wraps = I.conversion(ty)
    ck.functions.add(clean(f.name) + ' [%s]' % ty)
    st = State()
    a = st.atom('S', A.UTF8)
    full = (a,)
    st.pc.append(st.length(full) < LEN_MAX)
    ex = I.engine()
    ls = ex.run(f, [as_input(ty, full)], st)
    I.done(ex)
    ck.extra['arbitrary_text_paths'] = len(ls)
    # the paths cover every string
    cover = None
    for l in ls:
        d = l.st.dfa_of(full)
        cover = d if cover is None else A.union(cover, d)
    if A.subset(A.UTF8, cover):
        ck.ok('%s: the paths cover every string' % ty, 'automata')
    else:
        raise Undecided('paths do not cover all strings')
    for k, l in enumerate(ls):
        nm = '%s arbitrary text, path %d' % (ty, k)
        kind, r = operands_value(I, ex, l, wraps)
        rp = lambda m, l=l: str_replay(I, l, full)
        if kind == 'panic':
            m = ck.prove(nm + ' is not reachable', l.st.pc, z3.BoolVal(False))
            if m is not None:
                ck.fail(nm, r, rp(m))
            continue
        if kind == 'err':
            ck.ok(nm + ': returns an error')
            continue
        lang = l.st.dfa_of(full)
        if A.subset(lang, ACC):
            ck.ok(nm + ': accepted text is a number', 'automata')
        else:
            bad = A.words(A.inter(lang, A.compl(ACC)), 5)
            ck.fail(nm + ': accepted text is a number', 'accepts %r' % (bad,),
                    [batch_replay(I, repr(bad), lambda bad=bad: str_cases([b.decode() for b in bad if valid(b)]))] + rp(None))
        dl = A.inter(lang, HASDOT)
        if not A.is_empty(dl):
            if not A.subset(dl, DOTTED):
                bad = A.words(A.inter(dl, A.compl(DOTTED)), 5)
                ck.fail(nm + ': both sides of the point are integers', 'accepts %r' % (bad,),
                        [batch_replay(I, repr(bad), lambda bad=bad: str_cases([b.decode() for b in bad if valid(b)]))] + rp(None))
            else:
                ck.ok(nm + ': both sides of the point are integers', 'automata')
                for s1, x, y in l.st.split_at(full, INTSIDE, A.compile_re(A.cat(A.ch(ord('.')), A.plus(A.DIGIT)))):
                    for s2, sg, dd in s1.split_at(x, SIGNS, A.DIGITS1):
                        for s3, _, ee in s2.split_at(y, DOT, A.DIGITS1):
                            c1, c2 = s3.const('NUM', dd), s3.const('NUM', ee)
                            m = ck.prove(nm + ': both sides of the point fit 64 bits', s3.pc, z3.And(c1 <= M64, c2 <= M64))
                            if m is not None:
                                ck.fail(nm + ': both sides of the point fit 64 bits', str(m)[:300],
                                        [batch_replay(I, 'oversized parts', lambda: str_cases(['18446744073709551616.5', '5.18446744073709551616', '99999999999999999999.1', '1.99999999999999999999', '-18446744073709551616.5', '0.123456789012345678901']))] + rp(m))
        g = coherence_goals(r)
        check_goals(ck, nm, l.st, g, rp)
    ck.assume(*ASSUME_NUM)
    lemmas(ck)


def valid(b):
    try:
        b.decode(); return True
    except UnicodeDecodeError:
        return False


def coherence_goals(r):
    n, i, v, w, f, t = (r.get(k) for k in OPS)
    z = lambda e: z3.BoolVal(e) if isinstance(e, bool) else e
    return [('n is not negative', sym.disj(n.nan, n.val >= 0)),
            ('w <= v', z(w <= v)), ('t = 0 iff f = 0', z(t == 0) == z(f == 0)), ('w = 0 iff t = 0', z(w == 0) == z(t == 0)),
            ('t <= f', z(t <= f)), ('v = 0 implies f = 0', z3.Implies(z(v == 0), z(f == 0))),
            ('i <= n <= i + 1 below 2^53', sym.disj(n.nan, z3.Implies(n.val < 2 ** 53, z3.And(i <= n.val, n.val <= i + 1))))]


def float_contract(I):
    ck = I.ck
    for ty in ('f64', 'f32'):
        def one():
            f, wraps = I.conversion(ty)
            ck.functions.add(clean(f.name) + ' [%s]' % ty)
            st = State()
            x, ng = z3.Real('x'), z3.Bool('neg')
            st.pc += [z3.Implies(ng, x <= 0), z3.Implies(z3.Not(ng), x >= 0), x < z3.RealVal(INF), x > -z3.RealVal(INF)]
            ck.satisfiable('finite %s' % ty, st.pc + [x < 0, x > -1])
            ex = I.engine()
            ls = ex.run(f, [F(x, False, ng)], st)
            I.done(ex)
            rp = lambda m: [batch_replay(I, 'pool of floats', lambda: float_cases(I, ck.seed, 400))]
            def float_goals(nm, s, ps, r, seen):
                cut = [(i, p) for i, p in enumerate(ps) if isinstance(p, bytes) and b'.' in p]
                if cut:
                    i, p = cut[0]
                    j = p.index(b'.')
                    dd = ps[:i] + ((p[:j],) if p[:j] else ())
                    ee = ((p[j + 1:],) if p[j + 1:] else ()) + ps[i + 1:]
                    seen.add('frac')
                else:
                    dd, ee = ps, ()
                    seen.add('int')
                nd = s.const('NUM', dd)
                want = dict(v=s.length(ee), w=s.length(ee), f=s.const('NUM', ee) if ee else 0, t=s.const('NUM', ee) if ee else 0, n=s.const('DBL', ps))
                goals = field_goals(r, want)
                goals.append(('i', z3.Implies(nd <= M64, z3.And(eqz(r.get('i'), nd)))))
                if ty == 'f64':
                    goals.append(('n = |x|', r.get('n').val == z3.If(x < 0, -x, x)))
                check_goals(ck, nm, s, goals, rp)
            seen = set()
            for k, l in enumerate(ls):
                nm = 'from %s, path %d' % (ty, k)
                kind, r = operands_value(I, ex, l, wraps)
                if kind != 'ok':
                    m = ck.prove(nm + ' is not reachable', l.st.pc, z3.BoolVal(False))
                    if m is not None:
                        ck.fail(nm, 'a finite value is rejected or panics: %s %s' % (kind, r), rp(m))
                    continue
                shown = l.st.ghost.get('displayed')
                mag = z3.If(x < 0, -x, x)
                if shown and shown[1] == ty and ck.valid(l.st.pc, shown[0] == mag):
                    texts = [(l.st, l.st.ghost['display'])]
                else:                      # the code did not write |x| out: the contract does
                    texts = stdc.display_float(ex, l.st.fork(), F(mag, False, False), ty)
                for s, ps in texts:
                    float_goals(nm, s, s.norm(ps), r, seen)
            if seen != {'frac', 'int'}:
                ck.fail('from %s: both kinds of text reached' % ty, str(seen), rp(None))
            else:
                ck.ok('from %s: integral and fractional values both reached' % ty)
        ck.part('conversion from ' + ty, one)
    ck.assume(*ASSUME_NUM)
    lemmas(ck)
    ck.assume(*ASSUME_DISPLAY)


def agreement(I):
    """C08: sequential composition of two conversions of the same number"""
    ck = I.ck
    fs, ws = I.conversion('&str')

    def compare(nm, l, r1, ex, l2, wraps2, rp):
        kind, r2 = operands_value(I, ex, l2, wraps2)
        if kind != 'ok':
            m = ck.prove(nm + ' is not reachable', l2.st.pc, z3.BoolVal(False))
            if m is not None:
                ck.fail(nm, 'one conversion succeeds, the other gives %s %s' % (kind, r2), rp(m))
            return
        check_goals(ck, nm, l2.st, field_goals(r2, {k: (r1.get(k).val if k == 'n' else r1.get(k)) for k in OPS}), rp)

    for ty in UNSIGNED + SIGNED:
        def one():
            f, wraps = I.conversion(ty)
            lo, hi = INT_RANGE[ty]
            st = State()
            x = z3.Int('x')
            st.pc += [x >= lo, x <= hi]
            if ty in ('i64', 'isize'):
                st.pc.append(x != lo)            # may be rejected (C04)
            ex = I.engine()

            def rp(m, ty=ty):
                vs = ([num(m, x)] if m is not None else []) + int_values(ty)
                return [batch_replay(I, 'the same integer as %s, text and float' % ty, lambda: agree_cases(ty, vs))]
            for k, l in enumerate(ex.run(f, [x], st)):
                kind, r1 = operands_value(I, ex, l, wraps)
                nm = '%s vs text, path %d' % (ty, k)
                if kind != 'ok':
                    m = ck.prove(nm + ' is not reachable', l.st.pc, z3.BoolVal(False))
                    if m is not None:
                        ck.fail(nm, 'conversion from %s gives %s' % (ty, kind), rp(m))
                    continue
                base = l.st
                for s, ps in stdc.display_int(ex, base.fork(), x):
                    for j, l2 in enumerate(ex.run(fs, [Str(ps)], s)):
                        compare('%s.%d' % (nm, j), l, r1, ex, l2, ws, rp)
                # x against -x in the same type
                if lo < 0:
                    s = base.fork()
                    s.pc.append(x > lo)
                    for j, l2 in enumerate(ex.run(f, [-x], s)):
                        compare('%s: x vs -x, path %d.%d' % (ty, k, j), l, r1, ex, l2, wraps, rp)
                # against f64 where exactly representable
                for fty, lim in (('f64', 2 ** 53), ('f32', 2 ** 24)):
                    ff, wf = I.conversion(fty)
                    s = base.fork()
                    s.pc += [x > -lim, x < lim]
                    for j, l2 in enumerate(ex.run(ff, [F(z3.ToReal(x), False, x < 0)], s)):
                        compare('%s vs %s, path %d.%d' % (ty, fty, k, j), l, r1, ex, l2, wf, rp)
            I.done(ex)
            ck.functions.add(clean(f.name) + ' [%s]' % ty)
        ck.part('agreement of %s with text and floats' % ty, one)

    def strings():
        fo, wo = I.conversion('String')
        st = State()
        a = st.atom('S', A.UTF8)
        st.pc.append(st.length((a,)) < LEN_MAX)
        ex = I.engine()
        rp = lambda m: [batch_replay(I, 'borrowed and owned strings', lambda: str_cases(string_pool(ck.seed, 400)))]
        for k, l in enumerate(ex.run(fs, [Str((a,))], st)):
            kind, r1 = operands_value(I, ex, l, ws)
            for j, l2 in enumerate(ex.run(fo, [Agg('String', None, (Str((a,)),))], l.st.fork())):
                nm = '&str vs String, path %d.%d' % (k, j)
                k2, r2 = operands_value(I, ex, l2, wo)
                if kind != k2:
                    m = ck.prove(nm + ' is not reachable', l2.st.pc, z3.BoolVal(False))
                    if m is not None:
                        ck.fail(nm, 'one gives %s, the other %s' % (kind, k2), rp(m))
                elif kind == 'ok':
                    goals = []
                    for q in OPS:
                        p1, p2 = r1.get(q), r2.get(q)
                        if q == 'n':
                            goals.append((q, sym.conj(eqz(p1.val, p2.val), True if p1.nan is p2.nan else eqz(p1.nan, p2.nan))))
                        else:
                            goals.append((q, eqz(p1, p2)))
                    check_goals(ck, nm, l2.st, goals, rp)
                else:
                    ck.ok(nm + ': both %s' % kind)
        I.done(ex)
        ck.functions.add(clean(fo.name) + ' [String]')
        ck.functions.add(clean(fs.name) + ' [&str]')
    ck.part('agreement of borrowed and owned strings', strings)
    ck.assume(*ASSUME_NUM)
    lemmas(ck)
    ck.assume(*ASSUME_DISPLAY)


def agree_cases(ty, vs):
    out = []
    for x in vs:
        lo, hi = INT_RANGE[ty]
        if not lo <= x <= hi:
            continue
        out.append(('conv %s %d' % (ty, x), int_pred(ty, x)))
        w = isin({fmt(dict(n=float(abs(x)), i=abs(x), v=0, w=0, f=0, t=0))})
        out.append(('conv str ' + hx(str(x)), w))
        out.append(('conv string ' + hx(str(x)), w))
        if abs(x) <= 2 ** 53:
            out.append(('conv f64 ' + bits(float(x)), w))
        if abs(x) <= 2 ** 24:
            out.append(('conv f32 %08x' % struct.unpack('>I', struct.pack('>f', float(x)))[0], w))
        if -x >= lo and -x <= hi:
            out.append(('conv %s %d' % (ty, -x), int_pred(ty, -x)))
    return out
