"""Reading generated Rust code: token trees, the expression grammar of Rust (its operator precedences) and the meaning of a
boolean expression over the operands, as an SMT formula.

Tokens: ('id', s) ('p', s) ('num', value, suffix) ('float', value) ('str', s) ('life', s) ('grp', delimiter, tokens) and, for symbolic token
streams, ('ex', level, meaning) -- an expression whose outermost operator binds at `level` -- and ('seg', cases) -- the contributions
of the elements of a list of unknown length (mirvc/tok.py)."""
import re
import z3
from mirvc.mir import Unsupported

LEX = re.compile(r'''\s*(?:
 (?P<str>"(?:\\.|[^"\\])*")|
 (?P<float>\d[\d_]*\.\d[\d_]*(?:f64|f32)?)|
 (?P<num>\d[\d_]*)(?P<suf>u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f64|f32)?|
 (?P<life>'\w+(?!'))|
 (?P<id>[A-Za-z_]\w*)|
 (?P<p>\.\.=|\.\.\.|<<=|>>=|&&|\|\||==|!=|<=|>=|=>|->|::|\.\.|<<|>>|\+=|-=|\*=|%=|/=|[-+*/%!&|^<>=.,;:\#$?@~\(\)\[\]\{\}])
)''', re.X)


class NotRust(Exception):
    """the text is not well-formed (or not well-typed): it would not compile"""


def lex(text):
    out, k = [], 0
    text = text.rstrip()
    while k < len(text):
        m = LEX.match(text, k)
        if not m or m.end() == k:
            raise NotRust('cannot read %r' % text[k:k + 30])
        k = m.end()
        if m.group('str') is not None:
            out.append(('str', m.group('str')))
        elif m.group('float') is not None:
            t = m.group('float').replace('_', '')
            t = re.sub('f..$', '', t)
            i, f = t.split('.')
            out.append(('float', (int(i), f)))
        elif m.group('num') is not None:
            out.append(('num', int(m.group('num').replace('_', '')), m.group('suf') or ''))
        elif m.group('life') is not None:
            out.append(('life', m.group('life')))
        elif m.group('id') is not None:
            out.append(('id', m.group('id')))
        else:
            out.append(('p', m.group('p')))
    return tree(out)


def tree(toks):
    stack = [[]]
    opens = []
    for t in toks:
        if t[0] == 'p' and t[1] in '([{':
            opens.append(t[1]); stack.append([])
        elif t[0] == 'p' and t[1] in ')]}':
            if not opens or '([{'.index(opens[-1]) != ')]}'.index(t[1]):
                raise NotRust('unbalanced')
            d = opens.pop(); g = stack.pop()
            stack[-1].append(('grp', d, tuple(g)))
        else:
            stack[-1].append(t)
    if opens:
        raise NotRust('unbalanced')
    return tuple(stack[0])


# binding strengths (the Rust reference); comparisons do not associate
LEVEL = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7,
         '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}
RANGE, AS, UNARY, PRIMARY = 0, 10, 11, 12


class Tokens:
    def __init__(self, toks):
        self.t, self.k = list(toks), 0

    def peek(self, d=0):
        return self.t[self.k + d] if self.k + d < len(self.t) else ('end',)

    def next(self):
        t = self.peek(); self.k += 1
        return t

    def isp(self, s, d=0):
        return self.peek(d)[:2] == ('p', s)

    def isid(self, s, d=0):
        return self.peek(d)[:2] == ('id', s)

    def eat(self, s):
        if not self.isp(s):
            raise NotRust('%r expected, found %s' % (s, show([self.peek()])))
        self.k += 1

    def end(self):
        return self.k >= len(self.t)


def show(toks):
    out = []
    for t in toks:
        if t[0] == 'grp':
            out.append(t[1] + show(t[2]) + ')]}'['([{'.index(t[1])])
        elif t[0] == 'num':
            out.append('%s%s' % (t[1], t[2]))
        elif t[0] == 'float':
            out.append('%s.%s' % t[1])
        elif t[0] == 'ex':
            out.append('<expr %s>' % (t[2],))
        elif t[0] == 'seg':
            out.append('<each %s>' % ' | '.join('%s: %s' % (c[0].name, show(c[2])) for c in t[1]))
        elif t[0] == 'end':
            out.append('end')
        else:
            out.append(str(t[1]))
    return ' '.join(out)


class NeedFirst(Exception):
    """a list of unknown length stands where its first element matters"""

    def __init__(self, seg):
        Exception.__init__(self, 'list of unknown length')
        self.seg = seg


def expr(ts, minlevel=RANGE, brace=True):
    """-> ast; brace=False in the condition of an `if`"""
    if ts.isp('..') or ts.isp('..='):
        if minlevel > RANGE:
            raise NotRust('range operand')
        op = ts.next()[1]
        return ('range', None, expr(ts, 1, brace), op == '..=')
    lim = PRIMARY                       # binding level of an already translated expression on the left
    t = ts.peek()
    if t[0] == 'ex' and not (ts.peek(1)[0] == 'p' and ts.peek(1)[1] == '.' and t[1] >= PRIMARY):
        # operands of && and || may be chains of the same operator (they associate)
        if t[1] < minlevel and not (t[1] == minlevel - 1 and t[1] in (1, 2)):
            raise NotRust('an expression of weaker binding where a tighter one is needed')
        ts.next()
        a, lim = ('sem', t[2], t[1]), t[1]
    else:
        a = unary(ts, brace)
    while True:
        t = ts.peek()
        if t[0] == 'seg':
            live = t[1]
            ops = {c[2][0][1] if c[2][0][0] == 'p' else None for c in live}
            if len(ops) != 1 or None in ops:
                raise NeedFirst(t)
            op = ops.pop()
            lv = LEVEL.get(op)
            if lv is None:
                raise NeedFirst(t)
            if lv < minlevel:
                return a
            if lv not in (1, 2):
                raise Unsupported('repetition joined by ' + op)
            if lv > lim:
                raise NotRust('%s binds tighter than the expression before it' % op)
            ts.next()
            cs = []
            for bag, guard, toks in live:
                sub = Tokens(toks)
                parts = []
                while not sub.end():
                    if not sub.isp(op):
                        raise Unsupported('repeated part %s' % show(toks))
                    sub.next()
                    parts.append(expr(sub, lv + 1))
                cs.append((bag, guard, tuple(parts)))
            a = ('bin', op, a, ('tail', op, tuple(cs)))
            lim = lv
            continue
        if t[:2] == ('id', 'as'):
            if AS < minlevel:
                return a
            if lim < AS:
                raise NotRust('`as` binds tighter than the expression before it')
            ts.next()
            ty = ts.next()
            if ty[0] != 'id':
                raise NotRust('type expected')
            a = ('as', a, ty[1])
            continue
        if t[0] != 'p':
            return a
        if t[1] in ('..', '..='):
            if RANGE < minlevel:
                return a
            ts.next()
            b = None
            if not ts.end() and not (ts.peek()[0] == 'p' and ts.peek()[1] in (',', ';', '=>')):
                b = expr(ts, 1, brace)
            a = ('range', a, b, t[1] == '..=')
            if ts.isp('..') or ts.isp('..='):
                raise NotRust('ranges do not associate')
            continue
        lv = LEVEL.get(t[1])
        if lv is None or lv < minlevel:
            return a
        if lv > lim or lv == 3 and lim == 3:
            raise NotRust('%s binds tighter than the expression before it' % t[1])
        ts.next()
        b = expr(ts, lv + 1, brace)
        a = ('bin', t[1], a, b)
        if lim < PRIMARY:
            lim = lv
        if lv == 3 and ts.peek()[0] == 'p' and LEVEL.get(ts.peek()[1]) == 3:
            raise NotRust('comparison operators do not associate')


def level(e):
    """binding level of the outermost operator"""
    k = e[0]
    if k == 'bin':
        return LEVEL[e[1]]
    if k == 'sem':
        return e[2]
    if k == 'range':
        return RANGE
    if k == 'as':
        return AS
    if k == 'un':
        return UNARY
    return PRIMARY


def unary(ts, brace):
    t = ts.peek()
    if t[0] == 'p' and t[1] in '!-*' and len(t[1]) == 1:
        ts.next()
        return ('un', t[1], unary(ts, brace))
    if t[:2] == ('p', '&') or t[:2] == ('p', '&&'):
        ts.next()
        if ts.isid('mut'):
            ts.next()
        return ('un', '&', unary(ts, brace))
    return postfix(ts, brace)


def whole(toks, what='expression'):
    ts = Tokens(toks)
    if ts.end():
        raise NotRust('empty ' + what)
    e = top(ts)
    if not ts.end():
        raise NotRust('%s continues with %s' % (what, show(ts.t[ts.k:ts.k + 6])))
    return e


def top(ts, brace=True, minlevel=RANGE):
    return expr(ts, minlevel, brace)


def postfix(ts, brace):
    t = ts.next()
    if t[0] == 'grp' and t[1] == '(':
        e = ('paren', whole(t[2], 'parenthesis')) if t[2] else ('unit',)
    elif t[0] == 'grp' and t[1] == '{' and brace:
        e = block(t[2])
    elif t[0] == 'num':
        e = ('num', t[1], t[2])
    elif t[0] == 'float':
        e = ('float', t[1])
    elif t[0] == 'ex':
        if t[1] < PRIMARY:
            raise NotRust('an expression of weaker binding where a tighter one is needed')
        e = ('sem', t[2], t[1])
    elif t[0] == 'seg':
        raise NeedFirst(t)
    elif t[:2] == ('id', 'if'):
        return ifexpr(ts)
    elif t[0] == 'id' and t[1] in ('true', 'false'):
        e = ('bool', t[1] == 'true')
    elif t[0] == 'id':
        p = [t[1]]
        while ts.isp('::'):
            ts.next()
            n = ts.next()
            if n[0] != 'id':
                raise Unsupported('path')
            p.append(n[1])
        if ts.isp('!') and ts.peek(1)[0] == 'grp' and len(p) == 1:
            ts.next()
            e = ('macro', p[0], ts.next()[2])
        else:
            e = ('path', tuple(p))
    else:
        raise NotRust('unexpected %s' % show([t]))
    while True:
        if ts.isp('.'):
            ts.next()
            n = ts.next()
            if n[0] == 'num' and e[0] == 'num' and n[1] == 0 and not n[2] and not e[2]:
                e = ('float', (e[1], '0'))               # `5 . 0`: rustfmt prints it as the literal 5.0
            elif n[0] == 'id':
                if ts.peek()[0] == 'grp' and ts.peek()[1] == '(':
                    e = ('call', e, n[1], args(ts.next()[2]))
                else:
                    e = ('field', e, n[1])
            else:
                raise NotRust('field %s of %s' % (show([n]), e))
        elif ts.peek()[0] == 'grp' and ts.peek()[1] == '(' and e[0] in ('path', 'paren'):
            e = ('fcall', e, args(ts.next()[2]))
        else:
            return e


def args(toks):
    out, cur = [], []
    for t in toks:
        if t[:2] == ('p', ','):
            out.append(cur); cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return tuple(whole(c, 'argument') for c in out)


def block(toks):
    ts = Tokens(toks)
    e = top(ts)
    if not ts.end():
        raise Unsupported('block with statements')
    return ('block', e)


def ifexpr(ts):
    """after `if`"""
    c = top(ts, brace=False)
    b = ts.next()
    if b[0] != 'grp' or b[1] != '{':
        raise NotRust('block expected after the condition, found %s' % show([b]))
    th = block(b[2])
    if not ts.isid('else'):
        return ('if', c, th, None)
    ts.next()
    if ts.isid('if'):
        ts.next()
        return ('if', c, th, ifexpr(ts))
    b = ts.next()
    if b[0] != 'grp' or b[1] != '{':
        raise NotRust('block expected after else')
    return ('if', c, th, block(b[2]))


# ---- meaning -----------------------------------------------------------------------------------------
REM = z3.Function('rem', z3.IntSort(), z3.IntSort(), z3.IntSort())
FIELD_TY = dict(n='f64', i='u64', v='usize', w='usize', f='u64', t='u64')
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
MAXV = {'u8': 2 ** 8, 'u16': 2 ** 16, 'u32': 2 ** 32, 'u64': 2 ** 64, 'usize': 2 ** 64, 'u128': 2 ** 128}


class Meaning:
    """o: operands as SMT terms; values: (type, term); type '{integer}' for unsuffixed literals"""

    def __init__(self, o, sem=None, joinf=None):
        self.o, self.sem, self.joinf = o, sem, joinf

    def boolean(self, e):
        ty, v = self.ev(e)
        if ty != 'bool':
            raise NotRust('%s where a condition is needed' % ty)
        return v

    def unify(self, a, b):
        (ta, va), (tb, vb) = a, b
        if ta == tb:
            return ta
        if ta == '{integer}' and tb in INTS:
            return tb
        if tb == '{integer}' and ta in INTS:
            return ta
        raise NotRust('mismatched types %s and %s' % (ta, tb))

    def ev(self, e):
        k = e[0]
        if k in ('paren', 'block'):
            return self.ev(e[1])
        if k == 'sem':
            return ('bool', self.sem(e[1]))
        if k == 'tail':
            return ('bool', self.joinf(self, e))
        if k == 'bool':
            return ('bool', z3.BoolVal(e[1]))
        if k == 'num':
            return (e[2] or '{integer}', e[1] if z3.is_expr(e[1]) else z3.IntVal(e[1]))
        if k == 'float':
            i, f = e[1]
            v = z3.ToReal(i) if z3.is_expr(i) else z3.RealVal(i)
            if f.strip('0'):
                v = v + z3.Q(int(f), 10 ** len(f))
            return ('f64', v)
        if k == 'field':
            if e[1] == ('path', ('po',)) and e[2] in FIELD_TY:
                return (FIELD_TY[e[2]], self.o[e[2]])
            raise NotRust('field %s' % e[2])
        if k == 'un':
            if e[1] == '!':
                ty, v = self.ev(e[2])
                if ty != 'bool':
                    raise Unsupported('! on ' + ty)
                return ('bool', z3.Not(v))
            if e[1] == '&':
                ty, v = self.ev(e[2])
                return ('&' + ty, v)
            if e[1] == '*':
                ty, v = self.ev(e[2])
                if not ty.startswith('&'):
                    raise NotRust('* on ' + ty)
                return (ty[1:], v)
            raise Unsupported('unary ' + e[1])
        if k == 'range':
            if e[1] is None or e[2] is None:
                raise Unsupported('half-open range')
            a, b = self.ev(e[1]), self.ev(e[2])
            return ('range', (self.unify(a, b), a[1], b[1], e[3]))
        if k == 'call' and e[2] == 'contains' and len(e[3]) == 1:
            ty, r = self.ev(e[1])
            if ty != 'range':
                raise Unsupported('contains on ' + ty)
            at, av = self.ev(e[3][0])
            if not at.startswith('&'):
                raise NotRust('contains takes a reference')
            self.unify((r[0], r[1]), (at[1:], av))
            return ('bool', z3.And(r[1] <= av, av <= r[2] if r[3] else av < r[2]))
        if k == 'as':
            ty, v = self.ev(e[1])
            if e[2] == ty or (ty in ('u64', 'usize', '{integer}') and e[2] in ('u64', 'usize', 'u128')):
                return (e[2], v)
            raise Unsupported('as ' + e[2])
        if k == 'bin':
            op = e[1]
            a, b = self.ev(e[2]), self.ev(e[3])
            if op in ('&&', '||'):
                if a[0] != 'bool' or b[0] != 'bool':
                    raise NotRust('%s on %s and %s' % (op, a[0], b[0]))
                return ('bool', z3.And(a[1], b[1]) if op == '&&' else z3.Or(a[1], b[1]))
            if op in ('==', '!=', '<', '<=', '>', '>='):
                while a[0].startswith('&') and b[0].startswith('&'):
                    a, b = (a[0][1:], a[1]), (b[0][1:], b[1])
                if a[0] != 'bool' or b[0] != 'bool':
                    self.unify(a, b)
                x, y = a[1], b[1]
                return ('bool', {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                                 '>': lambda: x > y, '>=': lambda: x >= y}[op]())
            ty = self.unify(a, b)
            if op == '%' and ty in INTS + ('{integer}',):
                if z3.is_int_value(b[1]):
                    if b[1].as_long() <= 0:
                        raise NotRust('remainder by zero')
                    return (ty, a[1] % b[1])
                return (ty, REM(a[1], b[1]))
            raise Unsupported('operator ' + op)
        raise Unsupported('expression ' + k)


# ---- the file ----------------------------------------------------------------------------------------
def items(toks):
    """-> dict(version=int, tables={name: [(langid macro args, closure body tokens)]}) of a generated file"""
    ts = Tokens(toks)
    out = dict(version=None, tables={}, order=[])
    while not ts.end():
        if ts.isp('#') and ts.isp('!', 1):
            ts.k += 3
        elif ts.isid('use') or (ts.isid('pub') and ts.isid('type', 1)):
            while not ts.isp(';'):
                ts.next()
            ts.next()
        elif ts.isid('macro_rules'):
            ts.k += 4
            if ts.isp(';'):
                ts.next()
        elif ts.isid('pub') and ts.peek(1)[0] == 'id' and ts.peek(1)[1] in ('static', 'const'):
            name = ts.peek(2)[1]
            ts.k += 3
            while not ts.isp('='):
                ts.next()
            ts.next()
            val = []
            while not ts.isp(';'):
                val.append(ts.next())
            ts.next()
            if name == 'CLDR_VERSION':
                if out['version'] is not None or len(val) != 1 or val[0][0] != 'num':
                    raise NotRust('CLDR_VERSION')
                out['version'] = val[0][1]
            else:
                if name in out['tables'] or len(val) != 2 or val[0] != ('p', '&') or val[1][:2] != ('grp', '['):
                    raise NotRust('table ' + name)
                out['tables'][name] = val[1][2]
                out['order'].append(name)
        elif ts.isp(';'):
            ts.next()
        else:
            raise Unsupported('item %s' % show(ts.t[ts.k:ts.k + 4]))
    return out


def commas(toks):
    out, cur = [], []
    for t in toks:
        if t[:2] == ('p', ','):
            out.append(tuple(cur)); cur = []
        else:
            cur.append(t)
    if cur:
        out.append(tuple(cur))
    return out


def entry(toks):
    """`( langid!(..) , |po| { body } )` -> (argument token lists, body ast)"""
    if len(toks) != 1 or toks[0][:2] != ('grp', '('):
        raise NotRust('table entry ' + show(toks)[:60])
    ps = commas(toks[0][2])
    if len(ps) != 2:
        raise NotRust('table entry with %d parts' % len(ps))
    k, c = ps
    if not (len(k) == 3 and k[0] == ('id', 'langid') and k[1] == ('p', '!') and k[2][0] == 'grp'):
        raise NotRust('key ' + show(k)[:60])
    if not (len(c) == 4 and c[0] == ('p', '|') and c[1] == ('id', 'po') and c[2] == ('p', '|') and c[3][:2] == ('grp', '{')):
        raise NotRust('rule ' + show(c)[:60])
    return commas(k[2][2]), c[3][2]


def subtag(toks, kind, option):
    """raw value of a subtag argument, or None"""
    if toks == (('id', 'None'),):
        return None
    if option:
        if len(toks) != 2 or toks[0] != ('id', 'Some') or toks[1][:2] != ('grp', '('):
            raise NotRust('key part ' + show(toks))
        toks = toks[1][2]
    want = [('id', 'subtags'), ('p', '::'), ('id', kind), ('p', '::'), ('id', 'from_raw_unchecked')]
    if list(toks[:5]) != want or len(toks) != 6 or toks[5][0] != 'grp' or len(toks[5][2]) != 1 or toks[5][2][0][0] != 'num':
        raise NotRust('key part ' + show(toks))
    return toks[5][2][0]


def chain(body):
    """closure body -> list of (condition ast or None, category)"""
    ts = Tokens(body)
    out = []
    if ts.end():
        raise NotRust('empty body')
    e = ifexpr(ts) if ts.isid('if') and ts.next() else whole(ts.t)
    if ts.k and not ts.end():
        raise NotRust('rule continues with %s' % show(ts.t[ts.k:ts.k + 4]))

    def cat(b):
        while b[0] in ('block', 'paren'):
            b = b[1]
        if b[0] == 'path' and b[1][0] == 'PluralCategory' and len(b[1]) == 2:
            return b[1][1].lower()
        raise NotRust('%s is not a category' % (b,))
    while e is not None and e[0] == 'if':
        out.append((e[1], cat(e[2])))
        e = e[3]
    if e is None:
        raise NotRust('if without else')
    out.append((None, cat(e)))
    return out
