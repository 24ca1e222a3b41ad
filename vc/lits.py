"""Literals of the current source, as a dictionary for the bounded stand-ins (never for a proof): numbers and texts a changed program may
treat specially."""
import os, re
from .common import REPO

NAMED = {'u8::MAX': 255, 'u16::MAX': 65535, 'u32::MAX': 2 ** 32 - 1, 'i8::MAX': 127, 'i16::MAX': 32767, 'i32::MAX': 2 ** 31 - 1, 'i64::MAX': 2 ** 63 - 1, 'u64::MAX': 2 ** 64 - 1,
         'usize::MAX': 2 ** 64 - 1, 'isize::MAX': 2 ** 63 - 1}
_cache = {}


def source(crate):
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, crate, 'src')):
        for f in sorted(fs):
            if f.endswith('.rs') and f != 'rules.rs':
                s = open(os.path.join(d, f), encoding='utf8', errors='replace').read()
                k = s.find('#[cfg(test)]\nmod')
                out.append(s if k < 0 else s[:k])
    return '\n'.join(re.sub(r'^\s*//.*$', '', x, flags=re.M) for x in out)


def unescape(s):
    s = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: chr(int(m.group(1).replace('_', ''), 16)), s)
    s = re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s)


def literals(crate):
    """-> (integers, texts)"""
    if crate not in _cache:
        s = source(crate)
        texts, ints = set(), set()
        for m in re.finditer(r"b?'((?:\\u\{[^}]*\}|\\.|[^'\\\n]))'|b?\"((?:\\.|[^\"\\])*)\"", s):
            t = unescape(m.group(1) if m.group(1) is not None else m.group(2))
            if 0 < len(t) <= 24:
                texts.add(t)
        s = re.sub(r"\"(?:\\.|[^\"\\])*\"", '""', s)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:e([0-9]+))?', s):
            try:
                ints.add(int(m.group(1).replace('_', ''), 0 if m.group(1)[:2] in ('0x', '0b', '0o') else 10) * 10 ** int(m.group(2) or 0))
            except ValueError:
                pass
        for m in re.finditer(r'(\d+)\w*\s*<<\s*(\d+)', s):
            ints.add(int(m.group(1)) << min(int(m.group(2)), 70))
        for m in re.finditer(r'(\d+)\w*\s*\*\s*(\d+)', s):
            ints.add(int(m.group(1)) * int(m.group(2)))
        for m in re.finditer(r'(\d+)\w*\.pow(?:i|f)?\((\d+)\)', s):
            ints.add(int(m.group(1)) ** min(int(m.group(2)), 70))
        for n, v in NAMED.items():
            if n in s:
                ints.add(v)
        _cache[crate] = (sorted(ints), sorted(texts))
    return _cache[crate]


def around(crate, top=None):
    """integers next to the literals"""
    out = set()
    for k in literals(crate)[0]:
        out |= {k - 1, k, k + 1}
    return sorted(x for x in out if x >= 0 and (top is None or x <= top))


def rule_numbers():
    """numbers next to the ones in the shipped table's rules"""
    try:
        s = open(os.path.join(REPO, 'intl_pluralrules/src/rules.rs'), encoding='utf8', errors='replace').read()
    except OSError:
        return []
    out = set()
    for l in s.split('\n'):
        if 'langid' not in l and 'from_raw' not in l:
            out |= {int(x.replace('_', '')) for x in re.findall(r'(?<![\w.])([0-9][0-9_]*)', l)}
    out |= set(literals('intl_pluralrules')[0])
    return sorted(x for x in {k + d for k in out for d in (-1, 0, 1)} if 0 <= x < 2 ** 53)
