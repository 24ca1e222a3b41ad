"""Checks C01 .. C09 (crate intl_pluralrules)."""
from .common import Check
from .intl import (Intl, select_contract, select_cases, get_locale_contract, lookup, lookup_cases, rules_part, bounded_rules, run_cases, isin)
from . import conv, lits
from .common import BuildError
from mirvc.mir import Unsupported


def start(pid):
    ck = Check(pid)
    I = None
    try:
        I = Intl(ck)
    except Unsupported as e:
        ck.undecided('anchors', e)
    except BuildError as e:
        ck.undecided('build', e)
        print(str(e)[-1500:])
    if I is None:                                     # native part only
        I = Intl.__new__(Intl)
        from .common import Native
        I.ck, I.native, I.prog = ck, Native('intl'), None
    return ck, I


def more(ck):
    return 600 if ck.undecideds or ck.failed or ck.tier == 'thorough' else 0


def conv_cases(I, ck, what):
    n = 4000 if ck.undecideds or ck.failed or ck.tier == 'thorough' else 400
    cs = []
    if 'int' in what:
        cs += conv.int_cases(ck.seed, n // 10)
    if 'str' in what:
        cs += conv.str_cases(conv.string_pool(ck.seed, n))
    if 'float' in what:
        cs += conv.float_cases(I, ck.seed, n)
    ck.bounded.append(dict(part='native conversions (%s)' % ','.join(what), cases=len(cs), bound='sampled; cross-checks the assumed library contracts, never counted as proof'))
    return run_cases(I, cs)


def stress_cases(ck):
    n = 1500000 if ck.undecideds or ck.failed or ck.tier == 'thorough' else 200000
    extra = []
    if n > 1000000:
        for k in lits.around('intl_pluralrules', 2 ** 64)[:40]:
            extra += ['%d' % k, '%d.0' % k, '%d.5' % k]
    return [('stress %d %d%s' % (n, ck.seed, ''.join(' ' + x.encode().hex() for x in extra)), isin({'same'}))]


def rules_check(kind):
    def run(pid):
        ck, I = start(pid)
        if I.prog:
            ck.part('select', lambda: select_contract(I))
            ck.part('%s rules' % kind, lambda: rules_part(I, kind))
            ck.part('text', lambda: conv.text_contract(I))
            conv.int_contract(I)
            conv.float_contract(I)
        ck.assume('operand sets quantified over: those of decimal numbers whose integer and fraction digits fit 64 bits and whose fraction is not lost '
                  'in the double n (n is compared through n = i exactly when f = 0, i < n < i+1 otherwise, below 2^53)')

        def bounded(ck, parts):
            return (bounded_rules(I, kind, extra=more(ck)) + run_cases(I, select_cases())
                    + conv_cases(I, ck, ('int', 'str', 'float')))
        return ck.finish(bounded)
    return run


def c03(pid):
    ck, I = start(pid)
    if I.prog:
        for k in ('cardinal', 'ordinal'):
            ck.part('lookup ' + k, lambda: lookup(I, k))
        ck.part('get_locale and clone', lambda: get_locale_contract(I))
    ck.assume('Ord and Eq of LanguageIdentifier: identifiers are equal iff language, script, region and variants are; ordered by language bytes, then script, then region, absent first',
              'slice::binary_search_by_key on a strictly sorted slice finds the key iff it is present')

    def bounded(ck, parts):
        cs = lookup_cases('cardinal') + lookup_cases('ordinal') + stress_cases(ck)
        ck.bounded.append(dict(part='native lookups', cases=len(cs), bound='all CLDR locales, all 2-letter languages, near misses'))
        return run_cases(I, cs)
    return ck.finish(bounded)


def c04(pid):
    ck, I = start(pid)
    if I.prog:
        conv.int_contract(I)
    return ck.finish(lambda ck, p: conv_cases(I, ck, ('int',)))


def c05(pid):
    ck, I = start(pid)
    if I.prog:
        ck.part('&str numerals', lambda: conv.text_contract(I, '&str'))
        ck.part('String numerals', lambda: conv.text_contract(I, 'String'))
    return ck.finish(lambda ck, p: conv_cases(I, ck, ('str',)))


def c06(pid):
    ck, I = start(pid)
    if I.prog:
        ck.part('&str arbitrary text', lambda: conv.reject_contract(I, '&str'))
        ck.part('String arbitrary text', lambda: conv.reject_contract(I, 'String'))
        ck.part('select', lambda: select_contract(I))
    return ck.finish(lambda ck, p: conv_cases(I, ck, ('str',)) + run_cases(I, select_cases()))


def c07(pid):
    ck, I = start(pid)
    if I.prog:
        conv.float_contract(I)
    return ck.finish(lambda ck, p: conv_cases(I, ck, ('float',)))


def c08(pid):
    ck, I = start(pid)
    if I.prog:
        conv.agreement(I)

    def bounded(ck, p):
        cs = []
        for ty in conv.UNSIGNED + conv.SIGNED:
            cs += conv.agree_cases(ty, conv.int_values(ty, ck.seed, 100 if ck.undecideds or ck.failed else 20))
        ck.bounded.append(dict(part='native agreement', cases=len(cs), bound='boundary and sampled integers'))
        return run_cases(I, cs) + conv_cases(I, ck, ('str',))
    return ck.finish(bounded)


def c09(pid):
    ck, I = start(pid)
    if I.prog:
        ck.part('select', lambda: select_contract(I))
        ck.part('get_locale and clone', lambda: get_locale_contract(I))
    ck.assume('a rule function (fn pointer) and a user conversion are pure: equal arguments give equal results',
              'TryInto::try_into is the blanket implementation over TryFrom')

    def bounded(ck, p):
        cs = select_cases() + stress_cases(ck)
        ck.bounded.append(dict(part='native selections', cases=len(cs), bound='sampled; one long history of repeated calls'))
        return run_cases(I, cs)
    return ck.finish(bounded)


CHECKS = dict(C01=rules_check('cardinal'), C02=rules_check('ordinal'), C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09)
