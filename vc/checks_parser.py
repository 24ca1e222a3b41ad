"""Checks C10 .. C12 (crate cldr_pluralrules_parser)."""
import random
from .common import Check, Native, BuildError, known
from .intl import LIB_TRUST, ASSUME_COMMON
from mirvc.mir import Unsupported
from . import parser as PR
from . import pgram

COND = {'value', 'range', 'item', 'rlist', 'operand', 'modopt', 'expr', 'rel', 'andc', 'cond'}
SAMP = {'value', 'dec', 'srange', 'slist', 'samples', 'rule'}
NOM = 'contracts assumed on nom 5 combinators over complete &str input (mirvc/nomc.py), cross-checked by the bounded native comparison'


class Bare:
    def __init__(self):
        self.native = Native('parser')


def start(pid):
    ck = Check(pid)
    P = None
    try:
        P = PR.Parser(ck)
    except Unsupported as e:
        ck.undecided('anchors', e)
    except BuildError as e:
        ck.undecided('build', e)
        print(str(e)[-1500:])
    ck.trust(*LIB_TRUST)
    ck.trust(NOM)
    ck.assume(*ASSUME_COMMON)
    ck.assume('numbers in K obligations fit 64 bits (usize)', 'the grammar of vc/pgram.py is UTS #35 for CLDR 37, with the spacing stated in the property')
    return ck, P


def finish(ck, P, ksyms, entries, judge, pools):
    """entries: list of (label, obligation on an entry point)"""
    J = PR.Judge(P or Bare())
    if P:
        P.contracts(ksyms)
        deps = list(P.fails)
        helper_und = list(P.und)
        P.fails, P.und = [], []
        for label, f in entries:
            P.attempt(label, f)
        for label, why in P.und:
            ck.undecided(label, why)
        if P.und:
            for label, why in helper_und:
                ck.undecided(label, why)
        # an entry point that fails, or stays undecided because a callee broke its contract
        rnd = random.Random(ck.seed)

        def replays(e):
            def go():
                ts = []
                for t in PR.concretize(P, e.st, e.ps, rnd):
                    ts += [a + t + b for a in PR.PREFIX for b in SUFFIXES(t)]
                n, bad = judge(J)(list(dict.fromkeys(ts))[:6000])
                return None if not bad else '%r %s' % bad[0]
            return [('texts through the failing path', go)]
        for label, e in P.fails:
            ck.fail(label, e.what, replays(e))
        if P.fails or P.und:
            for label, e in deps:
                # a broken contract of a helper is reported only when a text shows it at an entry point
                r = replays(e)[0][1]
                try:
                    got = r()
                except Exception:
                    got = None
                if got:
                    ck.fail(label, e.what, [('texts through the failing path', lambda got=got: got)])
        ck.extra['contracts'] = dict(S=sorted(P.proved['S']), K=sorted(P.proved['K']))
        ck.samples += ['%s' % n for n, _ in ck.obligations[:20]]

    def bounded(ck, parts):
        deep = bool(ck.undecideds or ck.failed or ck.tier == 'thorough')
        total, out = 0, []
        for pool in pools:
            n, bad = judge(J)(pool(ck.seed, 6000 if deep else 500))
            total += n
            out += [(repr(t), m) for t, m in bad]
        ck.bounded.append(dict(part='native comparison with the reference parser', cases=total,
                               bound='generated and mutated texts; stands in for what is undecided, otherwise only cross-checks the assumed contracts'))
        return out[:20]
    return ck.finish(bounded)


def SUFFIXES(t):
    return PR.SUFFIX


def c10(pid):
    ck, P = start(pid)
    es = []
    if P:
        G = P.g['K']
        whole = [p for p in G.p['rule'] if p.name == 'condition samples'][0]
        cond = pgram.Prod('condition', [('nt', 'cond')], lambda c: pgram.S('Rule', condition=c, samples=pgram.NONE))
        bare = pgram.Prod('condition', [('nt', 'cond')], lambda c: c)
        es = [('parse_plural_rule: K(condition)', lambda: PR.prove_entry_k(P, 'parse_plural_rule', cond, 'rule')),
              ('parse_plural_condition: K(condition)', lambda: PR.prove_entry_k(P, 'parse_plural_condition', bare, 'cond'))]
    return finish(ck, P, COND, es, lambda J: J.strict_condition, [PR.cond_pool])


def c11(pid):
    ck, P = start(pid)
    es = []
    if P:
        es = [('parse_plural_rule: S', lambda: PR.prove_entry_s(P)),
              ('parse_plural_condition: no panic', lambda: PR.prove_cond_total(P)),
              ('both entry points agree', lambda: PR.prove_agree(P))]
    ck.assume('termination: the parser functions are not recursive and nom lists stop because separators are not empty (checked)')
    return finish(ck, P, set(), es, lambda J: J.accepts_only, [PR.wild_pool, PR.rule_pool])


def c12(pid):
    ck, P = start(pid)
    es = []
    if P:
        G = P.g['K']
        for p in G.p['rule']:
            if p.name == 'condition samples':
                for q in G.p['samples']:
                    es.append(('parse_plural_rule: K(condition, samples %s)' % q.name, lambda q=q: PR.prove_entry_k(
                        P, 'parse_plural_rule', pgram.Prod('condition + ' + q.name, [('nt', 'cond')] + q.elems,
                                                           lambda c, *a: pgram.S('Rule', condition=c, samples=q.build(*a))), 'rule')))
            else:
                es.append(('parse_plural_rule: K(%s)' % p.name, lambda p=p: PR.prove_entry_k(P, 'parse_plural_rule', p, 'rule')))
    J = PR.Judge(P or Bare())
    try:
        a, b = [x[0] for x in J.ask(['@decimal 1.05', '@decimal 1.5'])]
        for f in known()['findings']:
            if f['property'] == 'C12' and a == b:
                ck.finding(f['what'])
    except Exception:
        pass
    return finish(ck, P, COND | SAMP, es, lambda J: J.samples, [PR.rule_pool])


CHECKS = dict(C10=c10, C11=c11, C12=c12)
