"""Shared machinery of the checks: obligations, solvers, native replay, evidence, verdict."""
import json, os, re, signal, subprocess, sys, time, hashlib, traceback
import z3
from mirvc.mir import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'


# types whose conversions a property speaks of: a missing one breaks it
OWN_TYPES = dict(C04=['u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'], C05=['&str', 'String'], C06=['&str', 'String'], C07=['f32', 'f64'])


class Undecided(Exception):
    pass


class TimeUp(BaseException):
    """the time budget of a part of the proof is used up: that part is undecided"""


class BuildError(Exception):
    """/repo's current tree does not build"""


def known():
    return json.load(open(os.path.join(VERIF, 'known_findings.json'), encoding='utf-8'))


class Check:
    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.level = level
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obligations = []            # (name, backend, seconds)
        self.failed = []                 # dict(name, detail, replays)
        self.undecideds = []             # (part, reason)
        self.functions = set()
        self.contracts_used = set()
        self.assumptions = []
        self.trusted = []
        self.solver_time = {}
        self.violations = []             # (name, detail, confirmed)
        self.findings = []
        self.bounded = []                # dict(part, cases, what)
        self.extra = {}
        self.samples = []
        self.vacuity = []
        self.xcheck = dict(agree=0, unknown=0, disagree=0)

    # ---- obligations -------------------------------------------------------------------
    def ok(self, name, backend='evaluation', secs=0.0):
        self.obligations.append((name, backend))
        self.solver_time[backend] = self.solver_time.get(backend, 0) + secs

    def fail(self, name, detail, replays=()):
        """replays: list of (description, callable -> None if not reproduced, else text of the mismatch)"""
        self.failed.append(dict(name=name, detail=detail, replays=list(replays)))

    def undecided(self, part, reason):
        self.undecideds.append((part, str(reason)[:600]))
        print('UNDECIDED %s: %s' % (part, str(reason)[:300]))

    def assume(self, *ts):
        for t in ts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *ts):
        for t in ts:
            if t not in self.trusted:
                self.trusted.append(t)

    def prove(self, name, premises, goal, secs=20):
        """-> None if discharged, a model if refuted; raises Undecided"""
        if goal is True:
            self.ok(name, 'evaluation')
            return None
        prem = [p for p in premises if z3.is_expr(p)]
        if any(p is False for p in premises):
            self.ok(name, 'evaluation')
            return None
        s = z3.Solver()
        s.set('timeout', secs * 1000)
        s.add(*prem)
        s.add(z3.Not(goal) if z3.is_expr(goal) else z3.BoolVal(True))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        if r == z3.unsat:
            self.ok(name, 'z3', dt)
            if self.tier == 'thorough':
                self.crosscheck(name, s)
            return None
        if r == z3.sat:
            self.solver_time['z3'] = self.solver_time.get('z3', 0) + dt
            return s.model()
        # second opinion
        v = run_cvc5(s.to_smt2(), 60)
        if v == 'unsat':
            self.ok(name, 'cvc5', time.time() - t - dt)
            return None
        raise Undecided('%s: solvers answered unknown' % name)

    def crosscheck(self, name, s):
        if self.xcheck['agree'] + self.xcheck['unknown'] >= 4000:
            return
        v = run_cvc5(s.to_smt2(), 10)
        if v == 'unsat':
            self.xcheck['agree'] += 1
        elif v == 'sat':
            self.xcheck['disagree'] += 1
            self.undecided(name, 'z3 and cvc5 disagree')
        else:
            self.xcheck['unknown'] += 1

    def valid(self, premises, goal, secs=10):
        """does the goal follow? (a choice of the argument, no obligation)"""
        s = z3.Solver(); s.set('timeout', secs * 1000)
        s.add(*[p for p in premises if z3.is_expr(p)])
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def satisfiable(self, what, cs):
        """vacuity guard: the premise must have a model"""
        s = z3.Solver(); s.set('timeout', 20000)
        s.add(*[c for c in cs if z3.is_expr(c)])
        r = s.check()
        self.vacuity.append('%s: %s' % (what, r))
        if r == z3.unsat:
            raise Undecided('vacuous premise: ' + what)
        return s.model() if r == z3.sat else None

    def finding(self, text):
        if text not in self.findings:
            self.findings.append(text)

    def limited(self, f):
        """f within the time budget of a part; raises TimeUp"""
        budget = (150, 400) if self.tier == 'quick' else (1200, 3600)
        left = min(budget[0], budget[1] - (time.time() - self.t0))
        if left < 2:
            raise TimeUp()

        def up(*a):
            raise TimeUp()
        old = signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, left, 2)
        try:
            return f()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def part(self, name, f, fallback=None):
        """run one part of the proof; what is outside the verifier's reach is handed to the bounded stand-in"""
        try:
            return self.limited(f)
        except TimeUp:
            self.undecided(name, 'time budget of this part of the proof used up')
        except (Unsupported, Undecided, RecursionError) as e:
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
            self.undecided(name, '%s: %s' % (type(e).__name__, e))
        except BuildError:
            raise
        except Exception as e:                        # an error of the verifier is never a verdict
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
            self.undecided(name, 'internal %s: %s' % (type(e).__name__, e))
        return None

    # ---- verdict -----------------------------------------------------------------------
    def finish(self, bounded=None):
        """bounded(check, parts): the bounded stand-in, run when something stayed undecided"""
        confirmed, unconfirmed = [], []
        for f in self.failed:
            hit = None
            for desc, rp in f['replays']:
                try:
                    r = rp()
                except Exception as e:
                    r = None
                if r:
                    hit = (desc, r)
                    break
            if hit:
                confirmed.append((f, hit))
            else:
                unconfirmed.append(f)
            if len(confirmed) >= 5:
                break
        if bounded:
            try:
                for desc, r in bounded(self, [p for p, _ in self.undecideds]):
                    confirmed.append((dict(name='bounded stand-in', detail=desc, replays=[]), (desc, r)))
                    if len(confirmed) >= 8:
                        break
            except Exception as e:
                if os.environ.get('VC_DEBUG'):
                    traceback.print_exc()
                gone = sorted({t for t in re.findall(r'`PluralOperands: (?:Try)?From<(&?\w+)>` is not satisfied', str(e))} & set(OWN_TYPES.get(self.pid, ())))
                if isinstance(e, BuildError) and gone:
                    confirmed.append((dict(name='the conversion exists', detail='PluralOperands cannot be made from ' + ', '.join(gone), replays=[]),
                                      ('a program that converts from %s' % ', '.join(gone), 'does not compile: ' + str(e)[:1500])))
                self.bounded.append(dict(part='stand-in', error=str(e)[:500]))
                print('stand-in failed: %s' % str(e)[:300])
        nothing = False
        if not self.failed and not confirmed and not self.obligations and not any(b.get('cases') for b in self.bounded):
            self.bounded.append(dict(part='all', error='nothing was decided'))
            nothing = True
        lines = []
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, self.pid + '.txt')
        if confirmed or unconfirmed:
            with open(rp, 'w') as h:
                for f, (desc, r) in confirmed:
                    h.write('FAILED OBLIGATION %s\n%s\nREPLAY on the real code: %s\n%s\n\n' % (f['name'], f['detail'], desc, r))
                for f in unconfirmed:
                    h.write('FAILED OBLIGATION %s\n%s\n(no concrete failing input found)\n\n' % (f['name'], f['detail']))
        for t in self.findings:
            lines.append('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        code = 0
        if confirmed:
            code = 1
            for f, (desc, r) in confirmed[:3]:
                lines.append('  %s: %s -> %s' % (f['name'], desc, r.replace('\n', ' | ')[:300]))
            lines.append('VIOLATION property=%s replay=%s' % (self.pid, rp))
        elif unconfirmed:
            code = 1
            for f in unconfirmed[:3]:
                lines.append('  failed obligation %s: %s' % (f['name'], f['detail'].replace('\n', ' | ')[:400]))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, rp))
        if nothing:
            code = 2
            lines.append('%s: nothing could be decided (does /repo build?)' % self.pid)
        self.evidence(len(confirmed) + len(unconfirmed))
        print('\n'.join(lines))
        print('%s: %d obligations discharged, %d failed, %d parts undecided, %.1f s' % (
            self.pid, len(self.obligations), len(self.failed), len(self.undecideds), time.time() - self.t0))
        return code

    def evidence(self, nviol):
        by = {}
        for n, b in self.obligations:
            by[b] = by.get(b, 0) + 1
        cov = dict(
            obligations=len(self.obligations) + len(self.failed) + len(self.undecideds),
            discharged=len(self.obligations),
            discharged_by_backend=by,
            checker_cmd='python3-vt /verif/check.py %s' % self.pid,
            trusted_base=self.trusted,
            functions_under_contract=sorted(self.functions),
            assumed_library_contracts=sorted(self.contracts_used),
            solver_time_s={k: round(v, 3) for k, v in self.solver_time.items()},
            failed_obligations=[f['name'] for f in self.failed][:50],
            undecided=[dict(part=p, reason=r) for p, r in self.undecideds],
            bounded=self.bounded,
            vacuity_guards=self.vacuity[:40],
            known_findings=self.findings,
            samples=self.samples[:20],
        )
        if self.tier == 'thorough':
            cov['cvc5_crosscheck'] = self.xcheck
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=str)


def run_cvc5(text, secs):
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (secs * 1000)], input='(set-logic ALL)\n' + text,
                           capture_output=True, text=True, timeout=secs + 20)
    except Exception:
        return 'error'
    o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error'
    return o


# ---- building ----------------------------------------------------------------------------------------
def env(target, nightly=False):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    if nightly:
        e['RUSTUP_TOOLCHAIN'] = NIGHTLY
    return e


def run(cmd, cwd, e, timeout=600, input=None):
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, input=input)


def build_native(crate):
    """build the native harness (path dependency on /repo's crate) and return the binary"""
    d = os.path.join(VERIF, 'native', crate)
    t = os.path.join(TARGET, 'native')
    r = run(['cargo', 'build', '--offline', '--quiet'], d, env(t))
    if r.returncode != 0:
        raise BuildError('native harness %s: %s' % (crate, r.stderr[-6000:]))
    return os.path.join(t, 'debug', 'native-' + crate)


def emit_mir(crate, package, target=('--lib',)):
    """MIR of a crate of /repo, produced by rustc from the current source"""
    d = os.path.join(VERIF, 'native', crate)
    stamp = hashlib.sha256(os.urandom(16)).hexdigest()[:16]
    r = run(['cargo', 'rustc', '--offline', '-p', package, *target, '--', '-Zunpretty=mir', '-Zmir-opt-level=0',
             '-Ztrim-diagnostic-paths=no', '-Awarnings', '--cfg', 'mirvc_' + stamp], d, env(os.path.join(TARGET, 'mir'), True))
    if r.returncode != 0 or 'fn ' not in r.stdout:
        raise BuildError('MIR of %s: %s' % (package, r.stderr[-6000:]))
    return r.stdout


def emit_bin_mir(crate, package, name):
    return emit_mir(crate, package, ('--bin', name))


class Native:
    def __init__(self, crate):
        self.crate, self.path = crate, None

    def ask(self, lines, timeout=300):
        if self.path is None:
            self.path = build_native(self.crate)
        r = subprocess.run([self.path], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=timeout)
        out = r.stdout.split('\n')
        if out and out[-1] == '':
            out.pop()
        if len(out) < len(lines):
            out += ['died'] * (len(lines) - len(out))
        return out
