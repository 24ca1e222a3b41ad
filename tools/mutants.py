#!/usr/bin/env python3
"""Systematic small mutations of /repo's non-test source: those that compile and pass the repository's tests go through the checks.

  mutants.py [-k file regex] [-n max] [-s seed] [-l LOG]     works in scratch copies (/tmp/mutants), which it removes again
Prints one line per mutant: not compiling, killed by the tests, or which checks report it; SURVIVED needs a human look.
"""
import argparse, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue

ROOT = '/tmp/mutants.%d' % os.getpid()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'intl_pluralrules/src/lib.rs': ['C03', 'C09', 'C01', 'C02'],
    'intl_pluralrules/src/operands.rs': ['C05', 'C06', 'C04', 'C07', 'C08'],
    'intl_pluralrules/src/rules.rs': ['C16', 'C01', 'C02', 'C03'],
    'cldr_pluralrules_parser/src/lib.rs': ['C10', 'C11', 'C12'],
    'cldr_pluralrules_parser/src/parser.rs': ['C10', 'C11', 'C12'],
    'make_pluralrules/src/lib.rs': ['C15', 'C14', 'C17', 'C16'],
    'make_pluralrules/src/main.rs': ['C17'],
    'make_pluralrules/src/parser/gen_pr.rs': ['C13', 'C16', 'C14'],
    'make_pluralrules/src/parser/gen_rs.rs': ['C14', 'C16', 'C15'],
    'make_pluralrules/src/parser/resource.rs': ['C15', 'C14'],
    'make_pluralrules/src/parser/plural_category.rs': ['C14'],
}
SWAP = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), ('&&', '||'), ('||', '&&'), (' + ', ' - '), (' - ', ' + '), ('true', 'false'), ('false', 'true'),
        ('is_some', 'is_none'), ('is_none', 'is_some'), ('is_ok', 'is_err'), ('is_err', 'is_ok'), ('..=', '..'), ('space0', 'space1'), ('space1', 'space0'),
        ('multispace0', 'space0'), ('separated_nonempty_list', 'separated_list'), ('separated_list', 'separated_nonempty_list'), ('digit1', 'alphanumeric1'),
        ('CARDINAL', 'ORDINAL'), ('ORDINAL', 'CARDINAL'), ('cardinal', 'ordinal'), ('ordinal', 'cardinal'), ('as u64', 'as u32 as u64'), ('as f64', 'as f32 as f64'),
        ('as usize', 'as u16 as usize'), ('as isize', 'as i32 as isize'), ('u64', 'u32'), ('usize', 'u32'), ('po.i', 'po.n as u64'), ('po.v', 'po.w'), ('po.w', 'po.v'), ('po.f', 'po.t'), ('po.t', 'po.f'),
        ('.unwrap()', '.unwrap_or_default()'), ('trim_end_matches', 'trim_start_matches'), ('trim_end_matches', 'trim_matches'), ('find(', 'rfind('), ('starts_with', 'ends_with'),
        ('sort_by_key', 'sort_unstable_by_key'), ('.rev()', ''), ('checked_abs()', 'checked_neg()'), ('Some(', 'None.or(Some('),
        ('ZERO', 'OTHER'), ('ONE', 'TWO'), ('TWO', 'FEW'), ('FEW', 'MANY'), ('MANY', 'FEW'), ('OTHER', 'MANY'), ('Operator::In', 'Operator::EQ'), ('NotIn', 'NotEQ'),
        ('NotWithin', 'Within'), ('IsNot', 'Is'), ('map_err', 'or_else(|e| Err(e)).map_err'), ('tag(', 'tag_no_case('), ('!', ''), ('?', '.ok().ok_or("x")?'), ('"-', '"_'), ('_', '-'),
        ('zero', 'one'), ('one', 'two'), ('two', 'few'), ('few', 'many'), ('Operand::', 'Operand::N; Operand::'), ('.f == 0', '.t == 0'), ('.0', '.1'), ('.1', '.0'), ('lower_val', 'upper_val'), ('upper_val', 'lower_val')]


def code(s):
    """the non-test part"""
    k = s.find('#[cfg(test)]')
    return len(s) if k < 0 else k


def mutations(s):
    end = code(s)
    lines = s[:end].split('\n')
    pos = 0
    out = []
    for n, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith('//') or t.startswith('use ') or t.startswith('#['):
            pos += len(l) + 1
            continue
        for a, b in SWAP:
            for m in re.finditer(re.escape(a), l):
                if re.match(r'\w', a) and m.start() and re.match(r'\w', l[m.start() - 1]):
                    continue
                out.append((n + 1, '%s -> %s' % (a, b), s[:pos + m.start()] + b + s[pos + m.end():]))
        for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', l):
            v = int(m.group())
            for w in (v + 1, v - 1, v + 256):
                if w >= 0:
                    out.append((n + 1, '%d -> %d' % (v, w), s[:pos + m.start()] + str(w) + s[pos + m.end():]))
        for m in re.finditer(r'"([^"\\]+)"', l):
            for w in (m.group(1)[:-1], m.group(1) + ' ', m.group(1) + 's'):
                out.append((n + 1, '"%s" -> "%s"' % (m.group(1), w), s[:pos + m.start(1)] + w + s[pos + m.end(1):]))
        if t.endswith(';') and not t.startswith('let ') and not t.startswith('pub '):
            out.append((n + 1, 'delete statement', s[:pos] + s[pos + len(l) + 1:]))
        if t.endswith(','):
            out.append((n + 1, 'delete line', s[:pos] + s[pos + len(l) + 1:]))
            if n + 1 < len(lines) and lines[n + 1].strip().endswith(','):
                k = pos + len(l) + 1
                l2 = lines[n + 1]
                out.append((n + 1, 'swap lines', s[:pos] + l2 + '\n' + l + s[k + len(l2):]))
        m = re.search(r'\.(\w+)\(([^()]*|\|[^|]*\|[^()]*)\)', l)
        if m:
            out.append((n + 1, 'drop .%s()' % m.group(1), s[:pos + m.start()] + s[pos + m.end():]))
        m = re.search(r'if (.*) \{$', l)
        if m and not m.group(1).startswith('let '):
            for w in ('true', 'false'):
                out.append((n + 1, 'if ' + w, s[:pos + m.start(1)] + w + s[pos + m.end(1):]))
        pos += len(l) + 1
    return [(n, d, x) for n, d, x in out if x != s]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-w', type=int, default=7)
    ap.add_argument('-d', default='', help='directory of patches named <checks>-<name>.diff instead')
    a = ap.parse_args()
    rnd = random.Random(a.s)
    q = queue.Queue()
    todo = []
    for f in sorted(os.listdir(a.d)) if a.d else ():
        if f.endswith('.diff') and re.search(a.k, f):
            todo.append((f, f.split('-')[0].split('+'), 0, '', os.path.abspath(os.path.join(a.d, f))))
    for f, cs in {} .items() if a.d else FILES.items():
        if re.search(a.k, f):
            s = open('/repo/' + f).read()
            ms = mutations(s)
            if a.n and len(ms) > a.n:
                ms = rnd.sample(ms, a.n)
            todo += [(f, cs) + m for m in ms]
    rnd.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    shutil.rmtree(ROOT, ignore_errors=True)

    def prepare(w):
        base = ROOT + '/%d' % w
        os.makedirs(base)
        sh('cp -a %s %s/verif && git clone -q /repo %s/repo' % (V, base, base))
        if os.path.exists('/repo/Cargo.lock'):
            shutil.copy('/repo/Cargo.lock', base + '/repo/')
        for c in ('gen', 'intl', 'parser'):
            p = '%s/verif/native/%s/Cargo.toml' % (base, c)
            s = open(p).read().replace('"/repo/', '"%s/repo/' % base)
            open(p, 'w').write(s)
        q.put(base)
    for w in range(a.w):
        prepare(w)

    def one(m):
        f, cs, n, d, text = m
        base = q.get()
        v, r = base + '/verif', base + '/repo'
        try:
            sh(['git', '-C', r, 'checkout', '-q', '--', '.'])
            if a.d:
                p = sh(['git', '-C', r, 'apply', text])
                if p.returncode:
                    print('NOT APPLICABLE', f, p.stderr[:200], flush=True)
                    return
            else:
                open(os.path.join(r, f), 'w').write(text)
            e = dict(os.environ, CARGO_TARGET_DIR=base + '/t', CARGO_NET_OFFLINE='true')
            b = sh('cargo build --workspace --offline -q', cwd=r, env=e)
            label = '%s:%d %s' % (f, n, d)
            if b.returncode:
                if a.d:
                    print('NO BUILD', f, b.stderr[-600:], flush=True)
                return
            t = sh('timeout 120 cargo test --workspace --offline -q', cwd=r, env=e)
            if t.returncode:
                if a.d:
                    print('TESTS FAIL', f, flush=True)
                return
            res = []
            caught = False
            for c in cs:
                k = sh(['timeout', '900', 'python3-vt', 'check.py', c], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'))
                ud = k.stdout.count('UNDECIDED')
                vio = 'VIOLATION' in k.stdout
                nf = 'no-failing-input-found' in k.stdout
                res.append('%s:%s%s' % (c, 'CAUGHT' + ('(nofail)' if nf else '') if vio else 'rc%d' % k.returncode, '/und%d' % ud if ud else ''))
                if vio:
                    caught = True
                    break
            print(('caught   ' if caught else 'SURVIVED ') + label + '   ' + ' '.join(res), flush=True)
        except Exception as ex:
            print('ERROR', f, n, d, ex, flush=True)
        finally:
            q.put(base)
    with ThreadPoolExecutor(a.w) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == '__main__':
    main()
