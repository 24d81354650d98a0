#!/usr/bin/env python3
"""Runs one check: builds /repo's working tree with its harness, drives it in 8 workers, judges the logs.

  run.py check ID          the check of property ID (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay FILE       the case a VIOLATION line points to
  run.py build SPEC        only build
  run.py setup             is everything there that the checks need
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS, SPECS

REPO = os.environ.get('VERIF_REPO', '/repo')
MAIN = REPO + '/core/src/main/cpp'
BUILD = os.environ.get('VERIF_BUILD', V + '/build')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', V + '/evidence')
HARNESS = V + '/harness'
KNOWN = V + '/known_findings.txt'
WORKERS = 8
EXIT_HANG, EXIT_VALGRIND, EXIT_TSAN = 97, 98, 66


class HarnessError(Exception):
    pass


def say(s):
    print(s, flush=True)


# ---------------------------------------------------------------- building

BASE = ['-w', '-std=c++14', '-O1', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits', '-include', 'algorithm']


def includes():
    return ['-I' + MAIN + '/algorithm', '-I' + MAIN + '/interfaces', '-I' + MAIN, '-I' + REPO + '/core',
            '-I' + REPO + '/binding/src/main/cpp', '-I' + HARNESS + '/stub', '-I' + HARNESS]


def tree_hash(what, roots):
    h = hashlib.sha256(repr((what, BASE, REPO)).encode())
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cc', '.cpp', '.h', '.hpp', '.inc', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def build(specs):
    """Compiles the library and the harnesses of some specs; archives and binaries are kept until a source changes."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exes, libs, jobs = {}, {}, []
        tmp = tempfile.mkdtemp(prefix='vgram-build-', dir='/tmp')
        try:
            todo = []
            for spec in specs:
                s = SPECS[spec]
                exes[spec] = '%s/%s-%s' % (BUILD, spec, tree_hash(s, (MAIN, REPO + '/binding/src/main/cpp', HARNESS)))
                if os.path.exists(exes[spec]):
                    continue
                todo.append(spec)
                for h in s['harness']:
                    jobs.append((os.path.getsize(HARNESS + '/' + h + '.cc'), HARNESS + '/' + h + '.cc', s['harness_flags'], '%s/%s.%s.o' % (tmp, spec, h), None))
                name = 'lib%s-%s.a' % (hashlib.sha256(repr(s['lib_flags']).encode()).hexdigest()[:6], tree_hash(s['lib_flags'], (MAIN,)))
                s_lib = BUILD + '/' + name
                if s_lib not in libs.values() and not os.path.exists(s_lib):
                    n = 0
                    for d, dirs, files in os.walk(MAIN):
                        dirs.sort()
                        for f in sorted(files):
                            if f.endswith(('.cc', '.cpp')):
                                p = os.path.join(d, f)
                                jobs.append((os.path.getsize(p), p, s['lib_flags'], '%s/%s.%d_%s.o' % (tmp, name, n, f.rsplit('.', 1)[0]), s_lib))
                                n += 1
                libs[spec] = s_lib

            def one(job):
                _, src, flags, out, lib = job
                p = subprocess.run(['g++'] + BASE + ['-g'] + flags + includes() + ['-c', src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                return job, p.returncode, p.stdout.decode(errors='replace')

            made = {}
            jobs.sort(key=lambda j: (j[4] is not None, -j[0]))
            with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
                for (_, src, flags, out, lib), rc, text in ex.map(one, jobs):
                    if rc:
                        say('compile error in %s:\n%s' % (src, text[:3000]))
                        if not lib:
                            raise HarnessError('the harness does not compile')
                    elif lib:
                        made.setdefault(lib, []).append(out)
            for lib, objs in made.items():
                for old in glob.glob(re.sub('-[0-9a-f]*[.]a$', '-*', lib)):
                    os.unlink(old)
                subprocess.run(['ar', 'rcs', tmp + '/new.a'] + objs, check=True)
                shutil.move(tmp + '/new.a', lib)
            for spec in todo:
                s = SPECS[spec]
                for old in glob.glob(BUILD + '/' + spec + '-*'):
                    os.unlink(old)
                p = subprocess.run(['g++'] + s['link_flags'] + ['%s/%s.%s.o' % (tmp, spec, h) for h in s['harness']] + [libs[spec], '-o', tmp + '/exe', '-pthread'],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    say(p.stdout.decode(errors='replace')[:4000])
                    raise HarnessError('the harness does not link')
                shutil.move(tmp + '/exe', exes[spec])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return exes


# ---------------------------------------------------------------- running

def crash_key(rc, err):
    m = re.search(r'AddressSanitizer: ([a-zA-Z0-9_-]+)', err)
    if m and m.group(1) != 'ABRT':
        return 'crash:asan-' + m.group(1)
    if 'LeakSanitizer' in err:
        return 'crash:leak'
    m = re.search(r'WARNING: ThreadSanitizer: ([a-z -]+)', err)
    if m:
        return 'crash:tsan-' + m.group(1).strip().replace(' ', '-')
    m = re.search(r'runtime error: ([a-z ]+)', err)
    if m:
        return 'crash:ubsan-' + '-'.join(m.group(1).split()[:4])
    m = re.search(r'Assertion|attempt to |Error: ', err)
    if m:
        return 'crash:assertion'
    if rc == EXIT_VALGRIND:
        m = re.search(r'==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid read|Invalid write|Invalid free|Mismatched free|[\d,]+ (?:\([^)]*\) )?bytes in [\d,]+ blocks)', err)
        k = m.group(1) if m else 'error'
        return 'valgrind:' + ('leak' if 'bytes' in k else k.replace(' ', '-'))
    if 'terminate called' in err:
        return 'crash:terminate'
    return 'crash:signal-%d' % -rc if rc < 0 else 'crash:exit-%d' % rc


def excerpt(err):
    for pat in (r'ERROR: |WARNING: ThreadSanitizer|runtime error|Assertion|Error: |terminate called|==\d+== (?:Conditional|Use of|Invalid|Syscall|[\d,]+ )',):
        m = re.search(pat, err)
        if m:
            return err[max(0, m.start() - 100):m.start() + 1800]
    return err[-1500:]


def rss_mb(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * 4 // 1024
    except (OSError, ValueError, IndexError):
        return 0


class Part:
    """One case function run for n cases."""

    def __init__(self, pid, spec, name, n, opts):
        self.pid, self.spec, self.name, self.n, self.opts = pid, spec, name, n, opts
        self.cases, self.sigs, self.totals, self.samples = 0, {}, {}, []
        self.nontrivial = set()
        self.violations, self.inconclusive, self.cut, self.hangs = [], [], 0, []

    def command(self, exe, first, step, end, log, scratch, soft, thorough):
        pre = []
        s = SPECS[self.spec]
        if s.get('valgrind'):
            pre = ['valgrind', '-q', '--error-exitcode=%d' % EXIT_VALGRIND, '--leak-check=full', '--show-leak-kinds=definite,indirect',
                   '--errors-for-leak-kinds=definite', '--exit-on-first-error=no', '--child-silent-after-fork=yes', '--num-callers=20']
        return pre + [exe, self.name, str(self.seed), str(first), str(step), str(end), log, scratch, str(soft), '1' if thorough else '0']

    def env(self, variant):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('MALLOC_', 'ASAN_', 'UBSAN_', 'TSAN_'))}
        e['LC_ALL'] = 'C'
        fill = ':max_malloc_fill_size=4096:malloc_fill_byte=%d' % (0xa5 if variant else 0x11)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=1' + fill
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=%d:second_deadlock_stack=1' % EXIT_TSAN
        if variant:
            e['MALLOC_PERTURB_'] = '165'
        if SPECS[self.spec].get('cpu'):
            e['VERIF_CASE_CPU'] = str(SPECS[self.spec]['cpu'])
        return e

    def process(self, exe, first, step, end, scratch, soft, thorough, variant, rss_limit):
        """Runs one process; gives (exit code, log lines, error output, stalled)."""
        os.makedirs(scratch, exist_ok=True)
        log, errp = scratch + '/log', scratch + '/err'
        for f in (log, errp):
            if os.path.exists(f):
                os.unlink(f)
        data = scratch + '/d'
        os.makedirs(data, exist_ok=True)
        stalled = None
        with open(errp, 'wb') as err, open(os.devnull, 'r+b') as nul:
            p = subprocess.Popen(self.command(exe, first, step, end, log, data, soft, thorough), stdin=nul, stdout=nul, stderr=err,
                                 env=self.env(variant), cwd=data)
            size, since = -1, time.time()
            while True:
                try:
                    p.wait(timeout=1.0 if size >= 0 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = os.path.getsize(log) if os.path.exists(log) else 0
                if now != size:
                    size, since = now, time.time()
                elif time.time() - since > SPECS[self.spec].get('stall', 240):
                    stalled = 'no progress'
                if rss_mb(p.pid) > rss_limit:
                    stalled = 'memory'
                if stalled:
                    p.kill()
                    p.wait()
                    break
        lines = []
        if os.path.exists(log):
            with open(log, errors='replace') as f:
                for l in f:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        with open(errp, errors='replace') as f:
            err = f.read(400000)
        return p.returncode, lines, err, stalled

    def worker(self, exe, first, step, scratch, soft, thorough, variant, lock, deadline):
        restarts = 0
        rss_limit = 3500
        while first < self.n:
            left = soft if not deadline else max(1, min(soft, deadline - time.time()))
            rc, lines, err, stalled = self.process(exe, first, step, self.n, scratch, left, thorough, variant, rss_limit)
            last, done = None, False
            with lock:
                for d in lines:
                    if 'begin' in d:
                        last = d['begin']
                    elif 'violation' in d:
                        self.violations.append(dict(case=d['violation'], key=d['key'], msg=d['msg'], variant=variant))
                        last = None
                    elif 'case' in d:
                        self.cases += 1
                        self.sigs.setdefault(d['case'], {})[variant] = d['sig']
                        if d['nt']:
                            self.nontrivial.add(d['sig'])
                        last = None
                    elif 'totals' in d:
                        done = True
                        for k, v in d['totals'].items():
                            self.totals[k] = self.totals.get(k, 0) + v
                    elif 'sample' in d and len(self.samples) < 4:
                        self.samples.append(d['sample'])
                    elif 'cut' in d:
                        self.cut += 1
                if done and rc == 0 and not stalled:
                    return
                if done and rc == EXIT_VALGRIND:
                    # a leak found at the end, or errors on the way: no single case can be named
                    self.violations.append(dict(case=first, range=[first, step, self.n], key=crash_key(rc, err), msg=excerpt(err), variant=variant))
                    return
                if last is None:
                    if re.match(r'crash:(asan|ubsan|tsan|assertion)', crash_key(rc, err)) and not stalled:
                        # reported while the process ended
                        self.violations.append(dict(case=first, range=[first, step, self.n], key=crash_key(rc, err), msg=excerpt(err), variant=variant))
                        return
                    self.inconclusive.append('worker ended with %s outside a case: %s' % (stalled or rc, excerpt(err)[:500]))
                    return
                hang = rc == EXIT_HANG or stalled
                if not hang:
                    self.violations.append(dict(case=last, key=crash_key(rc, err), msg=excerpt(err), variant=variant))
            if hang:
                # once more, alone, before it is called a hang
                rc2, lines2, err2, stalled2 = self.process(exe, last, 1, last + 1, scratch, 0, thorough, variant, rss_limit)
                with lock:
                    if rc2 == EXIT_HANG or stalled2:
                        self.hangs.append(last)
                        self.violations.append(dict(case=last, key='memory' if stalled2 == 'memory' else 'hang', variant=variant,
                                                    msg='the case did not end within %s CPU seconds, twice' % SPECS[self.spec].get('cpu', 120)
                                                    if not stalled2 else 'the case was stopped twice: ' + stalled2))
                    elif rc2 == 0 or rc2 == EXIT_VALGRIND:
                        bad = [d for d in lines2 if 'violation' in d]
                        for d in bad:
                            self.violations.append(dict(case=last, key=d['key'], msg=d['msg'], variant=variant))
                        if not bad:
                            self.inconclusive.append('case %d did not end once, and ended the second time' % last)
                    else:
                        self.violations.append(dict(case=last, key=crash_key(rc2, err2), msg=excerpt(err2), variant=variant))
            restarts += 1
            if restarts >= (1 if hang else 3) or len(self.hangs) >= 2:
                return
            first = last + step

    def run(self, exe, seed, thorough, scratch, soft, variant=0, workers=WORKERS, deadline=None):
        self.seed = seed
        lock = threading.Lock()
        ts = [threading.Thread(target=self.worker, args=(exe, w, workers, '%s/%s.%d.%d' % (scratch, self.name, variant, w), soft, thorough, variant, lock, deadline))
              for w in range(min(workers, self.n))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) match=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def check(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    thorough = tier == 'thorough'
    c = CHECKS[pid]
    soft = 620 if thorough else 240
    deadline = t0 + (780 if thorough else 420)
    os.makedirs(EVIDENCE + '/replay', exist_ok=True)
    ev_path = '%s/%s.json' % (EVIDENCE, pid)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    scratch = tempfile.mkdtemp(prefix='vgram-run-', dir='/tmp')
    parts, specs = [], sorted(set(p[0] for p in c['parts']))
    try:
        exes = build(specs)
        t_build = time.time() - t0
        for spec, name, nq, nt in c['parts']:
            if thorough and time.time() > deadline - 20:
                break
            part = Part(pid, spec, name, nt if thorough else nq, c)
            share = soft / len(c['parts'])
            part.run(exes[spec], seed, thorough, scratch, share if thorough else soft, 0, deadline=deadline)
            if c.get('twice') and not part.violations:
                part.run(exes[spec], seed, thorough, scratch, share if thorough else soft, 1, workers=5, deadline=deadline)
                pairs = 0
                for i, d in sorted(part.sigs.items()):
                    if len(d) == 2:
                        pairs += 1
                        if d[0] != d[1]:
                            part.violations.append(dict(case=i, key='other-process', variant=1,
                                                        msg='case %d gives digest %d in one process and %d in another (other memory contents, other work before)' % (i, d[0], d[1])))
                part.totals['compared_between_processes'] = pairs
            parts.append(part)
            if len(part.violations) >= 20:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(pid)
    fresh, seen_known, keys = [], {}, {}
    for part in parts:
        for v in part.violations:
            k = [x for x in known if x[0] == v['key'] and re.search(x[1], v['msg'])]
            if k:
                seen_known.setdefault(k[0][2], (part, v))
                continue
            kk = (part.name, v['key'])
            keys[kk] = keys.get(kk, 0) + 1
            if keys[kk] == 1:
                fresh.append((part, v))
    for key, match, what in known:
        say('KNOWN-FINDING: property=%s %s%s' % (pid, what, '' if what in seen_known else ' (not met in this run)'))
    evaluations = sum(p.cases for p in parts)
    nontrivial = sum(len(p.nontrivial) for p in parts)
    counters = {}
    for p in parts:
        counters[p.name] = dict(spec=p.spec, cases=p.cases, distinct_nontrivial=len(p.nontrivial), observed=p.totals,
                                cut_short=p.cut, inconclusive=p.inconclusive[:5])
    samples = [s for p in parts for s in p.samples[:3]]
    replays = []
    for n, (part, v) in enumerate(fresh[:6]):
        path = '%s/replay/%s-%d.json' % (EVIDENCE, pid, n)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, spec=part.spec, name=part.name, seed=seed, thorough=thorough, count=keys[(part.name, v['key'])], **v), f, indent=1)
        replays.append((path, v, part))
    with open(ev_path + '.tmp', 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=c['level'],
                       coverage=dict(evaluations=evaluations, distinct_nontrivial=nontrivial, rule=c['rule'], samples=samples or ['none'],
                                     parts=counters, build_s=round(t_build, 1)),
                       assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=sum(keys.values())), f, indent=1)
    os.rename(ev_path + '.tmp', ev_path)
    say('%s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)' % (pid, evaluations, nontrivial, time.time() - t0, t_build))
    for p in parts:
        say('  %s: %s' % (p.name, ' '.join('%s=%d' % kv for kv in sorted(p.totals.items()))))
        for i in p.inconclusive[:3]:
            say('  inconclusive: ' + i)
    if fresh:
        for path, v, part in replays:
            say('%s case %s, %s: %s' % (part.name, v['case'], v['key'], v['msg'][:1500]))
            say('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if any(p.inconclusive for p in parts):
        if any('outside a case' in i for p in parts for i in p.inconclusive):
            say('a worker failed: no verdict')
            return 3
    if not evaluations or any(not p.nontrivial for p in parts) and not seen_known:
        say('nothing was observed: no verdict')
        return 3
    return 0


def replay(path):
    d = json.load(open(path))
    exe = build([d['spec']])[d['spec']]
    part = Part(d['property'], d['spec'], d['name'], 0, CHECKS[d['property']])
    part.seed = d['seed']
    scratch = tempfile.mkdtemp(prefix='vgram-run-', dir='/tmp')
    try:
        if d['key'] == 'other-process':
            part.n = d['case'] + 1
            for variant, w in ((0, 8), (1, 5)):
                part.run(exe, d['seed'], d['thorough'], scratch, 0, variant, workers=w)
            sig = part.sigs.get(d['case'], {})
            say('digests of case %d: %s' % (d['case'], sig))
            bad = len(set(sig.values())) > 1
        else:
            first, step, end = d.get('range') or [d['case'], 1, d['case'] + 1]
            rc, lines, err, stalled = part.process(exe, first, step, end, scratch + '/w', 0, d['thorough'], d['variant'], 3500)
            v = [l for l in lines if 'violation' in l]
            for l in v:
                say('case %d, %s: %s' % (l['violation'], l['key'], l['msg']))
            bad = bool(v) or rc != 0 or bool(stalled)
            if rc:
                say(crash_key(rc, err) + '\n' + excerpt(err))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    say('reproduced' if bad else 'not reproduced')
    return 1 if bad else 0


def setup():
    for tool in ('g++', 'ar', 'valgrind'):
        if not shutil.which(tool):
            say('missing: ' + tool)
            return 1
    if not os.path.isdir(MAIN):
        say('no sources in ' + MAIN)
        return 1
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    return 0


def main(a):
    try:
        if a[:1] == ['check'] and len(a) == 2 and a[1] in CHECKS:
            return check(a[1])
        if a[:1] == ['replay'] and len(a) == 2:
            return replay(a[1])
        if a[:1] == ['build'] and len(a) == 2:
            say(build([a[1]]))
            return 0
        if a == ['setup']:
            return setup()
    except HarnessError as e:
        say('error: %s' % e)
        return 2
    say(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
