"""mutate.py OUT [--step K --offset J] [--files RE]: small changes all over the sources, one at a time, and which of them nothing notices.

A search for gaps in the checks, not a check: every mutant that compiles and passes the stable tests is driven through the case
functions of all behavioural checks (without sanitizers, half the quick number of cases). What survives is equivalent, a matter of
memory (left to the sanitized runs), or a gap. Works in a scratch copy of /repo; resumes from OUT."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
BASE = ['g++', '-w', '-std=c++14', '-O1', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits', '-include', 'algorithm']
FILES = '''core/src/main/cpp/algorithm/int_dict_p.cc core/src/main/cpp/algorithm/stat_dict_p.cc core/src/main/cpp/algorithm/int_vgram_builder_p.cc
core/src/main/cpp/algorithm/fast_random.cc core/src/main/cpp/algorithm/int_dict.cc
core/src/main/cpp/interfaces/seq_coder.cc core/src/main/cpp/interfaces/saver.h core/src/main/cpp/interfaces/loader.h
core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc core/src/main/cpp/interfaces/tokenizers/char_tokenizer.cc core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
core/src/main/cpp/algorithm/int_vgram_builder_p.h core/src/main/cpp/algorithm/stat_dict_p.h
binding/src/main/cpp/bind_vgram.cc binding/src/main/cpp/py_int_vgram_builder.h binding/src/main/cpp/py_vgram_builder.h'''.split()
RULES = [(r'(?<![<>=!\-])<(?![<=])(?= )', ['<=']), (r' <= ', [' < ']), (r'(?<![->])>(?![>=])(?= )(?<= >)', ['>=']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
         (r' \+ 1(?!\d)', ['', ' + 2']), (r' - 1(?!\d)', ['', ' - 2']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' \+= ', [' = ', ' -= ']),
         (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])(\d*[2-9]\d*)(?![\w.])', [r'1\1']),
         (r'(?<![\w.])(\d+\.\d+)', [r'\1 * 1.5', r'\1 / 1.5']), (r'(?<=\()!(?=\w)', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\+\+', ['--']), (r'\bmin\b(?=\()', ['max']), (r'\bmax\b(?=\()', ['min']),
         (r'\bif \((.*)\) \{$', [r'if (!(\1)) {', 'if (true) {', 'if (false) {']), (r'\bbreak;', ['']), (r'\bcontinue;', ['']), (r'\.begin\(\)', ['.begin() + 1']), (r'\.first\b', ['.second']), (r'\.second\b', ['.first'])]


def mutants():
    out = []
    for f in FILES:
        text = open('/repo/' + f).read().split('\n')
        for n, l in enumerate(text):
            s = l.strip()
            if not s or s.startswith(('//', '#', '*', '/*', 'using', 'namespace')):
                continue
            code = re.sub(r'//.*', '', l)
            seen = set()
            for pat, subs in RULES:
                for m in re.finditer(pat, code):
                    for sub in subs:
                        new = code[:m.start()] + m.expand(sub) + code[m.end():]
                        if new != code and new not in seen:
                            seen.add(new)
                            out.append((f, n, l, new))
            if re.match(r'^[\w\->.\[\]()&:*]+( [-+]?= .*|\(.*\)|\+\+|--)?;$', s) and not s.startswith(('return', 'private', 'public', 'throw')) and '{' not in s:
                out.append((f, n, l, ';'))
    return out


CASES = []
for pid, c in sorted(CHECKS.items()):
    for spec, name, nq, nt in c['parts']:
        if spec in ('algo', 'int', 'str', 'py', 'pymod') and not name.endswith('_all'):
            CASES.append((pid, spec, name, nq))
EXES = ('algo', 'int', 'str', 'py', 'pymod')


class Bench:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
        self.repo = self.d + '/repo'
        subprocess.run(['cp', '-a', '/repo', self.repo], check=True)
        M = self.repo + '/core/src/main/cpp'
        self.inc = ['-I' + M + '/algorithm', '-I' + M + '/interfaces', '-I' + M, '-I' + self.repo + '/core', '-I' + self.repo + '/core/src/main', '-I' + self.repo + '/core/src', '-I' + self.repo + '/binding/src/main/cpp', '-I' + V + '/harness/stub', '-I' + V + '/harness']
        self.tests = [p for p in subprocess.check_output(['git', 'ls-files', '*stat_dict_test.cc', '*int_vgram_builder_test.cpp'], cwd=self.repo).decode().split()]
        self.gtest = '/repo/_build/lib'
        self.gt_inc = '-I' + subprocess.check_output("find / -path /proc -prune -o -path '*googletest/googletest/include' -print 2>/dev/null | head -1 || true", shell=True).decode().strip()
        os.mkdir(self.d + '/compat')
        os.symlink(M + '/algorithm', self.d + '/compat/cpp')
        self.srcs = {}
        open(self.repo + '/bytes.cc', 'w').write('#include <cstddef>\nextern "C" size_t __sanitizer_get_current_allocated_bytes() { return 0; }\n')
        self.srcs[self.repo + '/bytes.cc'] = self.d + '/lib_bytes.o'
        for h in subprocess.check_output("grep -rlE '^[^ ].*simple_seqs\\(\\) *\\{' core/src/test", shell=True, cwd=self.repo).decode().split():
            self.srcs[self.repo + '/' + h] = self.d + '/lib_helper_%s.o' % os.path.basename(h)
        for d, _, fs in os.walk(M):
            for f in fs:
                if f.endswith('.cc'):
                    self.srcs[os.path.join(d, f)] = '%s/lib_%s.o' % (self.d, f[:-3])
        self.hsrc = {e: V + '/harness/h_%s.cc' % e for e in EXES}
        self.pool = 8
        self.stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        assert self.compile(None), open(self.d + '/err').read()[:3000]
        assert self.run_tests(), 'the unchanged tree fails its tests'

    def par(self, cmds):
        ok, sem, ts = [True], threading.Semaphore(self.pool), []

        def one(c):
            with sem:
                if ok[0] and subprocess.run(c, stdout=subprocess.DEVNULL, stderr=open(self.d + "/err", "ab"), timeout=300).returncode:
                    ok[0] = False
        for c in cmds:
            t = threading.Thread(target=one, args=(c,))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        return ok[0]

    def compile(self, f):
        """f: the file changed, None for all."""
        cmds = []
        header = f is None or f.endswith('.h')
        binding = f is not None and f.startswith('binding')
        for s, o in self.srcs.items():
            if f is None or (header and not binding) or s.endswith(f):
                cmds.append(BASE + self.inc + ['-c', s, '-o', o])
        self.touched_lib = bool(cmds)
        if header or binding:
            for e, s in self.hsrc.items():
                if not binding or e in ('py', 'pymod'):
                    cmds.append(BASE + self.inc + ['-c', s, '-o', '%s/h_%s.o' % (self.d, e)])
            if not binding:
                for t in self.tests:
                    cmds.append(BASE + ['-I' + self.d + '/compat'] + self.inc + [self.gt_inc, '-c', self.repo + '/' + t, '-o', '%s/%s.o' % (self.d, os.path.basename(t))])
        if not self.par(cmds):
            return False
        libs = sorted(self.srcs.values())
        cmds = [['g++', '%s/h_%s.o' % (self.d, e)] + libs + ['-o', '%s/x_%s' % (self.d, e), '-pthread'] for e in EXES if not binding or e in ('py', 'pymod')]
        if not binding:
            cmds += [['g++', '%s/%s.o' % (self.d, os.path.basename(t))] + libs + ['-L' + self.gtest, '-lgtest', '-lgtest_main', '-o', '%s/t_%s' % (self.d, os.path.basename(t)), '-pthread'] for t in self.tests]
        return self.par(cmds)

    def run_tests(self):
        out = ''
        for t in self.tests:
            try:
                p = subprocess.run(['%s/t_%s' % (self.d, os.path.basename(t)), '--gtest_filter=' + ':'.join(self.stable)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, cwd=self.d)
            except subprocess.TimeoutExpired:
                return False
            out += p.stdout.decode(errors='replace')
        return all(re.search(r'\[       OK \] ' + re.escape(t), out) for t in self.stable)

    def kill(self, only):
        """The first case function that notices, or None."""
        shards = 2
        tasks = []
        for i in range(shards):
            for pid, spec, name, nq in CASES:
                if spec in only:
                    tasks.append((pid, spec, name, nq, i))
        random.Random(1).shuffle(tasks)
        tasks.sort(key=lambda t: t[4])
        found, lock, running, it = [], threading.Lock(), set(), iter(tasks)

        def work(k):
            while not found:
                with lock:
                    t = next(it, None)
                if t is None:
                    return
                pid, spec, name, nq, i = t
                d = '%s/w%d' % (self.d, k)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                log = d + '/log'
                os.makedirs(d + '/d')
                env = dict(os.environ, LC_ALL='C')
                with open(d + '/err', 'wb') as err:
                    p = subprocess.Popen(['prlimit', '--as=6000000000', '%s/x_%s' % (self.d, spec), name, '1', str(i), '4', str(nq), log, d + '/d', '100', '0'],
                                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=d + '/d')
                    running.add(p)
                    try:
                        rc = p.wait(200)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        rc = 'hang'
                    running.discard(p)
                if found:
                    return
                why = None
                if os.path.exists(log):
                    for l in open(log, errors='replace'):
                        if l.startswith('{"violation"'):
                            why = l[:300]
                            break
                if rc or why:
                    found.append((name, rc, why))
                    for q in list(running):
                        q.kill()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(self.pool)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return found[0] if found else None

    def restore(self, f, text):
        open(self.repo + '/' + f, 'w').write(text)


def main():
    out = sys.argv[1]
    arg = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    step, offset, only = int(arg('--step', 1)), int(arg('--offset', 0)), arg('--files', '')
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    ms = mutants()
    random.Random(7).shuffle(ms)
    ms = [m for m in ms if re.search(only, m[0])][offset::step]
    print(len(ms), 'mutants', flush=True)
    b = Bench()
    try:
        if '--self' in sys.argv:
            print('unchanged tree:', b.kill(EXES))
            return
        for f, n, old, new in ms:
            if (f, n + 1, new.strip()) in done:
                continue
            t0 = time.time()
            text = open('/repo/' + f).read()
            lines = text.split('\n')
            lines[n] = new
            open(b.repo + '/' + f, 'w').write('\n'.join(lines))
            binding = f.startswith('binding')
            try:
                if not b.compile(f):
                    res = ['no-build']
                elif not binding and not b.run_tests():
                    res = ['tests']
                else:
                    k = b.kill(('py', 'pymod') if binding else EXES)
                    res = ['killed'] + list(k) if k else ['SURVIVED']
            except subprocess.TimeoutExpired:
                res = ['no-build']
            b.restore(f, text)
            if res[0] == 'no-build' or f.endswith('.h'):
                b.compile(None if f.endswith('.h') and not binding else f)
            else:
                b.par([BASE + b.inc + ['-c', s, '-o', o] for s, o in b.srcs.items() if s.endswith(f)])
            with open(out, 'a') as fh:
                fh.write(json.dumps(dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result=res, s=round(time.time() - t0, 1))) + '\n')
    finally:
        shutil.rmtree(b.d, ignore_errors=True)


main()
