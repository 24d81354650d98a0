"""make_seeds.py [ID...]: writes /verif/seeded/ID from tools/seeds/ID.py-like definitions and tries each one.

For each: patch against /repo's HEAD in a scratch copy, build, stable tests, demo on both trees, then the check of its property."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('SEED_SRC', '/repo')
S = V + '/tools/seeds'
sys.path.insert(0, S)
from defs import SEEDS


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(name, d, run_check=True):
    wt = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        sh('cp -a %s/. %s/' % (SRC, wt))
        sh('git checkout -q -- . && git clean -fdq', cwd=wt)
        for f, old, new in d['edits']:
            p = wt + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %s' % (s.count(old), f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=wt).stdout.decode()
        out = V + '/seeded/' + name
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cc', 'w').write('#include "prelude.h"\n' + d['demo'].strip() + '\n')
        shutil.copy(S + '/prelude.h', out)
        for k, v in d.get('files', {}).items():
            os.makedirs(os.path.dirname(out + '/' + k), exist_ok=True)
            shutil.copy(S + "/" + v if "/" not in v else v, out + '/' + k)
        t = open(S + '/demo.sh').read().replace('@FLAGS@', d.get('flags', '')).replace('@RUN@', d.get('run', ''))
        open(out + '/demo.sh', 'w').write(t)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % out, cwd=SRC)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout.decode()[-600:]
        r = sh('bash %s/demo.sh' % out, cwd=wt)
        if r.returncode == 0:
            return 'demo passes on the changed tree'
        msg = r.stdout.decode()[-160:].strip().replace('\n', ' | ')
        # tests, in an unshared copy of the build recipe
        tests = sh(r'''sed 's#/repo#%s#g' /opt/vp/cmake/CMakeLists.txt > %s/_c.txt; mkdir -p %s/_cm && mv %s/_c.txt %s/_cm/CMakeLists.txt; rm -rf _build
cmake -S %s/_cm -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_FLAGS=-w -include cstdint -include iostream -include limits -include algorithm" && ninja -C _build -j8 || exit 9

python3 - <<'P'
import json,subprocess,sys
for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
    ok=False
    for b in ("stat_dict_test","int_vgram_builder_test"):
        p=subprocess.run(["timeout","120","_build/"+b,"--gtest_filter="+t],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if p.returncode==0 and b"[  PASSED  ] 1 test" in p.stdout: ok=True
    if not ok: print("FAIL",t); sys.exit(8)
P''' % (wt, wt, wt, wt, wt, wt), cwd=wt)
        if tests.returncode:
            return 'tests fail (%d): %s' % (tests.returncode, tests.stdout.decode()[-500:])
        res = ''
        if run_check:
            for pid in [d['property']] + d.get('also', []):
                env = dict(os.environ, VERIF_REPO=wt, VERIF_BUILD=wt + '/vb', VERIF_EVIDENCE=wt + '/ve')
                r = subprocess.run(['python3', V + '/run.py', 'check', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = r.stdout.decode()
                v = re.search(r'^(\S+ case \S+, [^:]*)', o, re.M)
                res += ' | %s rc %d %s' % (pid, r.returncode, v.group(1) if v else ('' if r.returncode == 0 else o[-300:]))
        return 'ok (demo: %s)%s' % (msg, res)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


names = sys.argv[1:] or sorted(SEEDS)
for n in names:
    r = make(n, SEEDS[n])
    print(n, r, flush=True)
    if not r.startswith('ok'):
        shutil.rmtree(V + '/seeded/' + n, ignore_errors=True)
