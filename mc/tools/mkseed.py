"""mkseed.py SPEC.py...: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run with acados_template of the tree) or DEMO_SH, FILES={name:text}.
Builds the planted change in a scratch copy of /repo, checks it applies/builds/passes the stable tests and that the demo separates, and stores /verif/seeded/ID."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = '''#!/bin/bash
# run from the repository root
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/interfaces/acados_template" ACADOS_SOURCE_DIR="$PWD" PYTHONDONTWRITEBYTECODE=1
PYBIN=/opt/acados-env/venv/bin/python; [ -x "$PYBIN" ] || PYBIN=python3
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
export REPO="$PWD"; cd "$W"; "$PYBIN" "$D/demo.py"
'''
# with KIT=True the demonstration compiles and runs the real library and generated code: copies of the build helpers and the template renderer lie beside it
KIT = PY.replace('cd "$W"', 'export MC_REPO="$REPO" MC_BUILD="$W/build" TERA_PATH="$D/kit/bin/t_renderer" PYTHONPATH="$PYTHONPATH:$D/kit/mc" LANG=C.UTF-8 CC=gcc OMP_NUM_THREADS=1; cd "$W"')


def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(spec, notest):
    ns = {}; exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); r = os.path.join(w, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', r]); sh('git checkout -- . && git clean -fdq', r)
        for f, old, new in ns['EDITS']:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) == 1, (ns['ID'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout; assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        if 'DEMO' in ns:
            open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO']); open(os.path.join(d, 'demo.sh'), 'w').write(KIT if ns.get('KIT') else PY)
        else: open(os.path.join(d, 'demo.sh'), 'w').write(ns['DEMO_SH'])
        if ns.get('KIT'):
            shutil.rmtree(os.path.join(d, 'kit'), ignore_errors=True); os.makedirs(os.path.join(d, 'kit/mc'))
            for x in ('shim', 'bin'): shutil.copytree(os.path.join(V, x), os.path.join(d, 'kit', x), ignore=shutil.ignore_patterns('__pycache__'))
            for x in ('acbuild.py', 'tera.py', 'solverlib.py', 'ocpspec.py'): shutil.copy(os.path.join(V, 'mc', x), os.path.join(d, 'kit/mc', x))
        for k, v in ns.get('FILES', {}).items(): open(os.path.join(d, k), 'w').write(v)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = sh(f'bash {d}/demo.sh', r, timeout=300)
        sh('git checkout -- .', r); good = sh(f'bash {d}/demo.sh', r, timeout=300)
        ok = bad.returncode != 0 and good.returncode == 0
        print(ns['ID'], 'demo:', 'ok' if ok else f'BAD good={good.returncode} {good.stdout[-600:]} {good.stderr[-800:]} | bad={bad.returncode} {bad.stdout[-300:]}')
        print('   with patch:', (bad.stdout + bad.stderr).strip().splitlines()[-1:] )
        if not notest:
            # stable tests in /repo itself (they use fixed paths), undone straight afterwards
            assert not sh('git status --porcelain -uno', '/repo').stdout.strip()
            a = sh(f'git apply {d}/patch.diff', '/repo'); assert a.returncode == 0, a.stderr
            try:
                t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json', '/repo', timeout=900); o = json.load(open('/tmp/seed_o.json'))
            finally: sh('git checkout -- .', '/repo')
            base = json.load(open('/opt/vp/BASELINE.json')); want = set(base.get('passing') or base.get('stable') or base.get('passed') or [])
            got = set(o.get('passed', []))
            print('   stable tests:', 'pass' if want and want <= got else f'CHECK want={sorted(want)[:8]} got={sorted(got)[:8]} {list(base)} {list(o)}')
    finally: shutil.rmtree(w)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if x != '--notest']
    for s in a: main(s, '--notest' in sys.argv)
