"""Builds the acados C library from /repo's current working tree against the BLASFEO/HPIPM/OSQP binaries that ship
with the CasADi wheel (plus /verif/shim) and lays it out like an acados installation (PREFIX/{lib,include})."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.environ.get('MC_BUILD', os.path.join(VERIF, 'build'))
SHIM = os.path.join(VERIF, 'shim')
CASADI = '/opt/acados-env/venv/lib/python3.12/site-packages/casadi'

EXCLUDE = {'acados/dense_qp/dense_qp_qpoases.c', 'acados/dense_qp/dense_qp_qore.c', 'acados/dense_qp/dense_qp_ooqp.c',
           'acados/dense_qp/dense_qp_daqp.c', 'acados/ocp_qp/ocp_qp_hpmpc.c', 'acados/ocp_qp/ocp_qp_qpdunes.c',
           'acados/ocp_qp/ocp_qp_ooqp.c', 'acados/ocp_qp/ocp_qp_clarabel.c', 'acados/sim/sim_rk_integrator.c'}

def sources():
    out = []
    for pat in ('acados/*/*.c', 'interfaces/acados_c/*.c'):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            rel = os.path.relpath(f, REPO)
            if rel not in EXCLUDE: out.append(rel)
    return out

def _tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for pat in ('acados/*/*.[ch]', 'interfaces/acados_c/*.[ch]'):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(SHIM + '/*')):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build(variant='plain'):
    """variant: plain | asan | omp  -> PREFIX path"""
    flags = {'plain': ['-O1'], 'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                         '-fno-sanitize=alignment,shift-base', '-fno-omit-frame-pointer'],
             'omp': ['-O1', '-fopenmp', '-DACADOS_WITH_OPENMP'], 'asanv': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,shift-base', '-fno-omit-frame-pointer', '-D_USE_VALGRIND_'], 'mcomp': ['-O1', '-fopenmp', '-DACADOS_WITH_OPENMP']}[variant]
    key = _tree_hash('soname' + variant + ' '.join(flags) + (open(os.path.join(VERIF, 'mc/c/mcgomp.c')).read() if variant == 'mcomp' else ''))
    prefix = os.path.join(BUILD, f'{variant}-{key}')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(prefix, 'done')): return prefix
        for old in glob.glob(os.path.join(BUILD, f'{variant}-*')): shutil.rmtree(old, ignore_errors=True)
        inc = os.path.join(prefix, 'include'); lib = os.path.join(prefix, 'lib'); obj = os.path.join(prefix, 'obj')
        for d in (inc, lib, obj, inc + '/hpipm/include', inc + '/blasfeo', inc + '/osqp'): os.makedirs(d)
        os.symlink(CASADI + '/include', inc + '/blasfeo/include')
        os.symlink(CASADI + '/include/osqp', inc + '/osqp/include')
        os.symlink(REPO + '/acados', inc + '/acados'); os.symlink(REPO + '/interfaces/acados_c', inc + '/acados_c')
        for f in glob.glob(CASADI + '/include/hpipm_*.h') + glob.glob(SHIM + '/*.h'):
            os.symlink(f, os.path.join(inc, 'hpipm/include', os.path.basename(f)))
        for l in ('libblasfeo.so', 'libhpipm.so', 'libosqp.so'): os.symlink(os.path.join(CASADI, l), os.path.join(lib, l))
        common = ['gcc', *flags, '-fPIC', '-w', '-Werror=implicit-function-declaration', '-DACADOS_WITH_OSQP', '-I' + REPO,
                  '-I' + inc, '-I' + inc + '/blasfeo/include', '-I' + inc + '/hpipm/include']
        def one(rel):
            o = os.path.join(obj, rel.replace('/', '_') + '.o'); quiet = ['-include', os.path.join(VERIF, 'mc/c/noprint.h')] if variant == 'asanv' and rel.endswith('utils/mem.c') else []
            if rel.startswith('shim:'): cmd = common + ['-c', os.path.join(SHIM, rel[5:]), '-o', o]
            else: cmd = common + quiet + (['-fsanitize=thread'] if variant == 'mcomp' else []) + ['-include', 'hpipm/include/hpipm_compat.h', '-c', os.path.join(REPO, rel), '-o', o]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode: raise RuntimeError(f'compiling {rel} failed:\n{p.stderr[-4000:]}')
            return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, sources() + ['shim:hpipm_compat.c']))
        rp = [f'-L{CASADI}', '-lhpipm', '-lblasfeo', '-losqp', '-lm', f'-Wl,-rpath,{CASADI}']
        p = subprocess.run(['gcc', *flags, '-shared', '-Wl,-soname,libacados.so', '-o', lib + '/libacados.so', *objs, *rp], capture_output=True, text=True)
        if p.returncode: raise RuntimeError(p.stderr[-4000:])
        omp = '-fopenmp' if variant in ('omp', 'mcomp') else ''
        json.dump(dict(openmp=omp, qpoases='', osqp='', hpmpc='', qpdunes='', daqp='', clarabel=''), open(lib + '/link_libs.json', 'w'))
        open(lib + '/git_commit_hash', 'w').write('mc')
        shutil.rmtree(obj)
        if variant == 'mcomp':
            p = subprocess.run(['gcc', '-O2', '-w', '-fPIC', '-shared', '-o', lib + '/libmcgomp.so', os.path.join(VERIF, 'mc/c/mcgomp.c'), '-lpthread'], capture_output=True, text=True)
            if p.returncode: raise RuntimeError(p.stderr[-4000:])
        open(os.path.join(prefix, 'done'), 'w').write(key)
    return prefix

if __name__ == '__main__':
    import time
    for v in sys.argv[1:] or ['plain']:
        t = time.time(); print(build(v), f'{time.time() - t:.1f}s')
