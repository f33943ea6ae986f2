"""Builds the compiled kernels of the tree under test, outside the tree."""
import fcntl, hashlib, os, shutil, subprocess, sys
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
MODS = ('ckalman', 'cmlnlg_compute')
FLAGS = {'plain': '-O2 -w', 'asan': '-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined'}


def build_ext(kind='plain'):
    src = {m: open(os.path.join(REPO, 'pyparticleest/utils', m + '.pyx'), 'rb').read() for m in MODS}
    h = hashlib.sha256(repr([FLAGS[kind], sys.version, sorted(src.items())]).encode()).hexdigest()[:16]
    base = os.path.join(ROOT, 'build')
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, 'ext-%s-%s' % (kind, h))
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'done')):
            return d
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for m in MODS:
            open(os.path.join(tmp, m + '.pyx'), 'wb').write(src[m])
        open(os.path.join(tmp, 'b.py'), 'w').write(
            "import sys\nfrom setuptools import setup, Extension\nfrom Cython.Build import cythonize\nimport numpy\n"
            "m = sys.argv.pop(1)\n"
            "setup(name=m, script_args=['build_ext', '--inplace', '-q'], ext_modules=cythonize([Extension(m, [m + '.pyx'], "
            "include_dirs=[numpy.get_include()], define_macros=[('NPY_NO_DEPRECATED_API', 'NPY_1_7_API_VERSION')])], quiet=True))\n")
        env = dict(os.environ, CFLAGS=FLAGS[kind], PYTHONDONTWRITEBYTECODE='1')
        if kind == 'asan':
            env['LDFLAGS'] = '-fsanitize=address,undefined'
        ps = [subprocess.Popen([PY, 'b.py', m], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for m in MODS]
        for m, p in zip(MODS, ps):
            out = p.communicate(timeout=600)[0].decode(errors='replace')
            if p.returncode:
                raise RuntimeError('building %s failed:\n%s' % (m, out[-3000:]))
        shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
        open(os.path.join(tmp, 'done'), 'w').write('ok')
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return d


if __name__ == '__main__':
    for k in (sys.argv[1:] or ['plain']):
        print(build_ext(k))
