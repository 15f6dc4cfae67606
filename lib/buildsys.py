"""
Builds MLRL-Boomer from the current working tree of /repo into /verif/.build, without touching /repo or /opt/vp.

The sources are mirrored by content (a file whose bytes did not change keeps its modification time), so that ninja
recompiles exactly what a change to /repo affects. Variants:

    plain   -O2, the binaries on which nearly all of the exploration runs
    race    like plain, but every memory access calls a `__tsan_*` hook that is implemented by the schedule explorer
    asan    address and undefined behaviour sanitizers
"""
import fcntl
import filecmp
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SRC = os.path.join(ROOT, 'src')
VENV = '/opt/vp/venv'
PYTHON = os.path.join(VENV, 'bin', 'python')
LIBS = ('common', 'boosting', 'seco')
VARIANTS = {
    'plain': '-O2',
    'race': '-O1 -fsanitize=thread',
    'asan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr '
            '-fno-sanitize-recover=undefined',
}
KEEP = ('.cpp', '.hpp', '.h', '.in', '.py', '.pyx', '.pxd', '.pxi', '.md', '.toml', '.txt')


class BuildError(Exception):
    pass


def _walk(base):
    for path, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('build', 'dist', '__pycache__', 'tests', 'test', '.git')
                         and not d.endswith('.egg-info'))
        for f in sorted(files):
            if f.endswith(KEEP):
                yield os.path.relpath(os.path.join(path, f), base)


def _copy_if_changed(src, dst):
    if os.path.exists(dst) and filecmp.cmp(src, dst, shallow=False):
        return False
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.lexists(dst):
        os.remove(dst)
    shutil.copyfile(src, dst)  # The modification time is the current time
    return True


def _write_if_changed(dst, text):
    if os.path.exists(dst):
        with open(dst, encoding='utf-8') as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w', encoding='utf-8') as f:
        f.write(text)


def sync():
    wanted = set()
    for part in [os.path.join('cpp', 'subprojects', l) for l in LIBS] + [os.path.join('python', 'subprojects')]:
        for rel in _walk(os.path.join(REPO, part)):
            wanted.add(os.path.join(part, rel))
    for rel in wanted:
        _copy_if_changed(os.path.join(REPO, rel), os.path.join(SRC, rel))
    for path, _, files in os.walk(SRC):
        for f in files:
            full = os.path.join(path, f)
            rel = os.path.relpath(full, SRC)
            if rel not in wanted and not rel.startswith('gen' + os.sep):
                os.remove(full)
    with open(os.path.join(REPO, '.version'), encoding='utf-8') as f:
        version = f.read().strip()
    for l in LIBS:
        with open(os.path.join(SRC, f'cpp/subprojects/{l}/include/mlrl/{l}/config.hpp.in'), encoding='utf-8') as f:
            text = f.read()
        for key, value in ((f'mlrl{l}_library_name', f'libmlrl{l}'), (f'mlrl{l}_library_version', version),
                           (f'mlrl{l}_target_architecture', 'x86_64-linux'), ('multi_threading_support_enabled', '1'),
                           ('gpu_support_enabled', '1')):
            text = text.replace(f'@{key}@', value)
        _write_if_changed(os.path.join(SRC, f'gen/{l}/config.hpp'), text)


def _ninja(variants):
    suffix = '.cpython-312-x86_64-linux-gnu.so'
    numpy_include = os.path.join(VENV, 'lib/python3.12/site-packages/numpy/_core/include')
    inc = {
        'common': '-Isrc/gen/common -Isrc/cpp/subprojects/common/include -Isrc/cpp/subprojects/common/src',
    }
    for l in ('boosting', 'seco'):
        # The "config.hpp" of a library must precede the one of the library "common"
        inc[l] = (f'-Isrc/gen/{l} -Isrc/cpp/subprojects/{l}/include -Isrc/cpp/subprojects/{l}/src '
                  f'-Igen_common_cfg -Isrc/cpp/subprojects/common/include')
    out = ['ninja_required_version = 1.5', 'builddir = .',
           'rule cxx', '  command = g++ $flags -std=c++20 -w -D_GLIBCXX_ASSERTIONS=1 -fPIC -fopenmp $inc -MD -MF $out.d '
           '-c $in -o $out', '  depfile = $out.d', '  deps = gcc', '  description = CXX $out',
           'rule link', '  command = g++ $flags -shared -fopenmp -o $out $in $libs', '  description = LINK $out',
           'rule cython', f'  command = {VENV}/bin/cython -M --fast-fail -3 --cplus $args $in -o $out',
           '  depfile = $out.dep', '  description = CYTHON $out',
           'rule ext', f'  command = g++ -O1 -std=c++17 -w -fPIC -fvisibility=hidden -D_GLIBCXX_ASSERTIONS=1 '
           f'-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION -I{numpy_include} -I/usr/include/python3.12 $inc -MD -MF '
           '$out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc', '  description = EXT $out',
           'rule extlink', "  command = g++ -shared -o $out $in -Wl,-rpath,'$$ORIGIN' $libs", '']
    for v in variants:
        objs = {}
        for l in LIBS:
            objs[l] = []
            base = f'src/cpp/subprojects/{l}/src'
            for rel in _walk(os.path.join(ROOT, base)):
                if rel.endswith('.cpp'):
                    o = f'{v}/obj/{l}/{rel[:-4].replace("/", "__")}.o'
                    objs[l].append(o)
                    out.append(f'build {o}: cxx {base}/{rel}\n  flags = {VARIANTS[v]}\n  inc = {inc[l]}')
        libs = []
        for l in LIBS:
            lib = f'{v}/lib/libmlrl{l}.so'
            libs.append(lib)
            ins = objs[l] + (objs['common'] if l != 'common' else [])
            # As in the original build, each library contains the code of the library "common"
            flags = VARIANTS[v] if v == 'asan' else ''
            out.append(f'build {lib}: link {" ".join(ins)}\n  libs = -lOpenCL -Wl,-soname,libmlrl{l}.so\n'
                       f'  flags = {flags}')
        out.append(f'build {v}: phony {" ".join(libs)}')
    exts = []
    for l in LIBS:
        base = f'src/python/subprojects/{l}/mlrl/{l}/cython'
        for f in sorted(os.listdir(os.path.join(ROOT, base))):
            if f.endswith('.pyx'):
                m = f[:-4]
                cpp, o, so = f'ext/{l}/{m}.cpp', f'ext/{l}/{m}.o', f'ext/{l}/{m}{suffix}'
                extra = ' '.join(f'-I src/python/subprojects/{x}' for x in LIBS)
                incs = ' '.join(f'-Isrc/gen/{x} -Isrc/cpp/subprojects/{x}/include' for x in (l, 'common'))
                out.append(f'build {cpp}: cython {base}/{f}\n  args = {extra}')
                out.append(f'build {o}: ext {cpp}\n  inc = {incs}')
                out.append(f'build {so}: extlink {o} | plain/lib/libmlrl{l}.so\n  libs = -Lplain/lib -lmlrl{l}')
                exts.append(so)
    out.append(f'build exts: phony {" ".join(exts)}')
    _write_if_changed(os.path.join(ROOT, 'build.ninja'), '\n'.join(out) + '\n')
    common_cfg = os.path.join(ROOT, 'gen_common_cfg')
    os.makedirs(common_cfg, exist_ok=True)
    return exts


def _assemble(variant, exts):
    """ Creates a directory from which the Python packages can be imported. """
    pkg = os.path.join(ROOT, 'pkg-' + variant)
    wanted = set()
    for l in ('common', 'boosting', 'seco', 'testbed'):
        base = os.path.join(SRC, 'python/subprojects', l, 'mlrl')
        for rel in _walk(base):
            if rel.endswith('.py'):
                wanted.add(os.path.join('mlrl', rel))
                _copy_if_changed(os.path.join(base, rel), os.path.join(pkg, 'mlrl', rel))
    for so in exts:
        l, name = so.split('/')[1:]
        rel = os.path.join('mlrl', l, 'cython', name)
        wanted.add(rel)
        _copy_if_changed(os.path.join(ROOT, so), os.path.join(pkg, rel))
    for l in LIBS:
        rel = os.path.join('mlrl', l, 'cython', f'libmlrl{l}.so')
        wanted.add(rel)
        _copy_if_changed(os.path.join(ROOT, variant, 'lib', f'libmlrl{l}.so'), os.path.join(pkg, rel))
    for path, _, files in os.walk(pkg):
        for f in files:
            full = os.path.join(path, f)
            if os.path.relpath(full, pkg) not in wanted and not f.endswith('.pyc'):
                os.remove(full)
    return pkg


def build(*variants):
    """
    Brings the given variants up to date with /repo and returns the directories to be put on the Python path.
    """
    variants = variants or ('plain',)
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, '.lock'), 'w', encoding='utf-8') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sync()
        exts = _ninja(VARIANTS)
        env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONPATH')}
        env['PATH'] = f'{VENV}/bin:/usr/local/bin:/usr/bin:/bin'
        targets = sorted(set(variants) | {'plain'}) + ['exts']
        r = subprocess.run(['ninja', '-j8', '-C', ROOT] + targets, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, check=False)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        return {v: _assemble(v, exts) for v in set(variants) | {'plain'}}


if __name__ == '__main__':
    import time
    t = time.time()
    try:
        print(build(*sys.argv[1:]))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(f'{time.time() - t:.1f} s')
