"""Builds a harness against /repo's current sources (symbolic or replay variant)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shlex
import subprocess

REPO = os.environ.get('COOLDIFF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')


def include_dirs():
    inc = os.path.join(REPO, 'include')
    ds = []
    for root, dirs, files in os.walk(inc):
        dirs.sort()
        if os.path.basename(root).upper() == 'CUDA' or '/CUDA' in root:
            # harmless to include: the headers there are guarded
            pass
        ds.append(root)
    # same relative priority as the project's build: outer directories first
    ds.sort(key=lambda d: (d.count('/'), d))
    return ['-I' + d for d in ds] + ['-isystem', '/usr/include/eigen3']


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    files = []
    for base in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'example'),
                 os.path.join(VERIF, 'engine'), os.path.join(VERIF, 'harness')):
        for root, dirs, fs in os.walk(base):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.ipp', '.cpp', '.cuh', '.cu')) or f == 'execution':
                    files.append(os.path.join(root, f))
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


_example = {}


def example_copy():
    """the example sources with the pinned (CUDA) memory strategy replaced by the CPU one: CUDA cannot be compiled here"""
    if 'd' not in _example:
        d = os.path.join(BUILD, tree_hash(), 'example')
        for root, dirs, fs in os.walk(os.path.join(REPO, 'example')):
            for f in fs:
                if f.endswith(('.hpp', '.cpp')):
                    p = os.path.join(d, os.path.relpath(root, os.path.join(REPO, 'example')), f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(os.path.join(root, f), errors='replace') as fh:
                        t = fh.read()
                    with open(p + '.tmp%d' % os.getpid(), 'w') as fh:
                        fh.write(t.replace('"GPUPinnedMemoryStrategy"', '"CPUMemoryStrategy"'))
                    os.replace(p + '.tmp%d' % os.getpid(), p)
        _example['d'] = d
    return _example['d']


def flags(symbolic, cplx, trace=True, par=False, flat=False):
    f = ['-std=c++17', '-fpermissive', '-w', '-O0', '-include', 'utility', '-DUSE_VIRTUAL_FUNCTIONS',
         '-DUSE_DYNAMIC_ASSERTIONS', '-DNDEBUG', '-DCOOLDIFF_SCALAR_TYPE=2', '-I' + os.path.join(VERIF, 'engine'),
         '-I' + os.path.join(VERIF, 'harness')]
    f += ['-I' + os.path.join(example_copy(), p) for p in ('', 'GaussNewton/include', 'NeuralNet/include')]
    if par:   # the library's parallel-execution option, on the schedules of symx_par.hpp
        f += ['-I' + os.path.join(VERIF, 'engine', 'shim'), '-DUSE_CXX_PARALLEL_POLICY', '-DSYMX_PAR'] + (['-DSYMX_PAR_HOOKS'] if symbolic else [])
    if flat:  # the default hash maps of the build options, with the weakest guarantees they give
        f += ['-I' + os.path.join(VERIF, 'engine', 'shim_flat'), '-DUSE_ROBIN_HOOD_MAP']
    if cplx:
        f.append('-DUSE_COMPLEX_MATH')
    if symbolic:
        f.append('-DCOOLDIFF_SYMBOLIC="symx_hook.hpp"')
        if trace:
            f += ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/,/verif/',
                  '-DVH_TRACE_FUNCTIONS']
    return f + include_dirs()


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       errors='replace')
    if p.returncode:
        raise BuildError(' '.join(shlex.quote(c) for c in cmd) + '\n' + p.stdout[-6000:])


def build_many(variants, jobs=8):
    """variants: list of (name, source file, symbolic, complex, [defines]); returns {name: path or BuildError}"""
    th = tree_hash()
    d = os.path.join(BUILD, th)
    os.makedirs(d, exist_ok=True)
    res, tasks = {}, {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        libs = {}
        for name, src, sym, cx, defs in variants:
            par, flat = '-DSYMX_PAR' in defs, '-DSYMX_FLAT' in defs
            key = (sym, cx, par, flat)
            if key in libs:
                continue
            objs = []
            for s in lib_sources():
                o = os.path.join(d, 'lib_%d%d%d%d_%s.o' % (sym, cx, par, flat, os.path.relpath(s, REPO).replace('/', '_')))
                objs.append(o)
                if not os.path.exists(o) and o not in tasks:
                    tasks[o] = ex.submit(compile_one, s, o, flags(sym, cx, par=par, flat=flat), [])
            libs[key] = objs
        for name, src, sym, cx, defs in variants:
            o = os.path.join(d, 'h_%s.o' % name)
            if not os.path.exists(o) and o not in tasks:
                tasks[o] = ex.submit(compile_one, src, o, flags(sym, cx, par='-DSYMX_PAR' in defs, flat='-DSYMX_FLAT' in defs), [d for d in defs if d != '-DSYMX_PAR'])
        errs = {}
        for o, t in tasks.items():
            try:
                t.result()
            except (BuildError, subprocess.TimeoutExpired) as e:
                errs[o] = e

        def link(v):
            name, src, sym, cx, defs = v
            o = os.path.join(d, 'h_%s.o' % name)
            exe = os.path.join(d, 'x_%s' % name)
            for f in [o] + libs[(sym, cx, '-DSYMX_PAR' in defs, '-DSYMX_FLAT' in defs)]:
                if f in errs:
                    return errs[f]
            if not os.path.exists(exe):
                try:
                    run(['g++', '-no-pie', o] + libs[(sym, cx, '-DSYMX_PAR' in defs, '-DSYMX_FLAT' in defs)] + ['-o', exe + '.tmp%d' % os.getpid(), '-lpthread'])
                    os.replace(exe + '.tmp%d' % os.getpid(), exe)
                except (BuildError, subprocess.TimeoutExpired) as e:
                    return e
            return exe
        for v, r in zip(variants, ex.map(link, variants)):
            res[v[0]] = r
    return res


def compile_one(src, obj, fl, defs):
    tmp = obj + '.tmp%d.o' % os.getpid()
    run(['g++'] + fl + list(defs) + ['-c', src, '-o', tmp])
    os.replace(tmp, obj)


def prune(keep=3):
    """drop build directories of older trees"""
    try:
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if len(x) == 20), key=os.path.getmtime)
    except OSError:
        return
    import shutil
    for x in ds[:-keep]:
        shutil.rmtree(x, ignore_errors=True)
