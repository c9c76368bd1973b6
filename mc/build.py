"""Content-addressed build of /repo's sources and the harnesses.

Objects are cached under /verif/build/cache by the content of the source and of every file it
included, so a check always reflects /repo's working tree whatever happens to timestamps."""

import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
SHIM = os.path.join(VERIF, 'shim')

PKGS = ('openssl libxml++-2.6 xmlsec1-openssl sndfile libopenjp2 xerces-c fmt libavcodec libavutil').split()

# As /opt/vp/libdcp/gen.py (what ./waf configure would arrive at), less the warnings
DEFINES = ('-w -D_FILE_OFFSET_BITS=64 -D__STDC_FORMAT_MACROS -std=c++11 -DLIBDCP_VERSION="devel" -DLIBDCP_LINUX '
           '-DLIBDCP_MPEG2_TRANSCODE -DLIBDCP_HAVE_NO_CHECK_TIME=1 -DLIBDCP_HAVE_WEAKLY_CANONICAL=1 '
           '-DLIBDCP_HAVE_COPY_OPTIONS=1 -DLIBDCP_HAVE_REPLACE_EXTENSION=1 -DLIBDCP_HAVE_HARU=1 '
           '-fPIC -pthread').split()

FLAVOURS = {
    # memory and undefined behaviour errors in the code under test end the run, and are reported
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'],
    'opt': ['-O2', '-g1'],
    # instrumented memory accesses, whose callbacks harness/schedules.cc supplies (libtsan is not linked)
    'sched': ['-O1', '-g1', '-fsanitize=thread', '-fno-inline-small-functions', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0'],
    # the real race detector, for free-running passes
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
}
LINK = {
    'asan': ['-fsanitize=address,undefined'],
    'opt': [],
    'sched': [],
    'tsan': ['-fsanitize=thread'],
}


class BuildError(Exception):
    pass


_pkg = {}


def pkg(what):
    if what not in _pkg:
        out = subprocess.run(['pkg-config', what] + PKGS, check=True, capture_output=True, text=True).stdout
        _pkg[what] = [x for x in out.split() if not ('\\' in x or '"' in x)]
    return _pkg[what]


_sha = {}


def sha(path):
    if path not in _sha:
        try:
            with open(path, 'rb') as f:
                _sha[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _sha[path] = None
    return _sha[path]


INCLUDE = re.compile(r'^\s*#\s*include\s*(["<])([^">]+)', re.M)
_needs = {}


def needs_missing(path, stack=()):
    """True if path includes, through the project's own headers, libcxml or asdcplib"""
    if path in _needs:
        return _needs[path]
    result = False
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    for _, name in INCLUDE.findall(text):
        if name.startswith(('libcxml/', 'asdcp/')):
            result = True
            break
        p = os.path.normpath(os.path.join(os.path.dirname(path), name))
        if not os.path.isfile(p):
            p = os.path.normpath(os.path.join(REPO, 'src', name))
        if os.path.isfile(p) and p not in stack and needs_missing(p, stack + (path,)):
            result = True
            break
    _needs[path] = result
    return result


def library_sources():
    """The library's sources, as src/wscript lists them"""
    with open(f'{REPO}/src/wscript') as f:
        text = re.sub(r'^\s*#.*$', '', f.read(), flags=re.M)
    names = sorted(set(re.findall(r'\b(\w+)\.cc\b', text)))
    return [f'{REPO}/src/{n}.cc' for n in names if n != 'version' and os.path.exists(f'{REPO}/src/{n}.cc')]


def core_sources():
    """Those that need neither libcxml nor asdcplib, and what they leave undefined"""
    core = [s for s in library_sources() if not needs_missing(s)]
    for n in ('exceptions', 'locale_convert', 'array_data'):
        p = f'{REPO}/src/{n}.cc'
        if p not in core:
            core.append(p)
    return core


def full_sources():
    """All of them, with the stand-ins for libcxml and asdcplib"""
    return library_sources() + [f'{SHIM}/full/{n}.cc' for n in ('asdcp', 'cxml', 'version')]


def tools():
    """The sources of each command-line tool: its own, and what they share"""
    names = sorted(n for n in os.listdir(f'{REPO}/tools') if n.endswith('.cc'))
    shared = [f'{REPO}/tools/{n}' for n in names if not n.startswith('dcp')]
    return {n[:-3]: [f'{REPO}/tools/{n}'] + shared for n in names if n.startswith('dcp')}


def compile_one(src, flags):
    """Return the path of the object for src, compiling it if no cached one matches"""
    cmd = ['g++'] + flags
    key = hashlib.sha256('\0'.join(cmd + [src, sha(src) or '']).encode()).hexdigest()
    d = os.path.join(CACHE, key[:2], key)
    os.makedirs(d, exist_ok=True)
    for name in sorted(os.listdir(d)):
        if not name.endswith('.json'):
            continue
        try:
            with open(os.path.join(d, name)) as f:
                deps = json.load(f)
        except (OSError, ValueError):
            continue
        obj = os.path.join(d, name[:-5] + '.o')
        if os.path.exists(obj) and all(sha(p) == h for p, h in deps.items()):
            return obj
    with tempfile.NamedTemporaryFile(dir=d, suffix='.tmp.o', delete=False) as t:
        tmp = t.name
    dep = tmp + '.d'
    r = subprocess.run(cmd + ['-MD', '-MF', dep, '-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode != 0:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError(f'{src} does not compile:\n{r.stderr[-4000:]}')
    with open(dep) as f:
        text = f.read().replace('\\\n', ' ')
    os.unlink(dep)
    names = [n for n in text.split(':', 1)[1].split()]
    deps = {}
    for n in names:
        n = os.path.normpath(n)
        # the system's headers do not change
        if n.startswith((REPO + '/', VERIF + '/')):
            deps[n] = sha(n)
    stem = hashlib.sha256(json.dumps(deps, sort_keys=True).encode()).hexdigest()[:24]
    obj = os.path.join(d, stem + '.o')
    os.rename(tmp, obj)
    with open(os.path.join(d, stem + '.json.tmp'), 'w') as f:
        json.dump(deps, f)
    os.rename(os.path.join(d, stem + '.json.tmp'), os.path.join(d, stem + '.json'))
    return obj


def build(name, harness, sources, flavour, extra_flags=(), libs=(), extra_link=(), plain=(), shim='include', programs=None):
    """Build the executable `name' from harness files and library sources; return its path.
    `plain' names harness files that must not be instrumented.  `programs' is a dictionary of sources of
    programs: each is made into a shared object beside the executable, whose main() can be called"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        base = (DEFINES + FLAVOURS[flavour] + list(extra_flags) +
                ['-I' + SHIM + '/' + shim, f'-I{REPO}/src', '-I' + VERIF + '/harness'] + pkg('--cflags'))
        plain_flags = (DEFINES + FLAVOURS['opt'] + list(extra_flags) +
                       ['-I' + SHIM + '/' + shim, f'-I{REPO}/src', '-I' + VERIF + '/harness'] + pkg('--cflags'))
        jobs = [(h, plain_flags if h in plain else base) for h in harness]
        jobs += [(s, base) for s in sources]
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            objs = list(pool.map(lambda j: compile_one(*j), jobs))
            programs = {p: [pool.submit(compile_one, s, base) for s in ss] for p, ss in (programs or {}).items()}
            programs = {p: [o.result() for o in oo] for p, oo in programs.items()}
        link = (['g++', '-pthread'] + LINK[flavour])
        tail = list(extra_link) + ['-Wl,--as-needed', '-lboost_filesystem', '-lboost_system', '-lboost_date_time',
                                   '-lboost_thread', '-lhpdf', '-ldl'] + pkg('--libs') + list(libs)
        key = hashlib.sha256('\0'.join(link + objs + tail + [json.dumps(programs, sort_keys=True)]).encode()).hexdigest()[:24]
        exe_dir = os.path.join(BUILD, 'exe', name, key)
        exe = os.path.join(exe_dir, name)
        if not os.path.exists(exe):
            shutil.rmtree(os.path.join(BUILD, 'exe', name), ignore_errors=True)
            os.makedirs(exe_dir, exist_ok=True)
            n = len(harness)
            lib = os.path.join(exe_dir, 'lib.a')
            if os.path.exists(lib):
                os.unlink(lib)
            inputs = objs[:n]
            if objs[n:]:
                with open(os.path.join(exe_dir, 'lib.rsp'), 'w') as f:
                    f.write('\n'.join(objs[n:]))
                # thin archives want distinct names: the objects' are content hashes
                subprocess.run(['ar', 'crsT', lib, '@' + os.path.join(exe_dir, 'lib.rsp')], check=True)
                inputs = inputs + ([lib] if not programs else ['-rdynamic', '-Wl,--whole-archive', lib, '-Wl,--no-whole-archive'])
            for p, oo in programs.items():
                r = subprocess.run(link + ['-shared'] + oo + ['-o', os.path.join(exe_dir, p + '.so')], capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError(f'{p} does not link:\n{r.stderr[-4000:]}')
            r = subprocess.run(link + inputs + ['-o', exe + '.tmp'] + tail, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(f'{name} does not link:\n{r.stderr[-4000:]}')
            os.rename(exe + '.tmp', exe)
        return exe
