"""Builds what a check needs from /repo's current working tree.

Everything is compiled here, with sanitizers, from the sources in /repo; nothing
of /repo/_build is used.  Objects are cached in /verif/build and reused only if
the command, the source and every header it read are byte for byte the same.
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(VERIF, 'harness')

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-sanitize=vptr']
CFLAGS = ['-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w',
          '-DPACKAGE="ringing-lib"', '-DPACKAGE_NAME="ringing-lib"',
          '-DPACKAGE_VERSION="0.4.0-pre"', '-DVERSION="0.4.0-pre"',
          '-DPACKAGE_STRING="ringing-lib 0.4.0-pre"', '-DPACKAGE_BUGREPORT=""',
          '-DHAVE_STDIO_H=1', '-DHAVE_STDLIB_H=1', '-DHAVE_STRING_H=1',
          '-DHAVE_INTTYPES_H=1', '-DHAVE_STDINT_H=1', '-DHAVE_STRINGS_H=1',
          '-DHAVE_SYS_STAT_H=1', '-DHAVE_SYS_TYPES_H=1', '-DHAVE_UNISTD_H=1',
          '-DSTDC_HEADERS=1', '-DHAVE_DLFCN_H=1'] + SAN
GDOME = ['-I/usr/include/libgdome', '-I/usr/include/glib-2.0',
         '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include', '-I/usr/include/libxml2']
LIBS = ['-lgdome', '-lglib-2.0', '-lxml2', '-lreadline', '-ltermcap']

_sha = {}
def sha(path):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in _sha:
            with open(path, 'rb') as f:
                _sha[k] = hashlib.sha256(f.read()).hexdigest()
        return _sha[k]
    except OSError:
        return None

class BuildError(Exception):
    pass

def tag(src, cmd):
    return os.path.basename(src).rsplit('.', 1)[0] + '-' + \
        hashlib.sha256('\0'.join([src] + cmd).encode()).hexdigest()[:16]

def compile_obj(job):
    src, inc, extra = job
    base = ['g++', '-std=gnu++17'] + CFLAGS + extra + inc
    name = os.path.join(BUILD, 'obj', tag(src, base))
    obj, dep, man = name + '.o', name + '.d', name + '.json'
    try:
        with open(man) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(sha(p) == h for p, h in m.items()):
            return obj, False
    except (OSError, ValueError):
        pass
    r = subprocess.run(base + ['-MMD', '-MF', dep, '-c', src, '-o', obj + '.tmp'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('cannot compile %s\n%s' % (src, r.stdout[:6000]))
    os.rename(obj + '.tmp', obj)
    with open(dep) as f:
        deps = f.read().replace('\\\n', ' ').split(':', 1)[1].split()
    with open(man, 'w') as f:
        json.dump({d: sha(d) for d in set(deps)}, f)
    return obj, True

def link(target, objs, libs):
    key = hashlib.sha256(json.dumps([[sha(o) for o in objs], libs]).encode()).hexdigest()
    man = target + '.key'
    try:
        with open(man) as f:
            if f.read() == key and os.path.exists(target):
                return
    except OSError:
        pass
    cmd = ['g++'] + SAN + ['-o', target + '.tmp'] + objs + libs
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('cannot link %s\n%s' % (target, r.stdout[:6000]))
    os.rename(target + '.tmp', target)
    with open(man, 'w') as f:
        f.write(key)

INC = ['-I' + os.path.join(HARNESS, 'config'), '-I' + REPO]

def lib_jobs():
    out = []
    for s in sorted(glob.glob(os.path.join(REPO, 'ringing', '*.cpp'))):
        b = os.path.basename(s)
        if b in ('dom_xerces.cpp', 'dom_stub.cpp'):
            continue
        out.append((s, INC + (GDOME if b.startswith('dom_') else []), []))
    return out

def utils_jobs():
    return [(s, INC + ['-I' + os.path.join(REPO, 'apps/utils')], [])
            for s in sorted(glob.glob(os.path.join(REPO, 'apps/utils', '*.cpp')))]

def gen_init_dat():
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    g = os.path.join(REPO, 'apps/gsiril')
    r = subprocess.run(['awk', '-f', os.path.join(g, 'escape.awk'),
                        os.path.join(g, 'init/gsiril.init')], stdout=subprocess.PIPE)
    if r.returncode:
        raise BuildError('cannot make init.dat')
    p = os.path.join(d, 'init.dat')
    try:
        with open(p, 'rb') as f:
            if f.read() == r.stdout:
                return d
    except OSError:
        pass
    with open(p, 'wb') as f:
        f.write(r.stdout)
    return d

def app_jobs(app):
    inc = INC + ['-I' + os.path.join(REPO, 'apps/utils'), '-I' + os.path.join(REPO, 'apps', app)]
    if app == 'gsiril':
        inc = ['-I' + gen_init_dat()] + inc
    return [(s, inc, []) for s in sorted(glob.glob(os.path.join(REPO, 'apps', app, '*.cpp')))]

def directives(src):
    d = {}
    with open(src) as f:
        for line in f:
            m = re.match(r'//!\s*(\w+):\s*(.*)', line)
            if m:
                d.setdefault(m.group(1), []).extend(m.group(2).split())
    return d

def build(prop, log=sys.stderr):
    """Builds the check program of a property and the programs it runs."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked([prop])

def build_locked(props):
    groups = {'lib': lib_jobs(), 'utils': utils_jobs()}
    progs = []          # (target, [group...])
    for prop in props:
        src = os.path.join(HARNESS, 'props', prop + '.cpp')
        d = directives(src)
        inc = ['-I' + HARNESS] + INC + ['-I' + os.path.join(REPO, 'apps/utils')]
        for a in d.get('include', []):
            inc.append('-I' + os.path.join(REPO, a))
        groups['p:' + prop] = [(src, inc, []), (os.path.join(HARNESS, 'pbt.cpp'), ['-I' + HARNESS], [])]
        parts = ['p:' + prop]
        for a in d.get('sources', []):     # single sources of an application
            app = a.split('/')[1]
            groups['s:' + a] = [j for j in app_jobs(app) if j[0] == os.path.join(REPO, a)]
            parts.append('s:' + a)
        if 'utils' in d.get('link', []):
            parts.append('utils')
        if 'nolib' not in d.get('link', []):
            parts.append('lib')
        progs.append((prop, parts))
        for a in d.get('apps', []):
            groups['a:' + a] = app_jobs(a)
            if a not in [p[0] for p in progs]:
                progs.append((a, ['a:' + a, 'utils', 'lib']))
    need = {}
    for _, parts in progs:
        for p in parts:
            for j in groups[p]:
                need[(j[0], tuple(j[1]))] = j
    # Longest first
    jobs = sorted(need.values(), key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        res = list(ex.map(compile_obj, jobs))
    objs = {(j[0], tuple(j[1])): r[0] for j, r in zip(jobs, res)}
    def do_link(pr):
        name, parts = pr
        libs = list(LIBS)
        if name == 'ringmethod':
            libs = ['-lncurses'] + libs
        link(os.path.join(BUILD, 'bin', name),
             [objs[(j[0], tuple(j[1]))] for p in parts for j in groups[p]], libs)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(do_link, progs))
    return sum(1 for r in res if r[1]), len(res)

if __name__ == '__main__':
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    props = sys.argv[1:]
    if props == ['all']:
        props = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(HARNESS, 'props', '*.cpp')))
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            n, t = build_locked(props)
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(3)
    print('compiled %d of %d objects' % (n, t))
