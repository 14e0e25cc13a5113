"""Front end driver: extracts the type-checked program of /repo with build/dtgx (one run per
translation unit, in parallel), caches it under build/cache keyed by a hash of every source
file of /repo and of the extractor, and merges the units into one Program."""
import hashlib, json, os, subprocess, sys, concurrent.futures, fcntl, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'dtgx')
SUB = 'subpackages/mav_trajectory_generation'

PLAN_UNITS = ['src/dynamic_trajectory.cpp', 'src/dynamic_waypoint.cpp']


class AnalysisError(Exception):
    """the analysis cannot give an answer (exit code 2)"""


def lib_sources():
    out = list(PLAN_UNITS)
    d = os.path.join(REPO, SUB, 'src')
    for root, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    d = os.path.join(REPO, 'src')
    for f in sorted(os.listdir(d)):
        if f.endswith('.cpp') and 'src/' + f not in out:
            out.append('src/' + f)
    return out


def flags():
    r = REPO
    return ['-std=gnu++17',
            '-I%s/include' % r, '-I%s/include/dynamic_trajectory_generator' % r,
            '-I%s/%s/include' % (r, SUB),
            '-I%s/%s/include/mav_trajectory_generation' % (r, SUB),
            '-I%s/%s/include/mav_msgs' % (r, SUB),
            '-I/usr/include/eigen3', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def build_tool():
    src = os.path.join(VERIF, 'tool', 'dtgx.cpp')
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = TOOL + '.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    with open(os.path.join(BUILD, 'tool.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        tmp = TOOL + '.tmp'
        cmd = ['/usr/bin/g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include',
               '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
               '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L/usr/lib/llvm-18/lib',
               '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1', '-Wl,-rpath,/usr/lib/llvm-18/lib']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError('cannot build the front end: ' + r.stderr[-2000:])
        os.rename(tmp, TOOL)
        open(stamp, 'w').write(h)


def source_hash():
    h = hashlib.sha256()
    files = []
    for base in ('src', 'include', SUB):
        for root, _, fs in os.walk(os.path.join(REPO, base)):
            if '/test' in root:
                continue
            for f in fs:
                if f.endswith(('.cpp', '.h', '.hpp', '.cc')):
                    files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        h.update(open(f, 'rb').read())
    h.update(open(os.path.join(VERIF, 'tool', 'dtgx.cpp'), 'rb').read())
    for f in sorted(os.listdir(os.path.join(VERIF, 'tool'))):
        if f.endswith('.cc'):
            h.update(open(os.path.join(VERIF, 'tool', f), 'rb').read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def extract_one(args):
    src, out = args
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([TOOL, REPO, tmp, src, '--'] + flags(), capture_output=True, text=True)
    if not os.path.exists(tmp):
        return src, 'no output: ' + r.stderr[-500:]
    os.rename(tmp, out)
    return src, None


def extract(want=None):
    """want: list of predicates/substrings of unit names; None = every unit"""
    build_tool()
    key = source_hash()
    cdir = os.path.join(BUILD, 'cache')
    d = os.path.join(cdir, key)
    os.makedirs(cdir, exist_ok=True)
    units = [(os.path.join(REPO, s), os.path.join(d, s.replace('/', '__') + '.json')) for s in lib_sources()]
    units.append((os.path.join(VERIF, 'tool', 'instances.cc'), os.path.join(d, 'instances.json')))
    if want is not None:
        units = [u for u in units if any(u[0].endswith(w) for w in want)]
        if len(units) < len(want):
            raise AnalysisError('anchor vanished: translation units %s' % want)
    with open(os.path.join(BUILD, 'extract.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(d, exist_ok=True)
        todo = [u for u in units if not os.path.exists(u[1])]
        if todo:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for src, err in ex.map(extract_one, todo):
                    if err:
                        raise AnalysisError('front end failed on %s: %s' % (src, err))
        # keep the cache small
        ds = sorted((os.path.getmtime(os.path.join(cdir, x)), x) for x in os.listdir(cdir))
        for _, x in ds[:-16]:
            if x != key:
                shutil.rmtree(os.path.join(cdir, x), ignore_errors=True)
        os.utime(d)
    return [u[1] for u in units], [os.path.relpath(u[0], REPO) if u[0].startswith(REPO) else u[0] for u in units]


def nodes(x):
    """every node of a syntax tree"""
    work = [x]
    while work:
        y = work.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            work.extend(v for k, v in y.items() if isinstance(v, (dict, list)) and k not in ('ri',))
        elif isinstance(y, list):
            work.extend(y)


class Program:
    def __init__(self):
        self.fns = {}          # id -> function
        self.by_name = {}      # qualified name -> [function]
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.units = []
        self.lambdas = {}

    def fn(self, name):
        """the only function with that qualified name"""
        c = self.by_name.get(name, [])
        if not c:
            raise AnalysisError('anchor vanished: function %s' % name)
        return c[0]

    def methods(self, cls):
        return [f for f in self.fns.values() if f.get('cls') == cls]

    def method(self, cls, sn, nparams=None):
        c = [f for f in self.methods(cls) if f['sn'] == sn and (nparams is None or len(f['params']) == nparams)]
        if not c:
            raise AnalysisError('anchor vanished: %s::%s' % (cls, sn))
        return c[0]

    def record(self, name):
        if name not in self.records:
            raise AnalysisError('anchor vanished: class %s' % name)
        return self.records[name]


def load(want=None):
    files, names = extract(want)
    p = Program()
    for f, n in zip(files, names):
        d = json.load(open(f))
        if d.get('errors'):
            raise AnalysisError('%s does not type-check (%d errors)' % (n, d['errors']))
        p.units.append(n)
        for fn in d['functions']:
            fn['unit'] = n
            k = fn['id']
            if k in p.fns:
                if fn.get('internal') and p.fns[k]['file'] != fn['file']:
                    k = k + '@' + fn['file']
                    if k in p.fns:
                        continue
                else:
                    continue
            p.fns[k] = fn
            p.by_name.setdefault(fn['name'], []).append(fn)
        for r in d['records']:
            p.records.setdefault(r['name'], r)
        for g in d['globals']:
            p.globals.setdefault(g['qn'], g)
        for e in d['enums']:
            p.enums.setdefault(e['name'], e)
    return p
