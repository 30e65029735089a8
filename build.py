#!/usr/bin/env python3
"""Build SMASH (the sources of /repo's working tree) plus one harness, offline.

  build.py --cfg CFG --out EXE harness.cc [harness2.cc ...]     (or --smash for src/smash.cc)

CFG is one of the configurations below.  All objects go to /verif/.build/CFG (ignored by git);
/repo is only read.  Sources are grouped into unity chunks because parsing the headers dominates the
compile time; a chunk that does not compile as a unit is compiled file by file instead, so a change
to the sources which happens to clash inside a chunk still builds.
"""
import argparse, concurrent.futures as cf, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))

CFGS = {
    # the sources with their assertions on, plus the checks of the C++ library
    'plain': ['-O1', '-D_GLIBCXX_ASSERTIONS'],
    # memory errors and undefined behaviour are fatal
    'asan': ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    # the same without assertions, as released: for input that has to be refused with an exception
    'release': ['-O1', '-g1', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined',
                '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'cov': ['-O0', '--coverage'],
}
LINK = {'release': ['-fsanitize=address,undefined'], 'asan': ['-fsanitize=address,undefined'], 'cov': ['--coverage']}
# relative compile cost, to balance the chunks; unknown files count 4
COST = {'experiment.cc': 20, 'crosssections.cc': 9, 'scatteractionsfinder.cc': 7, 'smash.cc': 6,
        'boxmodus.cc': 6, 'binaryoutput.cc': 6, 'collidermodus.cc': 7, 'listmodus.cc': 6,
        'configuration.cc': 6, 'stringprocess.cc': 7, 'scatteraction.cc': 6, 'clebschgordan_lookup.cc': 5}
# the files which need Pythia; a harness of the rest of the library can leave them out
PYTHIA = {'bremsstrahlungaction.cc', 'crosssections.cc', 'experiment.cc', 'scatteraction.cc',
          'scatteractionmulti.cc', 'scatteractionphoton.cc', 'scatteractionsfinder.cc', 'stringprocess.cc'}
SKIP = {'rootoutput.cc', 'hepmcoutput.cc', 'hepmcinterface.cc', 'rivetoutput.cc', 'tsc.cc',
        'smash.cc'}


def die(msg):
    print('build: ' + msg, file=sys.stderr)
    sys.exit(2)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding='utf-8').read() == text:
        return
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def gen_headers(inc):
    for n in ('particles.txt', 'decaymodes.txt'):
        lines = open(f'{REPO}/input/{n}', encoding='utf-8').read().split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        body = ''.join('\n  "%s\\n"' % l for l in lines)
        write(f'{inc}/{n}.h', f'// generated from {n}\nconst char data[] ={body};\n')
    version = 'SMASH-0'
    cm = open(f'{REPO}/CMakeLists.txt', encoding='utf-8').read()
    m = re.search(r'project\(\s*SMASH\s+VERSION\s+([0-9.]+)', cm, re.S | re.I)
    if m:
        version = 'SMASH-' + m.group(1)
    cfg = open(f'{REPO}/src/include/smash/config.h.in', encoding='utf-8').read()
    sub = {'SMASH_VERSION': version, 'CMAKE_SYSTEM': 'Linux', 'CMAKE_CXX_COMPILER_ID': 'GNU',
           'CMAKE_CXX_COMPILER_VERSION': '13', 'CMAKE_BUILD_TYPE': 'Release',
           'BUILD_DATE': '2000-01-01T00:00:00', 'GIT_BRANCH': 'main'}
    cfg = re.sub(r'#cmakedefine (\w+) (.*)', r'#define \1 \2', cfg)
    cfg = re.sub(r'#cmakedefine01 (\w+)', r'#define \1 0', cfg)
    cfg = re.sub(r'#cmakedefine (\w+)', r'#define \1', cfg)
    cfg = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), ''), cfg)
    write(f'{inc}/smash/config.h', cfg)


def source_list():
    cm = open(f'{REPO}/src/CMakeLists.txt', encoding='utf-8').read()
    m = re.search(r'set\(smash_src\s+(.*?)\)', cm, re.S)
    files = re.findall(r'[\w.]+\.cc', m.group(1)) if m else []
    if not files:
        files = [os.path.basename(f) for f in glob.glob(f'{REPO}/src/*.cc')]
    return [f for f in files if f not in SKIP and os.path.exists(f'{REPO}/src/{f}')]


_hdr_cache = {}


def hdr_uses_keys(name):
    """whether a smash header reaches input_keys.h (the most expensive header)"""
    if name in _hdr_cache:
        return _hdr_cache[name]
    _hdr_cache[name] = False
    if name == 'input_keys.h':
        _hdr_cache[name] = True
        return True
    p = f'{REPO}/src/include/smash/{name}'
    if os.path.exists(p):
        for i in re.findall(r'#include "(?:smash/)?([\w.]+)"', open(p, encoding='utf-8').read()):
            if hdr_uses_keys(i):
                _hdr_cache[name] = True
                break
    return _hdr_cache[name]


def includes(src):
    """the #include lines of a source that stand outside of any #if"""
    out, depth = [], 0
    for l in open(src, encoding='utf-8'):
        s = l.strip()
        if re.match(r'#\s*if', s):
            depth += 1
        elif re.match(r'#\s*endif', s):
            depth -= 1
        elif depth == 0 and re.match(r'#\s*include', s):
            if '.txt.h' in s:
                continue
            out.append(s)
    return out


def closure(harness):
    """the sources a harness can need: for each header it reaches the source of the same name, and so on"""
    seen, ccs, todo = set(), set(), []
    for h in harness:
        todo += re.findall(r'#include "(?:smash/)?([\w.]+)"', open(h, encoding='utf-8').read())
    while todo:
        h = todo.pop()
        if h in seen:
            continue
        seen.add(h)
        for p in (f'{REPO}/src/include/smash/{h}', f'{VERIF}/harness/{h}'):
            if os.path.exists(p):
                todo += re.findall(r'#include "(?:smash/)?([\w.]+)"', open(p, encoding='utf-8').read())
        c = h[:-2] + '.cc'
        if os.path.exists(f'{REPO}/src/{c}') and c not in ccs:
            ccs.add(c)
            todo += re.findall(r'#include "(?:smash/)?([\w.]+)"', open(f'{REPO}/src/{c}', encoding='utf-8').read())
    return ccs


def chunks(files):
    keyed, plain = [], []
    for f in files:
        incs = re.findall(r'#include "(?:smash/)?([\w.]+)"', open(f'{REPO}/src/{f}', encoding='utf-8').read())
        (keyed if any(hdr_uses_keys(i) for i in incs) else plain).append(f)

    def pack(fs, n):
        bins = [[0, []] for _ in range(n)]
        for f in sorted(fs, key=lambda f: (-COST.get(f, 4), f)):
            b = min(bins, key=lambda b: (b[0], len(b[1])))
            b[0] += COST.get(f, 4)
            b[1].append(f)
        return [b[1] for b in bins if b[1]]
    small = len(files) < 45
    return pack(keyed, 6 if small else 9) + pack(plain, 4 if small else 6)


def unity_text(files):
    srcs = [f'{REPO}/src/{f}' for f in files]
    txt, seen = [], set()
    for s in srcs:
        for i in includes(s):
            if i not in seen:
                seen.add(i)
                txt.append(i)
    for k, s in enumerate(srcs):
        names = sorted(set(re.findall(r'^static constexpr int (L\w+)\s*=',
                                      open(s, encoding='utf-8').read(), re.M)))
        txt += [f'#define {n} {n}_u{k}' for n in names]
        txt.append(f'#include "{s}"')
        txt += [f'#undef {n}' for n in names]
    return '\n'.join(txt) + '\n'


class Builder:
    def __init__(self, cfg, extra=()):
        self.cfg = cfg
        self.dir = f'{ROOT}/{cfg}'
        self.inc = f'{self.dir}/include'
        os.makedirs(self.dir, exist_ok=True)
        gen_headers(self.inc)
        tp = f'{REPO}/3rdparty'
        eig = '/usr/include/eigen3'
        self.flags = (['-std=c++17', '-w', '-ffunction-sections', '-fdata-sections', '-pipe', '-fno-math-errno', '-ffp-contract=off', '-DGCC_COMPILER',
                       '-DLITTLE_ENDIAN_ARCHITECTURE', '-DBUILD_TESTS', '-DYAML_CPP_STATIC_DEFINE',
                       '-DPYTHIA_FOUND', '-include', f'{VERIF}/standin/prelude.h', '-DPYTHIA_XML_DIR="none"',
                       f'-I{VERIF}/standin', f'-I{VERIF}/harness', f'-I{REPO}/src/include', f'-I{self.inc}']
                      + [x for d in ('Cuba-4.2.2', 'einhard', 'yaml-cpp-0.8.0/include')
                         for x in ('-isystem', f'{tp}/{d}')] + ['-isystem', eig]
                      + CFGS[cfg] + list(extra))
        self.cc = ['g++']
        self.env = dict(os.environ, LC_ALL='C.UTF-8')
        if shutil.which('ccache') and os.environ.get('VERIF_CCACHE', '1') != '0':
            self.cc = ['ccache', 'g++']
            self.env.setdefault('CCACHE_DIR', os.path.join(VERIF, '.ccache'))
            self.env['CCACHE_MAXSIZE'] = '4G'
            self.env['CCACHE_COMPRESSLEVEL'] = '1'

    def compile(self, src, obj, quiet=False):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        t0 = time.time()
        r = subprocess.run(self.cc + self.flags + ['-c', src, '-o', obj], env=self.env,
                           capture_output=True, text=True)
        if os.environ.get('VERIF_BUILD_DEBUG'):
            print('%5.1f s %s' % (time.time() - t0, src), file=sys.stderr)
        if r.returncode:
            if not quiet:
                print(f'build: {src} does not compile\n' + r.stderr[:6000], file=sys.stderr)
            return False
        return True

    def chunk(self, job):
        k, files = job
        if len(files) > 1:
            src = f'{self.dir}/unity_{self.tag}{k}.cc'
            write(src, unity_text(files))
            obj = f'{self.dir}/unity_{self.tag}{k}.o'
            if self.compile(src, obj, quiet=os.environ.get('VERIF_BUILD_DEBUG') is None):
                return [(True, obj)]
            return None
        return [self.single(f'{REPO}/src/{files[0]}')]

    def single(self, f):
        obj = f'{self.dir}/single/{os.path.basename(f)}.o'
        return (self.compile(f, obj), obj)

    def third_party(self):
        """static third-party libraries: those of the repository's own build, else built here"""
        b = f'{REPO}/_build/3rdparty'
        libs = [f'{b}/einhard/libeinhard.a', f'{b}/yaml-cpp-0.8.0/libyaml-cpp.a'] + [
            f'{b}/Cuba-4.2.2/src/{n}/lib{n}.a' for n in ('cuhre', 'suave', 'divonne', 'vegas')]
        if all(os.path.exists(l) for l in libs):
            return libs
        d = f'{ROOT}/3rdparty'
        libs = [l.replace(b, f'{d}/3rdparty') for l in libs]
        if not all(os.path.exists(l) for l in libs):
            os.makedirs(d, exist_ok=True)
            pre = '/opt/vp/cmake/no_pythia.cmake'
            args = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
                    '-DBUILD_TESTING=OFF', '-DTRY_USE_ROOT=OFF', '-DTRY_USE_HEPMC=OFF',
                    '-DTRY_USE_RIVET=OFF', f'-DCMAKE_PROJECT_SMASH_INCLUDE={pre}']
            for a in (args, ['ninja', '-C', d, 'einhard', 'yaml-cpp', 'cuhre', 'suave', 'divonne', 'vegas']):
                r = subprocess.run(a, capture_output=True, text=True)
                if r.returncode:
                    die('third-party libraries do not build: ' + r.stdout[-2000:] + r.stderr[-2000:])
        return libs

    def build(self, harness, out, smash_main=False, core=False, also=()):
        """also: sources that a later build needs, compiled on the side (the compiler cache keeps them)"""
        t0 = time.time()
        files = [f for f in source_list() if not (core and f in PYTHIA)]
        if core == 'auto':
            need = closure(harness)
            files = [f for f in files if f in need]
        self.tag = {False: 'f', True: 'c', 'auto': 'a'}[core]
        own = list(harness) + ([f'{REPO}/src/smash.cc'] if smash_main else [])
        jobs = list(enumerate(chunks(files)))
        objs, fallback, failed = [], [], False
        with cf.ThreadPoolExecutor(JOBS) as ex:
            cost = lambda fs: sum(COST.get(f, 4) for f in fs)
            order = sorted(jobs, key=lambda j: -cost(j[1]))
            futs = [(order[0], ex.submit(self.chunk, order[0]))]
            own_f = [ex.submit(self.single, f) for f in own]
            for f in also:
                ex.submit(self.single, f)
            futs += [(j, ex.submit(self.chunk, j)) for j in order[1:]]
            for j, fu in futs:
                r = fu.result()
                if r is None:
                    fallback += [f'{REPO}/src/{f}' for f in j[1]]
                else:
                    objs += [o for _, o in r]
                    failed = failed or not all(ok for ok, _ in r)
            rest = list(ex.map(self.single, fallback))
            mine = [f.result() for f in own_f]
        if failed:
            die('compilation failed')
        for ok, o in rest + mine:
            if not ok:
                die('compilation failed')
            objs.append(o)
        libs = self.third_party()
        r = subprocess.run(['g++', '-Wl,--gc-sections', '-o', out + '.tmp'] + sorted(objs) + libs + LINK.get(self.cfg, [])
                           + ['-lgsl', '-lgslcblas', '-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode and core == 'auto':
            return self.build(harness, out, smash_main, True, also)
        if r.returncode:
            die('link failed: ' + r.stderr[-4000:])
        os.replace(out + '.tmp', out)
        print(f'build: {out} [{self.cfg}] {len(files)} sources, {len(fallback)} outside chunks, '
              f'{time.time() - t0:.0f} s', file=sys.stderr)


def build(harness, out, cfg='plain', smash_main=False, extra=(), core=False, also=()):
    os.makedirs(os.path.dirname(os.path.abspath(out)), exist_ok=True)
    Builder(cfg, extra).build([os.path.join(VERIF, h) for h in harness], out, smash_main, core,
                              [os.path.join(VERIF, h) for h in also])
    return out


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--cfg', default='plain', choices=sorted(CFGS))
    ap.add_argument('--smash', action='store_true')
    ap.add_argument('--core', default='')
    ap.add_argument('--out', required=True)
    ap.add_argument('harness', nargs='*')
    a = ap.parse_args()
    build(a.harness, a.out, a.cfg, a.smash, core={'': False, 'auto': 'auto'}.get(a.core, True))
