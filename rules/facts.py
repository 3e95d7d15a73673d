"""Runs the extractor over /repo's current source and loads the facts."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BALAU_REPO', '/repo')
MAIN = REPO + '/src/main/cpp'
BUILD = os.path.join(VERIF, 'build')

# Test sources that are only used as instantiation drivers: nothing in them is judged.
TEST_DRIVERS = [
    'Balau/Application/InjectorTest.cpp', 'Balau/Application/CommandLineTest.cpp',
    'Balau/Application/EnvironmentConfigurationTest.cpp',
    'Balau/Application/Impl/EnvironmentConfigurationBuilderTest.cpp',
    'Balau/Application/ToStringTest.cpp',
    'Balau/Container/ArrayBlockingQueueTest.cpp', 'Balau/Container/ObjectTrieTest.cpp',
    'Balau/Container/DependencyGraphTest.cpp',
    'Balau/Interprocess/SharedMemoryQueueTest.cpp',
    'Balau/Lang/Common/ScannedTokensTest.cpp', 'Balau/Lang/Property/Parser/PropertyParserTest.cpp',
    'Balau/Logging/LoggerTest.cpp', 'Balau/Logging/Impl/LoggingStreamsTest.cpp',
    'Balau/Testing/AssertionsTest.cpp', 'TestMain.cpp',
    'Balau/Util/StringsTest.cpp', 'Balau/Util/ZipTest.cpp', 'Balau/Util/RandomTest.cpp',
    'Balau/Util/PrettyPrintTest.cpp', 'Balau/Util/DateTimeTest.cpp',
    'Balau/Resource/UriComponentsTest.cpp', 'Balau/Resource/FileTest.cpp',
]


TUCACHE = os.path.join(BUILD, 'tu')


STALE = os.environ.get('BALAU_STALE')
EDITED = [e for e in os.environ.get('BALAU_EDITED', '').split(',') if e]


def rel(p):
    return p.replace(VERIF + '/', '@V/') if p.startswith(VERIF + '/') else p.replace(REPO + '/', '@R/')


def unrel(p):
    return p.replace('@V/', VERIF + '/').replace('@R/', REPO + '/')


def file_hash(p, memo):
    if p not in memo:
        try:
            with open(p, 'rb') as fh:
                memo[p] = hashlib.sha256(fh.read()).hexdigest()
        except OSError:
            memo[p] = 'absent'
    return memo[p]


class Broken(Exception):
    """The analysis itself cannot give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO + '/src/main/cpp', VERIF + '/drivers', VERIF + '/extractor'):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, 'src/test/cpp', t) for t in TEST_DRIVERS]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def extractor():
    exe = os.path.join(BUILD, 'extract')
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        p = sh(['bash', os.path.join(VERIF, 'extractor', 'build.sh'), BUILD])
        if p.returncode or not os.path.exists(exe):
            raise Broken('the extractor does not build: ' + p.stderr[-2000:])
    return exe


def flags():
    return ['-std=c++17', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
            '-include', 'complex', '-include', 'fstream', '-include', 'boost/filesystem/fstream.hpp',
            '-include', 'boost/core/demangle.hpp',
            '-I' + MAIN, '-I' + VERIF + '/drivers/include', '-I' + VERIF + '/drivers/shim',
            '-I' + REPO + '/src/test/cpp',
            '-w', '-ferror-limit=0', '-DBALAU_DEBUG', '-DBALAU_STACK_TRACES',
            '-DBOOST_STACKTRACE_LINK', '-DBOOST_STACKTRACE_USE_BACKTRACE']


def translation_units():
    """(path, kind): main sources, own drivers, test drivers."""
    tus = []
    for f in sorted(glob.glob(VERIF + '/drivers/*.cpp')):
        tus.append((f, 'driver'))
    for f in sorted(glob.glob(MAIN + '/**/*.cpp', recursive=True)):
        if '/ThirdParty/' not in f:
            tus.append((f, 'network' if '/Network/' in f else 'main'))
    for t in TEST_DRIVERS:
        f = os.path.join(REPO, 'src/test/cpp', t)
        if os.path.exists(f):
            tus.append((f, 'test'))
    return tus


def extract(outdir):
    exe = extractor()
    os.makedirs(outdir, exist_ok=True)
    fl = flags()

    os.makedirs(TUCACHE, exist_ok=True)
    hashes = {}
    pristine = {}
    stamp = file_hash(os.path.join(VERIF, 'extractor', 'extract.cpp'), hashes) + hashlib.sha256(' '.join(
        x.replace(REPO, '@R').replace(VERIF, '@V') for x in fl).encode()).hexdigest()

    def run(tu):
        f, kind = tu
        out = os.path.join(outdir, hashlib.sha1(f.encode()).hexdigest()[:16] + '.tsv')
        base = os.path.join(TUCACHE, hashlib.sha1((stamp + rel(f)).encode()).hexdigest()[:20])
        if STALE and not re.search(STALE, os.path.basename(f)):      # development only (tools/mut.py)
            for idx in glob.glob(base + '.*.idx'):
                with open(idx) as fh:
                    d = json.load(fh)
                if all(file_hash(unrel(p).replace(REPO, '/repo', 1), pristine) == h for p, h in d['deps']):
                    shutil.copyfile(idx[:-4] + '.tsv', out)
                    return f, 'stale', out, d['rc'], d['err']
        for idx in glob.glob(base + '.*.idx'):
            with open(idx) as fh:
                d = json.load(fh)
            if all(file_hash(unrel(p), hashes) == h for p, h in d['deps']):
                os.utime(idx)
                shutil.copyfile(idx[:-4] + '.tsv', out)
                return f, kind, out, d['rc'], d['err']
        r = run1(f, kind, out)
        if r[3] in (0, 3) and os.path.exists(out):
            deps = []
            with open(out, encoding='utf-8', errors='replace') as fh:
                for line in fh:
                    if line.startswith('I\t'):
                        p = os.path.realpath(line.split('\t')[1])
                        if p.startswith(REPO + '/') or p.startswith(VERIF + '/'):
                            deps.append((rel(p), file_hash(p, hashes)))
                    else:
                        break
            tag = hashlib.sha1(json.dumps(deps).encode()).hexdigest()[:12]
            old = sorted(glob.glob(base + '.*.idx'), key=os.path.getmtime)
            for o in old[:-5]:
                for x in (o, o[:-4] + '.tsv'):
                    if os.path.exists(x):
                        os.remove(x)
            tmpn = base + '.' + tag + '.tmp%d' % os.getpid()
            shutil.copyfile(out, tmpn)
            os.rename(tmpn, base + '.' + tag + '.tsv')
            with open(tmpn, 'w') as fh:
                json.dump({'deps': deps, 'rc': r[3], 'err': r[4]}, fh)
            os.rename(tmpn, base + '.' + tag + '.idx')
        return r

    def run1(f, kind, out):
        try:
            p = sh([exe, out, MAIN, 'ThirdParty/', f, '--'] + fl, timeout=300)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = 99, 'timeout'
        return f, kind, out, rc, err

    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        return list(ex.map(run, translation_units()))


def load(verbose=False):
    """All facts as a dict: functions, classes, enums, globals, patterns, units."""
    key = tree_hash()
    if STALE:
        key = hashlib.sha1((key + STALE).encode()).hexdigest()
    cdir = os.path.join(BUILD, 'facts')
    cfile = os.path.join(cdir, key + '.pkl')
    if os.path.exists(cfile):
        with open(cfile, 'rb') as fh:
            return pickle.load(fh)
    t0 = time.time()
    tmp = os.path.join(BUILD, 'tsv.%d' % os.getpid())
    results = extract(tmp)
    kinds = {'F': {}, 'C': {}, 'E': {}, 'G': {}, 'D': {}, 'X': {}}
    units = []
    for f, kind, out, rc, err in results:
        ok = rc == 0
        units.append({'file': f, 'kind': kind, 'ok': ok, 'rc': rc, 'err': '' if ok else '\n'.join(
            l for l in err.splitlines() if 'error' in l)[:2000] or err[-500:]})
        if os.path.exists(out):
            if rc in (0, 3):
                with open(out, encoding='utf-8', errors='replace') as fh:
                    for line in fh:
                        parts = line.rstrip('\n').split('\t', 2)
                        if kind == 'stale' and any(e.replace('Balau/', '/', 1) + '"' in line and re.search(r'"file":"[^"]*%s"' % re.escape(e.replace('Balau/', '/', 1)), line) for e in EDITED):
                            continue
                        if len(parts) == 3 and parts[0] != 'I' and parts[1] not in kinds[parts[0]]:
                            kinds[parts[0]][parts[1]] = parts[2]
            os.remove(out)
    os.rmdir(tmp)
    res = {'units': units, 'extract_s': time.time() - t0}
    for k, name in (('F', 'functions'), ('C', 'classes'), ('E', 'enums'), ('G', 'globals'), ('D', 'patterns'), ('X', 'erroneous')):
        res[name] = {i: json.loads(v) for i, v in kinds[k].items()}
    os.makedirs(cdir, exist_ok=True)
    for old in glob.glob(cdir + '/*.pkl'):
        try:
            if time.time() - os.path.getmtime(old) > 6 * 3600 or len(glob.glob(cdir + '/*.pkl')) > 6:
                os.remove(old)
        except OSError:
            pass
    t = cfile + '.%d' % os.getpid()
    with open(t, 'wb') as fh:
        pickle.dump(res, fh, protocol=4)
    os.rename(t, cfile)
    return res


if __name__ == '__main__':
    t = time.time()
    d = load()
    print({k: len(v) if hasattr(v, '__len__') else v for k, v in d.items()}, time.time() - t)
    for u in d['units']:
        if not u['ok']:
            print(u['rc'], u['kind'], u['file'], u['err'][:600])
