"""Search for a concrete failing input on the real code (used only to replay a refuted obligation, and in the
thorough tier as an independent cross-check).  The proofs never depend on it."""
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KV_REPO', '/repo')
COMMON = ['-g', '-w', '-D_DEFAULT_SOURCE', '-D_GNU_SOURCE', '-DVERSION="v"', '-DSOCKET_PATH="/nonexistent/s"', '-DCONFIG_DIR="/nonexistent/c"', '-iquote', REPO + '/src']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')


def build(src, repo_sources, exe, datadir, san=True):
    cmd = ['gcc', '-O1'] + (['-fsanitize=address,undefined', '-fno-sanitize=alignment,shift,signed-integer-overflow', '-fno-sanitize-recover=undefined'] if san else []) + COMMON + [
        '-DDATA_DIR="%s"' % datadir, '-o', exe, os.path.join(VERIF, 'native', src)] + [os.path.join(REPO, 'src', x) for x in repo_sources] + ['-lpthread', '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def crashed(rc):
    return rc not in (0, 3, 8, 9) and rc != 124


def run(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=ENV)
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('latin1'), ''


ENGINE_SRC = ['keyboard.c', 'config.c', 'macro.c', 'keys.c', 'unicode.c', 'string.c', 'log.c', 'ini.c']


def engine(prop, cfg, seed, budget, d):
    want = cfg.get('want', prop)
    crash = cfg.get('crash', 'assert')      # which aborts count: 'assert' (an assertion of the engine) or 'any'
    exes = []
    for san in (True, False):
        ok, err = build('engine_fuzz.c', ENGINE_SRC, d + '/fuzz%d' % san, d, san)
        if not ok:
            return None, {'native_build': err[:300]}
        exes.append(d + '/fuzz%d' % san)
    n = max(2, min(8, os.cpu_count() or 2))
    procs = []
    for i in range(n):
        w = '%s/w%d' % (d, i)
        os.mkdir(w)
        e = exes[0] if (crash == 'any' and i % 2 == 0) or i == 0 else exes[1]
        procs.append((subprocess.Popen([e, 'search', str(seed * 1000 + i), str(budget), w, want], stdout=open(w + '/out', 'wb'), stderr=subprocess.DEVNULL, env=ENV), w, e))
    hit = None
    end = time.time() + budget + 20
    left = list(procs)
    stats = ''
    while left and not hit and time.time() < end:
        time.sleep(0.2)
        for x in list(left):
            rc = x[0].poll()
            if rc is None:
                continue
            left.remove(x)
            if rc == 0:
                continue
            hit = accept(x[2], x[1] + '/cfg', x[1] + '/script', want, crash)
            if hit:
                hit = (x, hit)
                break
    for x in procs:
        if x[0].poll() is None:
            x[0].kill()
        x[0].wait()
    info = {'native_search_s': budget, 'native_workers': n, 'native_seed': seed}
    if not hit:
        return None, info
    (_, w, e), msg = hit
    cfgt, scr, msg = shrink(e, w, want, crash, msg)
    return 'configuration:\n%s\nevents (+press -release @ms):\n  %s\n%s' % (cfgt, scr, msg), info


def unit(prop, cfg, seed, budget, d):
    """a driver of its own (native/<src>): EXE SEED SECONDS PROPERTY"""
    exe = d + '/u'
    ok, err = build(cfg['src'], cfg.get('sources', ()), exe, d)
    if not ok:
        return None, {'native_build': err[:300]}
    n = cfg.get('workers', 4)
    budget = min(budget, cfg.get('budget', 20))
    procs = [(subprocess.Popen([exe, str(seed * 100 + i), str(budget), prop], cwd=d, stdout=open('%s/o%d' % (d, i), 'wb'), stderr=open('%s/e%d' % (d, i), 'wb'), env=ENV), i) for i in range(n)]
    info = {'native_search_s': budget, 'native_workers': n, 'native_seed': seed}
    end = time.time() + budget + 20
    hit = None
    left = list(procs)
    while left and not hit and time.time() < end:
        time.sleep(0.1)
        for x in list(left):
            rc = x[0].poll()
            if rc is None:
                continue
            left.remove(x)
            out = open('%s/o%d' % (d, x[1]), encoding='latin1').read()
            errt = open('%s/e%d' % (d, x[1]), encoding='latin1').read()
            m = re.search(r'VIOLATES (\w+)', out)
            if rc == 3 and m:
                hit = 'seed %d\n%s' % (seed * 100 + x[1], out[-3000:])
            elif rc not in (0, 3) and cfg.get('crash', True):
                hit = 'seed %d: crash (%d)\n%s\n%s' % (seed * 100 + x[1], rc, out[-500:], errt[:2500])
    for x in procs:
        if x[0].poll() is None:
            x[0].kill()
        x[0].wait()
    if not hit and left and cfg.get('hang'):
        hit = 'does not terminate (seed %d)' % (seed * 100 + left[0][1])
    return hit, info


def accept(exe, cfg, script, want, crash):
    rc, out, err = run([exe, 'replay', cfg, script, want], 20)
    m = re.search(r'VIOLATES (\w+)', out)
    if rc == 3 and m:
        return out[-3000:]
    if crashed(rc):
        if re.search(r'Assertion', err) or (crash == 'any'):
            return (err or out)[:1500]
    if rc == 124 and crash == 'any':
        return 'does not terminate'
    return None


def shrink(exe, w, want, crash, msg):
    cfg = open(w + '/cfg', encoding='latin1').read().split('\n')
    scr = open(w + '/script', encoding='latin1').read().split()
    end = time.time() + 40

    def attempt(c, s):
        open(w + '/c2', 'w', encoding='latin1').write('\n'.join(c))
        open(w + '/s2', 'w', encoding='latin1').write(' '.join(s))
        return accept(exe, w + '/c2', w + '/s2', want, crash)
    for lst in (0, 1, 0):
        size = len((scr, cfg)[lst]) // 2 or 1
        while size >= 1:
            i = 0
            while i < len((scr, cfg)[lst]) and time.time() < end:
                cur = (scr, cfg)[lst]
                cand = cur[:i] + cur[i + size:]
                m = attempt(*((cfg, cand) if lst == 0 else (cand, scr)))
                if m:
                    msg = m
                    if lst == 0:
                        scr = cand
                    else:
                        cfg = cand
                else:
                    i += size
            size //= 2
    return '\n'.join('  ' + x for x in cfg), ' '.join(scr), msg


def search(prop, cfg, fails, seed, budget):
    if isinstance(cfg, list):
        infos = []
        for c in cfg:
            hit, info = search(prop, c, fails, seed, budget // len(cfg))
            infos.append(info)
            if hit:
                break
        return hit, infos
    d = tempfile.mkdtemp(prefix='kvn')
    try:
        return globals()[cfg['kind']](prop, cfg, seed, budget, d)
    except Exception as e:  # the search is an aid: it must never decide anything by failing
        return None, {'native_error': repr(e)[:300]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import sys
    a, b = search(sys.argv[1], dict(kind='engine', want=sys.argv[2], crash=sys.argv[3]), [], int(sys.argv[4]), int(sys.argv[5]))
    print(a)
    print(b)
