#!/usr/bin/env python3
"""mkseed.py DEF.py: make /verif/seeded/<id> from a definition and confirm it (builds, passes the tests, demo fails
with it and passes without).  DEF defines: id, prop, edits=[(file, old, new)], needs, breaks, and either
config+script (+expect) for the engine driver or demo (shell text) + files={name: text}."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENGINE_DEMO = '''#!/bin/bash
# Drives the real engine with one scripted sequence and compares what reaches the virtual device.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
src=$PWD/src
gcc -w -D_DEFAULT_SOURCE -D_GNU_SOURCE -DDATA_DIR='"/nonexistent"' -DVERSION='"v"' -DSOCKET_PATH='"/nonexistent"' -DCONFIG_DIR='"/nonexistent"' \\
	-iquote "$src" -o "$work/sim" "$here/sim.c" "$src"/{keyboard,config,macro,keys,unicode,string,log,ini}.c || exit 2
got=$(timeout 60 "$work/sim" "$here/demo.conf" %s 2>/dev/null); rc=$?
echo "$got"
[ $rc -eq 0 ] && [ "$got" = "$(cat "$here/expected")" ]
'''


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh('git -C /repo checkout -- .')


def build():
    return sh('bash /opt/vp/build.sh').returncode == 0


def demo(d):
    """runs from a copy elsewhere, as the final check does"""
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + '/x')
    r = sh('bash %s/x/demo.sh' % t, cwd=REPO, timeout=300)
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main(defn):
    g = {}
    exec(open(defn).read(), g)
    d = os.path.join(VERIF, 'seeded', g['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout, 'dirty /repo'
    for f, t in g.get('files', {}).items():
        open(os.path.join(d, f), 'w').write(t)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    try:
        build()
        if 'config' in g:
            shutil.copy(os.path.join(VERIF, 'native/sim.c'), d)
            open(d + '/demo.conf', 'w').write(g['config'])
            open(d + '/expected', 'w').write('')
            open(d + '/demo.sh', 'w').write(ENGINE_DEMO % g['script'])
            rc, out = demo(d)
            open(d + '/expected', 'w').write(out.rstrip('\n') + '\n')
            print('clean output:', out)
        else:
            open(d + '/demo.sh', 'w').write(g['demo'])
        rc, out = demo(d)
        assert rc == 0, ('demo fails on the clean tree', out)
        for f, old, new in g['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        assert build(), 'does not build'
        sh('bash /opt/vp/test.sh /tmp/kvseed.json')
        r = json.load(open('/tmp/kvseed.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        n = len(r['passed']) if isinstance(r['passed'], list) else r['passed']
        print('tests:', str(r)[:200] if not isinstance(r['passed'], list) else n, 'failed', r.get('failed'))
        rc, out = demo(d)
        print('patched output:', out, 'rc', rc)
        assert rc != 0, 'demo does not fail with the change'
        assert not r.get('failed'), 'tests fail'
    except BaseException:
        clean()
        build()
        if '-k' not in sys.argv:
            shutil.rmtree(d)
        raise
    clean()
    build()
    print('OK', g['id'])


main(sys.argv[1])
