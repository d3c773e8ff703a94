#!/usr/bin/env python3
'''Makes and tries planted bugs (never used by a check).

  seedtool.py make SPEC.py        SPEC defines ID PROPERTY EDITS=[(file, old, new)] DEMO NEEDS BREAKS; writes seeded/ID and tries it
  seedtool.py try ID [ID ...]     tries existing ones: stable tests, demo without and with the patch, the property's quick check

Everything runs in scratch copies of /repo and /verif under /tmp, which are removed afterwards.'''
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour described in meta.json is right
D=$(cd "$(dirname "$0")" && pwd)
unset CLASSPATH
export JYTHONPATH=%s/opt/bgsite:$PWD
exec /opt/jy/jy -B "$D/demo.py" < /dev/null
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    d = os.path.join(SEEDED, ns['ID'])
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        sh('git -C /repo worktree prune; git clone -q /repo %s/r' % t)
        for f, old, new in ns['EDITS']:
            p = os.path.join(t, 'r', f)
            s = open(p, encoding='latin-1', newline='').read()
            assert s.count(old) == 1, '%s: %d times %r' % (f, s.count(old), old)
            open(p, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w', encoding='latin-1', newline='').write(
            subprocess.run(['git', '-C', t + '/r', 'diff'], stdout=subprocess.PIPE).stdout.decode('latin-1'))
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'])
    if ns.get('STUBS'):
        for fn, text in ns['STUBS'].items():
            os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
            open(os.path.join(d, fn), 'w').write(text)
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(DEMO_SH % ('$D:' if ns.get('STUBS') else ''))
    os.chmod(p, 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return ns['ID']


def tests(repo, t):
    out = os.path.join(t, 'o.json')
    sh('cd %s && find bglib -name "*\\$py.class" -delete; JYTHONPATH=/opt/bgsite:%s /opt/jy/jy -B -c "import nose; nose.main()" --with-xunit --xunit-file=%s/nose.xml bglib < /dev/null; '
       '/usr/bin/python3 /opt/vp/results.py %s junit:%s/nose.xml' % (repo, repo, t, out, t), timeout=800)
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - set(json.load(open(out))['passed']))


def attempt(ID):
    d = os.path.join(SEEDED, ID)
    meta = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        sh('cp -a /repo %s/r; mkdir %s/v; cp -a %s/checks %s/lib %s/tools %s/known_findings.jsonl %s/MANIFEST.json %s/v/; mkdir %s/v/evidence %s/v/replays' % (t, t, VERIF, VERIF, VERIF, VERIF, VERIF, t, t, t))
        sh('cp -a %s %s/seed; rm -f %s/seed/*.diff %s/seed/meta.json' % (d, t, t, t))
        clean = sh('cd %s/r && bash %s/seed/demo.sh' % (t, t), timeout=300)
        a = sh('git -C %s/r apply %s/patch.diff' % (t, d))
        if a.returncode:
            return ID, 'DOES NOT APPLY ' + a.stdout
        miss = tests(t + '/r', t)
        bad = sh('cd %s/r && bash %s/seed/demo.sh' % (t, t), timeout=300)
        ck = sh('cd %s/v && VF_REPO=%s/r VERIF_SEED=%s VERIF_TIER=quick python3-vt checks/run.py %s' % (t, t, os.environ.get('VERIF_SEED', '1'), meta['property']), timeout=900)
        caught = ck.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in ck.stdout
        msg = []
        if clean.returncode: msg.append('DEMO FAILS CLEAN: ' + clean.stdout[-600:])
        if not bad.returncode: msg.append('DEMO PASSES WITH PATCH: ' + bad.stdout[-600:])
        if miss: msg.append('TESTS FAIL: %s' % miss)
        msg.append('caught' if caught else 'MISSED rc=%s %s' % (ck.returncode, ck.stdout[-500:]))
        return ID, ' | '.join(msg) + ' || demo: ' + bad.stdout.strip()[-160:]
    finally:
        shutil.rmtree(t)


def main():
    if sys.argv[1] == 'make':
        ids = [make(s) for s in sys.argv[2:]]
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for ID, r in ex.map(attempt, ids):
            print(ID, r, flush=True)


if __name__ == '__main__':
    main()
