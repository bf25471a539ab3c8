"""python3 tool/seed/mk.py FILE...: each FILE defines SEEDS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)].
Confirms each in the scratch copy /tmp/sr (build and test scripts of it in /tmp/srt) and keeps it under /verif/seeded."""
import subprocess, os, sys, json, shutil, importlib.util
SR, OUT = '/tmp/sr', '/verif/seeded'
H = os.path.dirname(os.path.abspath(__file__))


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def sync():
    sh("rsync -a --delete --exclude _build --exclude .git /repo/ /tmp/sr/; cd /tmp/sr && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def passed():
    r = sh('bash /tmp/srt/test.sh /tmp/srt/o.json')
    a = json.load(open('/tmp/srt/o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(b['stable']) - set(a['passed']))


def demo(d): return sh('bash %s/demo.sh' % d, cwd=SR)


seeds = []
for fn in sys.argv[1:]:
    s = importlib.util.spec_from_file_location('x', fn); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    seeds += m.SEEDS
sync()
ok = []
for s in seeds:
    sh('git checkout -q -- .', cwd=SR)
    d = '/tmp/srt/seed_' + s['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for p, a, b in s['edits']:
            t = open(os.path.join(SR, p)).read()
            n = s.get('count', 1)
            assert t.count(a) == n, '%s: %d occurrences' % (p, t.count(a))
            open(os.path.join(SR, p), 'w').write(t.replace(a, b))
    except AssertionError as e:
        print(s['id'], 'EDIT', e); continue
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=SR).stdout)
    shutil.copy(H + '/demo.sh', d + '/demo.sh')
    if s.get('flags'):
        t = open(d + '/demo.sh').read().replace('${DEMO_FLAGS:-}', s['flags']); open(d + '/demo.sh', 'w').write(t)
    open(d + '/demo.cc', 'w').write(s['demo'])
    if 'poly.hh' in s['demo']: shutil.copy(H + '/poly.hh', d + '/poly.hh')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    miss = passed()
    if miss: print(s['id'], 'TESTS FAIL', miss[:3], open('/tmp/srt/t.log').read()[-300:] if False else ''); continue
    r = demo(d)
    if r.returncode in (0, 3): print(s['id'], 'DEMO', r.returncode, r.stdout[-300:], r.stderr[-600:]); continue
    print(s['id'], 'with the change:', r.returncode, r.stdout.strip()[-150:])
    c = sh('JALI_REPO=/tmp/sr python3 /verif/run.py %s' % s['prop'])
    print('    check %s: rc %d' % (s['prop'], c.returncode), '\n       '.join([''] + c.stdout.strip().split('\n')[1:5])[:700])
    ok.append((s, d))
sh('git checkout -q -- .', cwd=SR)
b = sh('bash /tmp/srt/build.sh')
for s, d in ok:
    r = demo(d)
    if r.returncode != 0: print(s['id'], 'DEMO FAILS ON THE CLEAN TREE', r.returncode, r.stdout[-300:], r.stderr[-500:]); continue
    shutil.rmtree(OUT + '/' + s['id'], ignore_errors=True); shutil.copytree(d, OUT + '/' + s['id'])
    print(s['id'], 'kept')
