#!/usr/bin/env python3
"""plant.py <id>...: confirms planted bugs: applies, builds, passes the stable tests, demo fails with it and passes without it.
Works in a private mount namespace with a copy of /repo in its place.  plant.py --new <id> <property> <file> reads OLD\\n====\\nNEW from stdin."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def new(a):
    i, prop, f = a; old, n = sys.stdin.read().split('\n====\n'); n = n.rstrip('\n'); s = open('/repo/' + f).read()
    assert s.count(old) == 1, (i, s.count(old)); d = V + '/seeded/' + i; os.makedirs(d, exist_ok=True); t = tempfile.mkdtemp(); os.makedirs(t + '/a/' + os.path.dirname(f)); os.makedirs(t + '/b/' + os.path.dirname(f))
    open(t + '/a/' + f, 'w').write(s); open(t + '/b/' + f, 'w').write(s.replace(old, n)); p = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write('diff --git a/%s b/%s\n' % (f, f) + p); shutil.rmtree(t)
    for x in ('demo.sh', 'demo.h'):
        if not os.path.exists(d + '/' + x): shutil.copy(V + '/tools/demo/' + x, d)
def confirm(i):
    d = V + '/seeded/' + i; w = tempfile.mkdtemp(prefix='plant-'); subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True); os.makedirs(w + '/pm/pm1/tables'); log = open('/tmp/plant-%s.log' % i, 'w')
    def ns(cmd): return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo; mount --bind %s/pm /mnt/pmem; cd /repo; %s' % (w, w, cmd)], stdout=log, stderr=log).returncode
    try:
        r = {}
        # the demo runs without the patch and the header files of /verif
        dd = w + '/demo'; shutil.copytree(d, dd); [os.remove(dd + '/' + x) for x in os.listdir(dd) if x.endswith(('.diff', '.json'))]
        r['demo clean'] = ns('timeout 300 bash %s/demo.sh' % dd)
        r['apply'] = ns('git apply %s/patch.diff' % d); r['build'] = ns('bash /opt/vp/build.sh')
        r['demo bug'] = ns('timeout 300 bash %s/demo.sh' % dd)
        if '--notest' not in sys.argv:
            ns('bash /opt/vp/test.sh %s/t.json' % w); t = json.load(open(w + '/t.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r['failed tests'] = len(st - set(t['passed']))
        ok = r['demo clean'] == 0 and r['apply'] == 0 and r['build'] == 0 and r['demo bug'] != 0 and r.get('failed tests', 0) == 0
        print(i, 'CONFIRMED' if ok else 'NOT CONFIRMED', r, flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
if sys.argv[1] == '--new': new(sys.argv[2:5])
else: [confirm(i) for i in sys.argv[1:] if not i.startswith('--')]
