#!/usr/bin/env python3
"""check.py <property> [--tier=quick|thorough] [--repo=/repo] [--run=<substring>]: decides one property on the current tree.

Every run builds the harness together with the sources of the tree to LLVM bitcode and explores it with the symbolic
executor (engine/).  Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check could not decide."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(D, 'lib'))
import configs, replay
ENG = os.path.join(D, '.build', 'engine')

def ensure_engine():
    src = [os.path.join(D, 'engine', f) for f in os.listdir(os.path.join(D, 'engine')) if f.endswith(('.cpp', '.h'))]
    built = [ENG, os.path.join(D, '.build', 'instrument'), os.path.join(D, '.build', 'replay_rt.o')]
    if not all(map(os.path.exists, built)) or any(os.path.getmtime(f) > min(map(os.path.getmtime, built)) for f in src if not f.endswith(('env.cpp', 'sym.h', 'prelude.h'))):
        subprocess.run(['bash', os.path.join(D, 'setup.sh')], check=True, stdout=sys.stderr)

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); repo = '/repo'; only = None
    for a in sys.argv[2:]:
        if a.startswith('--tier='): tier = a[7:]
        if a.startswith('--repo='): repo = a[7:]
        if a.startswith('--run='): only = a[6:]
    t0 = time.time(); ensure_engine(); tmp = tempfile.mkdtemp(prefix='verif-' + pid + '-')
    try: rc = decide(pid, tier, repo, only, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, repo, only, tmp, t0):
    C = configs.CHECKS[pid]; runs = [r for r in C['runs'] if (tier == 'thorough' or r['tier'] == 'quick') and (not only or only in r['name'])]
    if tier == 'thorough': runs = [r for r in runs if not r.get('quick_only')]
    limit = 780 if tier == 'quick' else 6 * 3600; cpus = os.cpu_count() or 8
    # bitcode of every harness (with its flags), built from the current tree
    bcs = {}
    for r in runs: bcs.setdefault((r['src'],) + tuple(r['flags']), None)
    errs = []
    def build(k):
        out = os.path.join(tmp, 'h%d.bc' % (abs(hash(k)) % 10**9)); p = subprocess.run(['bash', D + '/harness/build.sh', D + '/harness/' + k[0] + '.cpp', out] + list(k[1:]), env=dict(os.environ, REPO=repo), capture_output=True, text=True)
        if p.returncode: errs.append((k, p.stderr[-3000:]))
        else: bcs[k] = out
    th = [threading.Thread(target=build, args=(k,)) for k in bcs]; [t.start() for t in th]; [t.join() for t in th]
    if errs:
        for k, e in errs: print('check: %s: harness %s does not build against this tree\n%s' % (pid, k[0], e))
        evidence(pid, tier, C, [], t0, ['harness does not build']); return 2
    # the runs, packed onto the processors
    cond = threading.Condition(); free = [cpus]; res = {}; found = [0]; known = load_known(pid)
    def one(i, r):
        want = min(r['procs'], cpus); out = os.path.join(tmp, 'r%d.json' % i)
        if found[0] and time.time() > found[0] + 40: res[i] = {'result': 'incomplete', 'stop': 'time limit (a violation was found)', 'violations': [], 'covers': [], 'functions': [], 'samples': [], 'inconclusive': [], 'run': r, 'bc': ''}; return
        with cond:
            cond.wait_for(lambda: free[0] >= want); free[0] -= want
        try:
            left = max(20, limit - (time.time() - t0)); tl = min(left, r['time'] if tier == 'quick' else r['time'] * 20)
            cmd = [ENG, bcs[(r['src'],) + tuple(r['flags'])], '--out=' + out, '--procs=%d' % want, '--time=%d' % tl, '--repo=' + repo.rstrip('/') + '/'] + r['opts'] + ['-D%s=%d' % kv for kv in r['D'].items()]
            errf = open(out + '.err', 'w'); p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
            end = time.time() + tl + 120
            while p.poll() is None:
                time.sleep(0.1)
                # once a violation is known, the other runs get another 45 s
                if time.time() > end or (found[0] and time.time() > found[0] + 45): os.killpg(p.pid, 9); p.wait(); raise subprocess.TimeoutExpired(cmd, tl)
            try: j = json.load(open(out))
            except Exception: j = {'result': 'error', 'stop': 'engine exit %d: %s' % (p.returncode, open(out + '.err').read()[-500:]), 'violations': [], 'covers': [], 'functions': [], 'samples': [], 'inconclusive': []}
        except subprocess.TimeoutExpired: j = {'result': 'incomplete', 'stop': 'time limit', 'violations': [], 'covers': [], 'functions': [], 'samples': [], 'inconclusive': []}
        finally:
            with cond: free[0] += want; cond.notify_all()
        if any(not match(known, r, v) for v in j['violations']) and not found[0]: found[0] = time.time()
        j['run'] = r; j['bc'] = bcs[(r['src'],) + tuple(r['flags'])]; res[i] = j
    th = [threading.Thread(target=one, args=x) for x in enumerate(runs)]; [t.start() for t in th]; [t.join() for t in th]
    results = [res[i] for i in range(len(runs))]; rc = 0; problems = []; viol = 0
    shown = set(); seen = set()
    for j in results:
        r = j['run']
        for v in j['violations']:
            key = (r['name'], v['kind'], v['msg'], v['where'])
            if key in seen: continue
            seen.add(key)
            kf = match(known, r, v)
            if kf:
                if kf[1] not in shown: print('KNOWN-FINDING: property=%s %s' % (pid, kf[1])); shown.add(kf[1])
                continue
            ok, path, log = replay.confirm(pid, r, v, j['bc'], repo, tmp)
            if ok is False:
                problems.append('a counterexample of run %s (%s at %s) does not reproduce on the native build: %s' % (r['name'], v['msg'], v['where'], log)); rc = max(rc, 2); continue
            viol += 1; print('%s in run %s: %s: %s at %s' % (pid, r['name'], v['kind'], v['msg'], v['where']))
            for k, x in v['inputs']: print('    %s = 0x%x' % (k, x))
            if len(v['schedule']) > 1: print('    schedule ' + ' '.join('T%d@%d%s' % (t % 1000, n, ' crash' if t >= 1000 else '') for t, n in v['schedule']))
            print('    ' + log); print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        if j['result'] in ('inconclusive', 'error'): problems.append('run %s: %s %s' % (r['name'], j['result'], '; '.join(j['inconclusive'][:3]) or j['stop'])); rc = max(rc, 2)
        if j['result'] == 'incomplete' and 'time' not in j['stop']: problems.append('run %s: incomplete: %s' % (r['name'], j['stop'])); rc = max(rc, 2)
        if j['result'] == 'verified':
            miss = [c for c in r['covers'] if c not in j['covers']]
            if miss: problems.append('run %s: vacuous, never reached: %s' % (r['name'], ', '.join(miss))); rc = max(rc, 2)
    if viol: rc = 1
    traces = []
    if not viol:
        for j in results:
            if j['result'] in ('verified', 'incomplete') and len(traces) < (12 if tier == 'quick' else 60): traces += replay.validate(j, repo, tmp, 2 if tier == 'quick' else 6)
        bad = [t for t in traces if t[0] is False]
        if bad: problems.append('native execution disagrees with the symbolic executor: ' + bad[0][1]); rc = max(rc, 2)
    for p in problems: print('check: %s: %s' % (pid, p))
    evidence(pid, tier, C, results, t0, problems, viol, traces, sorted(shown))
    print('check: %s: %s (%d runs, %.0f s)' % (pid, {0: 'held on everything explored', 1: 'violated', 2: 'not decided'}[rc], len(runs), time.time() - t0)); return rc

def match(known, r, v): return next((k for k in known if re.search(k[0], '%s | %s | %s | %s' % (r['name'], v['kind'], v['msg'], '; '.join(v['stack'])))), None)

def load_known(pid):
    r = []
    for l in open(os.path.join(D, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l.strip())
        if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def evidence(pid, tier, C, results, t0, problems, viol=0, traces=[], known=[]):
    s = lambda k: sum(j.get(k, 0) for j in results)
    fns = sorted(set(f for j in results for f in j['functions'])); samples = []
    for j in results:
        for x in j['samples'][:2]: samples.append('%s: %s; schedule %s' % (j['run']['name'], ' '.join('%s=0x%x' % tuple(i) for i in x['inputs']) or 'no inputs', ' '.join('T%d@%d%s' % (t % 1000, n, ' crash' if t >= 1000 else '') for t, n in x['schedule'])))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': viol,
        'assumptions': C['assumptions'],
        'coverage': {'states': int(s('states') + s('paths')), 'transitions': int(s('instructions')), 'traces_validated_against_impl': sum(1 for t in traces if t[0]), 'samples': samples[:20] or ['none'],
            'exhaustive': bool(results) and all(j['result'] == 'verified' for j in results) and not problems,
            'technique': 'symbolic execution of the compiled C++ (LLVM IR) with an SMT solver (Z3) deciding branches and assertions',
            'functions_encoded': fns, 'paths': int(s('paths')), 'scheduling_states': int(s('states')), 'pruned_states': int(s('pruned')), 'crash_states': int(s('crash_states')), 'assertions_evaluated': int(s('asserts')), 'assertion_queries': int(s('assert_queries')),
            'solver_queries': int(s('queries')), 'solver_sat': int(s('sat')), 'solver_unsat': int(s('unsat')), 'solver_unknown': int(s('unknown')), 'solver_seconds': round(s('solver_s'), 2),
            'bounds': [{'run': j['run']['name'], 'harness': j['run']['src'], 'flags': j['run']['flags'], 'options': j['run']['opts'], 'parameters': j['run']['D'], 'what': j['run']['what'], 'result': j['result'], 'stop': j.get('stop', ''), 'paths': int(j.get('paths', 0)), 'states': int(j.get('states', 0)), 'queries': int(j.get('queries', 0)), 'solver_s': round(j.get('solver_s', 0), 2), 'wall_s': round(j.get('wall', 0), 2), 'reached': j['covers']} for j in results],
            'outside_the_bounds': C['outside'], 'problems': problems, 'known_findings_met': known}}
    os.makedirs(os.path.join(D, 'evidence'), exist_ok=True)
    with open(os.path.join(D, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
main()
