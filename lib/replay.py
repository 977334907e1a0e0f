"""Native replay: the explored path (inputs, schedule, crash point) is run again on machine code compiled from the same
bitcode, with an address (or thread) sanitizer; engine/instrument.cpp and engine/replay_rt.cpp are its two halves."""
import json, os, shutil, subprocess, threading
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = os.path.join(D, '.build')
lock = threading.Lock(); built = {}

def native(bc, san, tmp):
    with lock:
        if (bc, san) in built: return built[bc, san]
        x = '%s.%s' % (bc, san); fl = ['-fsanitize=' + san] if san else []
        try:
            subprocess.run([B + '/instrument', bc, x + '.bc', san], check=True, capture_output=True, timeout=120)
            subprocess.run(['clang++-18', '-O1', '-g', '-fno-pie', '-c', '-w'] + fl + ['-x', 'ir', x + '.bc', '-o', x + '.o'], check=True, capture_output=True, timeout=300)
            subprocess.run(['clang++-18', '-no-pie'] + fl + [x + '.o', B + '/replay_rt.o', '-lpthread', '-o', x], check=True, capture_output=True, timeout=120)
        except subprocess.CalledProcessError as e: built[bc, san] = (None, e.stderr.decode(errors='replace')[-1500:])
        except subprocess.TimeoutExpired: built[bc, san] = (None, 'the native build took too long')
        else: built[bc, san] = (x, '')
        return built[bc, san]

def trace(run, v, path):
    with open(path, 'w') as f:
        for k, x in run['D'].items(): f.write('config %s %x\n' % (k, x))
        for k, x in v['inputs']: f.write('input %x %s\n' % (x, k))
        for t, n in v['schedule']: f.write('sched %d %d\n' % (t, n))
        f.write('maxcrash %d\n' % next((int(o.split('=')[1]) for o in run['opts'] if o.startswith('--crashes=')), 1))
        for c in v['crash_events']: f.write('crash %d\n' % c)
        for a, x in v['picks']: f.write('pick %x %x\n' % (a, x))

def execute(exe, tr):
    """Returns (verdict, text): violation / ended / diverged / error."""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:handle_sigill=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=44',
        TSAN_OPTIONS='halt_on_error=1:exitcode=66:handle_segv=0:report_bugs=1:report_signal_unsafe=0')
    rd, wr = os.pipe()
    try:
        p = subprocess.Popen([exe, tr, str(wr)], pass_fds=[wr], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=os.path.dirname(tr)); os.close(wr)
        try: err = p.communicate(timeout=120)[1].decode(errors='replace')
        except subprocess.TimeoutExpired: p.kill(); p.communicate(); return 'violation', 'the native run does not end'
        out = os.fdopen(rd).read()
    finally:
        for f in (tr + '.state',):
            if os.path.exists(f): os.unlink(f)
    for l in err.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer: data race' in l: return 'violation', l.strip()
    for l in out.splitlines():
        if l.startswith('VIOLATION'): return 'violation', l[10:]
    for l in out.splitlines():
        if l.startswith('DIVERGED'): return 'diverged', l[9:]
    for l in out.splitlines():
        if l.startswith('END'): return 'ended', l[4:]
    return 'error', 'exit %d; %s %s' % (p.returncode, out[-300:], err[-600:])

def confirm(pid, run, v, bc, repo, tmp):
    """(reproduced, replay file, text); reproduced is None when the native build cannot show this kind of failure."""
    os.makedirs(D + '/replay', exist_ok=True); n = 0
    while os.path.exists('%s/replay/%s-%d.json' % (D, pid, n)): n += 1
    path = '%s/replay/%s-%d.json' % (D, pid, n); ok, log = None, 'not replayed'
    if v['kind'] not in ('misuse', 'unreachable'):
        exe, why = native(bc, 'thread' if v['kind'] == 'race' else 'address', tmp)
        if not exe: log = 'not replayed: the native build failed: ' + why
        else:
            tr = os.path.join(tmp, 'replay-%s-%d.trace' % (pid, n)); trace(run, v, tr); k, text = execute(exe, tr)
            if k == 'violation': ok, log = True, 'reproduced by the native build: ' + text
            else: ok, log = False, 'native build: %s: %s' % (k, text)
    with open(path, 'w') as f: json.dump(dict(property=pid, run=run, violation=v, native=log), f, indent=1)
    return ok, path, log

def validate(j, repo, tmp, n):
    """Runs some explored paths that held on the native build: it must behave as the symbolic executor said."""
    r = []; S = sorted(j['samples'], key=lambda s: (-len(s['schedule']) - 4 * len(s['crash_events']), json.dumps(s)))
    S = S[:: max(1, len(S) // n)][:n] if S else []
    for i, s in enumerate(S):
        exe, why = native(j['bc'], 'address', tmp)
        if not exe: return [(None, 'native build failed: ' + why)]
        tr = os.path.join(tmp, 'sample-%s-%d.trace' % (j['run']['name'], i)); trace(j['run'], s, tr); k, text = execute(exe, tr)
        good = k == 'ended' and text == s['msg']
        r.append((good, 'run %s: expected %s, got %s %s' % (j['run']['name'], s['msg'], k, text)))
        if not good and os.environ.get('VERIF_KEEP'): shutil.copy(tr, os.environ['VERIF_KEEP']); shutil.copy(exe, os.environ['VERIF_KEEP'])
    return r
