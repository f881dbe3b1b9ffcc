#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property (exit 0 held, 1 violated, 2 the check itself failed)
check.py replay <file>                  replays a recorded violation
check.py setup                          builds everything
check.py bench <property> <tier>        runs all jobs and shows the time of each"""
import functools, hashlib, json, os, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
MC = os.environ.get('MC_DIR', os.path.join(V, 'mc'))
TARGET = os.environ.get('MC_TARGET', os.path.join(V, 'target'))
TRIPLE = 'x86_64-unknown-linux-gnu'
FEAT = {'a': 'alloc', 'v': 'vmem', 'n': ''}
CRASH = ('panic',)

@functools.cache
def src_hash():
    h = hashlib.sha256()
    def add(p):
        h.update(p.encode()); h.update(b'\0'); h.update(open(p, 'rb').read())
    for top in (REPO + '/src', MC + '/src', MC + '/core', MC + '/inst'):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs): add(os.path.join(d, f))
    for p in (REPO + '/Cargo.toml', REPO + '/build.rs', MC + '/Cargo.toml', MC + '/Cargo.lock', MC + '/build.rs', MC + '/build.sh'):
        if os.path.exists(p): add(p)
    return h.hexdigest()[:16]

def tdir(b): return os.path.join(TARGET, f'{b}-{src_hash()}')

def build(need):
    """need: {build: set of bins}; returns False and prints the compiler's words if it fails"""
    os.makedirs(TARGET, exist_ok=True)
    hs = src_hash()
    for d in os.listdir(TARGET):
        if not d.endswith(hs): shutil.rmtree(os.path.join(TARGET, d), ignore_errors=True)
    ps = []
    for b, bins in sorted(need.items()):
        log = open(os.path.join(TARGET, f'{b}-{hs}.log'), 'w+')
        ps.append((b, log, subprocess.Popen([os.path.join(MC, 'build.sh'), os.path.join(TARGET, f'{b}-{hs}'), FEAT[b]] + sorted(bins), stdout=log, stderr=subprocess.STDOUT)))
    ok = True
    for b, log, p in ps:
        if p.wait() != 0:
            ok = False
            log.seek(0); print(f'build {b} failed:\n' + log.read()[-6000:])
    return ok

class Job:
    def __init__(s, eng, b, args, mask=None, cap=None):
        s.eng, s.b, s.args, s.mask, s.cap = eng, b, args, mask, cap
        s.out = None; s.res = None; s.rc = None; s.t = 0.0
    def bin(s): return os.path.join(tdir(s.b), TRIPLE, 'release', s.eng)
    def argv(s):
        a = s.args.split()
        if s.mask and s.eng != 'types': a.append('mask=' + ','.join(s.mask))
        if s.cap and s.eng in ('seq', 'conc'): a.append(f'secs={s.cap}')
        return a
    def key(s): return ' '.join([s.eng, s.b] + [x for x in s.args.split() if x.split('=')[0] not in ('max', 'taint', 'known')])
    def name(s): return f'{s.eng}[{ {"a": "alloc", "v": "vmem", "n": "no_std"}[s.b] }] {s.args}'

class Runner:
    def __init__(s, jobs, bindirs, deadline, stop_on_viol=True):
        try: cost = json.load(open(os.path.join(V, 'costs.json')))   # seconds measured by "bench": the long ones start first
        except (OSError, ValueError): cost = {}
        s.q = sorted(jobs, key=lambda j: -cost.get(j.key(), 3)); s.bd = bindirs; s.deadline = deadline; s.lock = threading.Lock(); s.procs = set(); s.stop = False; s.failed = None; s.sov = stop_on_viol
    def worker(s):
        try: s.work()
        except Exception as e: s.failed = f'{type(e).__name__}: {e}'
    def work(s):
        while True:
            with s.lock:
                if s.stop or not s.q: return
                j = s.q.pop(0)
                if time.time() > s.deadline: j.res = {'skipped': True}; continue
                exe = os.path.join(s.bd[j.b], TRIPLE, 'release', j.eng)
                t0 = time.time()
                p = subprocess.Popen([exe] + j.argv(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
                s.procs.add(p)
            try: out = p.communicate(timeout=max(20, s.deadline - time.time() + 60))[0]
            except subprocess.TimeoutExpired:
                p.kill(); out = p.communicate()[0]; j.timeout = True
            with s.lock:
                s.procs.discard(p)
                j.t = time.time() - t0; j.rc = p.returncode; j.out = out
                if s.stop and j.rc in (-9, -15): j.res = {'skipped': True}; continue
                parse(j)
                if s.sov and (j.res.get('viol') or j.res.get('crash')): 
                    s.stop = True
                    for q in s.procs: q.kill()
    def run(s):
        ts = [threading.Thread(target=s.worker) for _ in range(min(8, max(1, len(s.q))))]
        for t in ts: t.start()
        for t in ts: t.join()

def parse(j):
    lines = (j.out or '').strip().splitlines()
    j.res = {}
    for l in reversed(lines):
        if l.startswith('{'):
            try: j.res = json.loads(l); break
            except ValueError: pass
        if l.startswith('CRASH'):
            f = l.split()
            j.res = {'crash': f[1], 'incall': f[2] == 'incall=1', 'path': ' '.join(f[3:])}
            break
    if j.eng == 'types' and j.res.get('viol'):
        j.res['path'], j.res['msg'] = j.res['viol'][0][0], j.res['viol'][0][1]; j.res['kinds'] = 'sendability'; j.res['nviol'] = len(j.res['viol'])
    if j.rc not in (0, 77, 78, 79) and not j.res.get('crash'): j.res.setdefault('error', f'exit {j.rc}: {(j.out or "")[-300:]}')
    if not j.res: j.res = {'error': 'no output'}

def replay_argv(j, path):
    if j.eng == 'types': return [path]
    if j.eng == 'ring': return j.argv() + ['only=' + path]
    return j.argv() + ['path=' + path]

def confirm(j, bd):
    """runs the violating history again from scratch; returns (confirmed, text)"""
    exe = os.path.join(bd[j.b], TRIPLE, 'release', j.eng)
    argv = replay_argv(j, j.res.get('path', ''))
    txt = ''
    for _ in range(2):
        try: r = subprocess.run([exe] + argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
        except subprocess.TimeoutExpired: return True, 'replay does not return'
        txt = r.stdout
        if r.returncode in (1, 77, 78, 79): return True, txt
    # not reproducible alone: explore the same configuration again
    k = Job(j.eng, j.b, j.args, j.mask, j.cap)
    try: r = subprocess.run([exe] + k.argv(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=300)
    except subprocess.TimeoutExpired: return False, txt
    k.out, k.rc = r.stdout, r.returncode
    parse(k)
    if k.res.get('viol') or k.res.get('crash'): return True, txt + '\n(whole configuration explored twice, violation found both times)'
    return False, txt

def findings(pid):
    r = []
    for l in open(os.path.join(V, 'known-findings.txt')):
        if l.startswith('finding:') and f'property={pid} ' in l:
            w = dict(x.split('=', 1) for x in l.split()[1:4])
            r.append((w['op'], w['kinds'], l.split(None, 4)[4].strip()))
    return r

def check(pid, tier, bench=False):
    import props
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs, note, assume = props.jobs(pid, tier)
    need = {}
    for j in jobs: need.setdefault(j.b, set()).add(j.eng)
    if not build(need): print('check error: the harness does not build'); return 2
    tb = time.time() - t0
    bd = {b: tdir(b) for b in need}
    known = findings(pid)
    for j in jobs:
        if j.eng == 'seq' and known: j.args += ' known=' + ','.join(f'{o}:{k}' for o, k, _ in known)
    run = Runner(jobs, bd, t0 + (600 if tier == 'quick' else 780), not bench)
    run.run()
    if bench:
        cf = os.path.join(V, 'costs.json')
        try: cost = json.load(open(cf))
        except (OSError, ValueError): cost = {}
        cost.update({j.key(): round(j.t, 1) for j in jobs if j.res and not j.res.get('skipped')})
        json.dump(dict(sorted((k, v) for k, v in cost.items() if v >= 0)), open(cf, 'w'), indent=0)
        for j in sorted(jobs, key=lambda j: -j.t): print(f'{j.t:7.1f}s {"ok " if j.res.get("complete", True) else "cap"} states={j.res.get("states", j.res.get("types"))} {j.res.get("othernames") or j.res.get("kinds") or ""} {j.name()} {j.res.get("error", "")} {("VIOL " + str(j.res.get("text", "")) + str(j.res.get("msg"))) if j.res.get("viol") or j.res.get("crash") else ""}')
        print(f'build {tb:.1f}s total {time.time() - t0:.1f}s')
        return 0
    bad = [j for j in jobs if j.res and (j.res.get('viol') or j.res.get('crash'))]
    err = [j for j in jobs if j.res and (j.res.get('error') or j.res.get('mismatch'))]
    for j in jobs:   # a configuration without an answer is not an answer
        if not j.res and not run.stop: j.res = {'error': run.failed or 'not run'}; err.append(j)
    rc = 0
    nviol = 0
    for j in bad:
        ok, txt = confirm(j, bd)
        if not ok:
            print(f'not reproducible, not reported: {j.name()} {j.res}'); err.append(j); continue
        nviol += 1
        if nviol > 1: continue
        os.makedirs(os.path.join(V, 'work', 'replay'), exist_ok=True)
        p = os.path.join(V, 'work', 'replay', f'{pid}.json')
        what = j.res.get('msg') or (f'the crate {"does not return" if j.res.get("crash") == "hang" else "crashes (" + j.res["crash"] + ")"}' if j.res.get('crash') else '')
        json.dump({'property': pid, 'engine': j.eng, 'build': j.b, 'args': replay_argv(j, j.res.get('path', '')), 'kinds': j.res.get('kinds', j.res.get('crash')), 'what': what, 'history': j.res.get('text', ''), 'replay_output': txt}, open(p, 'w'), indent=1)
        print(f'{j.name()}\n  kinds: {j.res.get("kinds", j.res.get("crash"))}\n  what: {what}\n  history: {j.res.get("text") or j.res.get("path")}')
        print(f'VIOLATION property={pid} replay={p}')
        rc = 1
    kn = sum(j.res.get('known', 0) for j in jobs if j.res)
    if rc == 0 and known:
        seen = [j.res['known_text'] for j in jobs if j.res and j.res.get('known')]
        for o, k, text in known:
            if seen: print(f'KNOWN-FINDING: property={pid} {text}')
    if rc == 0 and err:
        for j in err: print(f'check error: {j.name()}: {j.res.get("error") or "state reached differs when the history is replayed" }')
        rc = 2
    write_evidence(pid, tier, seed, jobs, nviol, time.time() - t0, tb, note, assume, kn)
    c = json.load(open(os.path.join(V, 'evidence', pid + '.json')))['coverage']
    print(f'{pid} {tier}: {c["states"]} states, {c["transitions"]} transitions, {len(jobs)} configurations ({c["configurations_exhausted"]} exhausted), {time.time() - t0:.0f} s -> {"held" if rc == 0 else "VIOLATED" if rc == 1 else "error"}')
    return rc

def write_evidence(pid, tier, seed, jobs, nviol, wall, tb, note, assume, kn):
    g = lambda k, e=None: sum(int(j.res.get(k) or 0) for j in jobs if j.res and (e is None or j.eng == e))
    done = [j for j in jobs if j.res and not j.res.get('skipped')]
    ex = [j for j in done if j.res.get('complete', j.eng == 'types') and not j.res.get('viol')]
    samples = []
    for j in done:
        for x in (j.res.get('samples') or [])[:2]: samples.append(f'{j.name()}: {x}')
    if len(samples) < 3: samples += [f'{j.name()}: {j.res.get("states", 0)} states' for j in done[:4]]
    cov = {
        'states': g('states') + g('types'), 'transitions': g('transitions') + g('edges'),
        'traces_validated_against_impl': g('replayed', 'seq') + g('completed', 'conc') + g('states', 'ring') + g('programs', 'types'),
        'samples': samples[:12],
        'exhaustive': len(ex) == len(jobs),
        'configurations': [{'config': j.name(), 'states': j.res.get('states', j.res.get('types', 0)), 'transitions': j.res.get('transitions', j.res.get('edges', 0)), 'exhausted': j in ex, 'depth': j.res.get('depth', 0), 'wall_s': round(j.t, 2)} for j in done],
        'configurations_exhausted': len(ex), 'configurations_not_run': len(jobs) - len(done),
        'requests_granted': g('granted'), 'requests_refused': g('refused'), 'windows_across_the_seam': g('wraps'),
        'known_finding_hits': kn, 'build_s': round(tb, 1),
        'explanation': note,
    }
    for k, e in (('executions', 'conc'), ('rf_choices', 'conc'), ('outcomes', 'conc')):
        if any(j.eng == e for j in jobs): cov['conc_' + k] = g(k, e)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': assume, 'wall_s': round(wall, 2), 'violations': nviol}, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)

def replay(path):
    d = json.load(open(path))
    if not build({d['build']: {d['engine']}}): return 2
    r = subprocess.run([os.path.join(tdir(d['build']), TRIPLE, 'release', d['engine'])] + d['args'])
    return 1 if r.returncode in (1, 77, 78, 79) else r.returncode

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup': sys.exit(0 if build({'a': {'seq', 'conc', 'ring', 'types'}, 'v': {'seq', 'conc', 'ring', 'types'}, 'n': {'seq', 'conc', 'ring', 'types'}}) else 1)
    if a[0] == 'replay': sys.exit(replay(a[1]))
    if a[0] == 'bench': sys.exit(check(a[1], a[2] if len(a) > 2 else 'quick', True))
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
