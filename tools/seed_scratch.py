"""Runs the checks on planted bugs in scratch copies under /tmp/sc (never touches /repo).

    python3 tools/seed_scratch.py [--workers N] [id ...]

Prints one line per planted bug: caught or MISSED, the seconds, and what the check said.
"""
import sys, os, json, subprocess, pathlib, shutil, threading, queue, time
VERIF = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]; workers = 4
if args[:1] == ['--workers']: workers = int(args[1]); args = args[2:]
GROUP = {'C0': 'core', 'C1': 'core', 'C2': 'sql', 'C3': 'storage'}
LOCK = threading.Lock()

def env_of(group, w):
    flags = '' if group == 'core' else '--cfg cathlamet_verif="%s" ' % group
    return dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
                CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUST_BACKTRACE='0', RUSTFLAGS=flags + '-Awarnings',
                CARGO_TARGET_DIR=str(w / 'target' / group), VERIF_DIR=str(w), PBT_SHRINK_SECS='5')

def worker(i, q):
    w = pathlib.Path('/tmp/sc/%d' % i); w.mkdir(parents=True, exist_ok=True)
    for d in ('repo', 'harness'):
        if (w / d).exists(): shutil.rmtree(w / d)
    shutil.copytree('/repo', w / 'repo', ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copytree(VERIF / 'harness', w / 'harness', ignore=shutil.ignore_patterns('target'))
    c = w / 'harness/Cargo.toml'; c.write_text(c.read_text().replace('"/repo"', '"%s"' % (w / 'repo')))
    (w / 'replays').mkdir(exist_ok=True); (w / 'evidence').mkdir(exist_ok=True); shutil.copy(VERIF / 'known_findings.json', w)
    while True:
        try: d = q.get_nowait()
        except queue.Empty: return
        prop = json.loads((d / 'meta.json').read_text())['property']; group = GROUP[prop[:2]]
        env = env_of(group, w)
        saved = {}
        for l in (d / 'patch.diff').read_text().splitlines():
            if l.startswith('+++ b/'): saved[w / 'repo' / l[6:]] = (w / 'repo' / l[6:]).read_text()
        for f in (w / 'repo').rglob('parser.rs'): saved.setdefault(f, f.read_text())
        subprocess.run(['patch', '-p1', '-s', '-i', str(d / 'patch.diff')], cwd=w / 'repo', check=True)
        if any(str(f).endswith('.lalrpop') for f in saved):
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'cathlamet'], cwd=w / 'harness', env=env, capture_output=True)
        t0 = time.time()
        r = subprocess.run(['cargo', 'build', '--offline', '--features', group, '-j', '4'], cwd=w / 'harness', env=env, capture_output=True, text=True)
        if r.returncode: what = 'NO BUILD ' + r.stderr[-500:]
        else:
            t0 = time.time()
            r = subprocess.run([str(w / 'target' / group / 'debug/pbt'), 'run', prop, 'quick', '1'], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or '(' in l]
            what = ('caught' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED rc=%d' % r.returncode) + ' %.0fs ' % (time.time() - t0) + ' | '.join(v)[:200]
        for f, t in saved.items(): f.write_text(t)
        with LOCK: print(d.name, what, flush=True)

q = queue.Queue()
dirs = [d for s in ('seeded', 'extra_seeds') for d in sorted((VERIF / s).iterdir()) if not args or d.name in args]
for d in sorted(dirs, key=lambda d: d.name): q.put(d)
ts = [threading.Thread(target=worker, args=(i, q)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
