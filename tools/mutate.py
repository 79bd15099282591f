"""Mutation testing of the checks: mutates /repo's sources in scratch copies under /tmp/mut, one
place at a time, and runs the checks of the group on each mutant until one reports a violation.

    python3 tools/mutate.py GROUP FILE... [--workers N] [--limit N] [--seed N] [--scale X]

Prints the mutants that no check noticed; results go to /tmp/mut/GROUP.jsonl. Never touches /repo.
"""
import sys, os, re, json, random, subprocess, pathlib, shutil, threading, queue, time, argparse
ap = argparse.ArgumentParser()
ap.add_argument('group'); ap.add_argument('files', nargs='+')
ap.add_argument('--workers', type=int, default=4); ap.add_argument('--limit', type=int, default=10**9)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--scale', default='0.3')
ap.add_argument('--props', default=''); ap.add_argument('--lines', default='')
ap.add_argument('--ops', type=int, default=1); ap.add_argument('--skip', default=''); ap.add_argument('--all', action='store_true')
A = ap.parse_args()
VERIF = pathlib.Path(__file__).resolve().parent.parent
PROPS = {'core': ['C%02d' % i for i in range(1, 16)], 'sql': ['C2%d' % i for i in range(7)], 'storage': ['C30', 'C31', 'C32', 'C33', 'C34', 'C37']}[A.group]
if A.props: PROPS = A.props.split(',')
FIRST = {'nsm': ['C09', 'C10'], 'marshaller': ['C01', 'C02'], 'encoder': ['C04', 'C05'], 'decoder': ['C07', 'C06'],
         'tokenizer': ['C08', 'C06'], 'data_source': ['C12'], 'types': ['C11', 'C01'], 'util': ['C14'], 'schema': ['C23', 'C24'], 'typing': ['C24', 'C25', 'C26'],
         'symbols': ['C22'], 'ast': ['C25', 'C24', 'C20', 'C21'], 'parser': ['C20', 'C21']}

def order(f, line=0):
    if f.endswith('storage/mod.rs'): return ['C34', 'C32', 'C33'] if line < 700 else ['C30', 'C31', 'C37', 'C34']
    for k, v in FIRST.items():
        if k in f and set(v) & set(PROPS):
            return [p for p in v if p in PROPS] + ([p for p in PROPS if p not in v] if A.all else [])
    return PROPS

SWAPS = [(r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
         (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
         (r' & ', [' | ']), (r' \| (?!\w*\|)', [' & ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']),
         (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.rev\(\)', ['']), (r'\.reverse\(\)', ['']), (r'\bSome\((\w+)\) if ', [r'Some(\1) if !']),
         (r'cmp::max\b', ['cmp::min']), (r'cmp::min\b', ['cmp::max']), (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']),
         (r'is_empty\(\)', ['len() == 1']), (r'\ball\(', ['any(']), (r'\bany\(', ['all(']), (r'\bif !', ['if ']), (r'\bif (?!let|!)', ['if !']),
         (r'\.\.=', ['..']), (r'Ok\(\(\)\)', []), (r'break;', ['continue;']), (r'continue;', ['break;']), (r'\?;$', [';'])]

# second set: exchanged names and arguments, lists cut short or turned round, narrowed numbers, arms left out
PAIRS = [('left', 'right'), ('lower', 'upper'), ('l', 'r'), ('first', 'last'), ('min', 'max'), ('Some', 'None'), ('rows', 'columns'), ('start', 'end'),
         ('prev', 'next'), ('head', 'tail'), ('front', 'back'), ('key', 'value'), ('offset', 'size'), ('offset', 'length'), ('name', 'alias'), ('not_null', 'primary_key'),
         ('schema_name', 'table_name'), ('left_type', 'right_type'), ('is_null', 'not_null'), ('read', 'write'), ('index', 'num'), ('num_bits', 'bit_offset')]
SWAPS2 = [(r'\b%s\b' % a, [b]) for a, b in PAIRS] + [(r'\b%s\b' % b, [a]) for a, b in PAIRS] + [
          (r'\.iter\(\)', ['.iter().skip(1)', '.iter().take(1)', '.iter().take(5)', '.iter().rev()']), (r'\.iter_mut\(\)', ['.iter_mut().skip(1)', '.iter_mut().take(5)', '.iter_mut().rev()']),
          (r'\.into_iter\(\)', ['.into_iter().skip(1)', '.into_iter().take(5)']), (r'\.chars\(\)', ['.chars().take(40)']),
          (r' as usize', [' as u8 as usize', ' as u16 as usize', ' as u32 as usize']), (r' as u64', [' as u32 as u64', ' as u16 as u64']), (r' as u128', [' as u64 as u128']),
          (r'\.len\(\)', ['.len() % 256', '.len() % 65536', '.len() % 16']), (r'\(([\w.&]+), ([\w.&]+)\)', [r'(\2, \1)']), (r'\(([\w.&]+), ([\w.&]+), ([\w.&]+)\)', [r'(\2, \1, \3)', r'(\1, \3, \2)']),
          (r'\.cmp\(', ['.partial_cmp(']), (r'\bOk\(true\)', ['Ok(false)']), (r'\.push\(', ['.insert(0, ']), (r'\.is_null\b', ['.is_null && false', '.is_null || true']),
          (r'wrapping_(add|sub)', [r'saturating_\1']), (r'unwrap_or\(\w+\)', ['unwrap()']), (r'to_lowercase', ['to_ascii_lowercase']), (r'eq_ignore_ascii_case', ['eq']),
          (r' if [^=]+ =>', [' =>']), (r'^(\s*)([\w:&]+(\([^()]*\)| \{[^{}]*\})?( \| [\w:&]+(\([^()]*\)| \{[^{}]*\})?)*) => .*,\s*$', ['\n']), (r'\|\| \S.*$', ['']), (r'\b(\w+) \| ', ['']), (r'\.align\(', ['.max('])]
if A.ops == 2: SWAPS = SWAPS2
# fourth set: the arms and arguments of the second
if A.ops == 4: SWAPS = [x for x in SWAPS2 if ' => ' in x[0] or x[0].startswith(r'\(([') or '=>' in x[0] or r'\|' in x[0] or 'is_null' in x[0]] + [(r'\.iter\(\)', ['.iter().skip(1)', '.iter().rev()'])]
# third set: only what shows in long lists
if A.ops == 3: SWAPS = [(r'\.iter\(\)', ['.iter().take(5)']), (r'\.iter_mut\(\)', ['.iter_mut().take(5)']), (r'\.into_iter\(\)', ['.into_iter().take(5)']), (r'\.iter\(\)\.rev\(\)', ['.iter().rev().take(5)']),
                        (r' as usize', [' as u8 as usize']), (r'\.len\(\)', ['.len() % 16', '.len() % 256', '.len().min(9)']), (r'\.push\(', ['.insert(0, ']), (r'\bin (&?[\w.]+) \{', [r'in (\1).into_iter().take(6) {']), (r'(\w+), \|', [r'\1.take(6), |'])]

def mutants(path):
    text = (pathlib.Path('/repo') / path).read_text()
    m = re.search(r'^#\[cfg\(test\)\]|^#\[test\]|^mod tests', text, re.M)
    end = len(text)
    if m and 'util.rs' not in path: end = m.start()
    pos, out = 0, []
    lo, hi = (map(int, A.lines.split('-')) if A.lines else (1, 10**9))
    skip_test = False
    for no, line in enumerate(text.splitlines(True), 1):
        start = pos; pos += len(line)
        if start >= end: break
        if not lo <= no <= hi: continue
        if line.startswith('#[test]'): skip_test = True
        if skip_test:
            if line.startswith('}'): skip_test = False
            continue
        code = line.split('//')[0]
        s = code.strip()
        if not s or s.startswith(('#', 'use ', 'pub use', 'mod ', '*', 'pub struct', 'pub enum', 'fn ', 'pub fn', 'where', 'impl', 'trait', 'type ', 'assert!', 'debug_assert')): 
            if not s.startswith(('assert!',)): continue
        for pat, reps in SWAPS:
            for mm in re.finditer(pat, code):
                for r in reps:
                    new = code[:mm.start()] + mm.expand(r) + code[mm.end():]
                    out.append((no, start, len(code), new))
        if A.ops > 1: continue
        for mm in re.finditer(r'(?<![\w.#\'"])(\d+)(u8|u16|u32|u64|u128|usize|i64)?\b(?!\.\d)', code):
            v = int(mm.group(1))
            for n in {v + 1, v - 1} - {-1}:
                out.append((no, start, len(code), code[:mm.start(1)] + str(n) + code[mm.end(1):]))
        for mm in re.finditer(r'0x([0-9a-fA-F_]+)', code):
            v = int(mm.group(1).replace('_', ''), 16)
            for n in {v + 1, v - 1} - {-1}:
                out.append((no, start, len(code), code[:mm.start()] + hex(n) + code[mm.end():]))
        if A.ops == 1 and s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const ', 'static ', '}')) and s.count('(') == s.count(')'):
            ind = code[:len(code) - len(code.lstrip())]
            out.append((no, start, len(code), ind + '/* removed */\n'))
        if s.startswith('return ') and s.endswith(';') and s.count('(') == s.count(')'):
            ind = code[:len(code) - len(code.lstrip())]
            if False: out.append((no, start, len(code), ind + '\n'))
    res = []
    for no, start, n, new in out:
        t = text[:start] + new + text[start + n:]
        if t != text: res.append(dict(file=path, line=no, old=text[start:start + n].strip(), new=new.strip(), text=t))
    return res

def sh(cmd, timeout=None, **k):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **k)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, ''

ENV = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUST_BACKTRACE='0', RUSTFLAGS=('' if A.group == 'core' else '--cfg cathlamet_verif="%s" ' % A.group) + '-Awarnings',
           PBT_SCALE=A.scale, PBT_SHRINK_SECS='1')

def worker(i, q, log):
    w = pathlib.Path('/tmp/mut/%s%d' % (A.group, i + 10 * (A.ops - 1)))
    if not w.exists():
        w.mkdir(parents=True)
        subprocess.run(['cp', '-a', str(VERIF / 'target' / A.group), str(w / 'target')])
    sh(['rsync', '--version'])
    for d in ('repo', 'harness'):
        if (w / d).exists(): shutil.rmtree(w / d)
    shutil.copytree('/repo', w / 'repo', ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copytree(VERIF / 'harness', w / 'harness', ignore=shutil.ignore_patterns('target'))
    c = w / 'harness/Cargo.toml'; c.write_text(c.read_text().replace('"/repo"', '"%s"' % (w / 'repo')))
    (w / 'replays').mkdir(exist_ok=True); (w / 'evidence').mkdir(exist_ok=True)
    shutil.copy(VERIF / 'known_findings.json', w)
    env = dict(ENV, CARGO_TARGET_DIR=str(w / 'target'), VERIF_DIR=str(w))
    build = ['cargo', 'build', '--offline', '--features', A.group, '-j', '3']
    rc, o = sh(build, cwd=w / 'harness', env=env)
    if rc: print('worker', i, 'cannot build', o[-2000:]); return
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = w / 'repo' / m['file']
        orig = f.read_text()
        f.write_text(m['text'])
        t0 = time.time()
        rc, o = sh(build, cwd=w / 'harness', env=env, timeout=300)
        if rc: res = 'no build'
        else:
            res = 'SURVIVED'
            for p in order(m['file'], m['line']):
                rc, o = sh([str(w / 'target/debug/pbt'), 'run', p, 'quick', '1'], env=env, timeout=150)
                if rc: res = '%s rc=%d' % (p, rc); break
        f.write_text(orig)
        r = dict(file=m['file'], line=m['line'], old=m['old'], new=m['new'], res=res, secs=round(time.time() - t0, 1))
        with LOCK:
            log.write(json.dumps(r) + '\n'); log.flush()
            if res == 'SURVIVED' or (not res.endswith('rc=1') and res != 'no build'): print(json.dumps(r), flush=True)

LOCK = threading.Lock()
ms = []
for f in A.files: ms += mutants(f)
done = set()
if A.skip:
    for l in open(A.skip):
        r = json.loads(l); done.add((r['file'], r['old'], r['new']))
ms = [m for m in ms if (m['file'], m['old'], m['new']) not in done]
random.Random(A.seed).shuffle(ms)
print(len(ms), 'mutants', flush=True)
if A.workers == 0: sys.exit(0)
ms = ms[:A.limit]
q = queue.Queue()
for m in ms: q.put(m)
log = open('/tmp/mut/%s.jsonl' % A.group, 'a')
ts = [threading.Thread(target=worker, args=(i, q, log)) for i in range(A.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done')
