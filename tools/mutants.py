#!/usr/bin/env python3
"""mutants.py DIR SEED COUNT [FILE-REGEX]

Mutation campaign (development tool, not a check). Copies /repo and the harness
to DIR, makes COUNT random small changes to the sources one after the other; the
ones that compile and pass the repository's tests are given to every check (at a
reduced scale, stopping at the first that reports a violation). What no check
reports is appended, as a diff, to DIR/survivors.txt.
"""
import os, random, re, subprocess, sys, time, json
D, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rex = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
SCALE = os.environ.get('SCALE', '0.2')
env = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:/usr/local/bin:' + os.environ['PATH'],
           RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
R, H = D + '/repo', D + '/harness'
os.makedirs(D, exist_ok=True)
if not os.path.isdir(R):
    subprocess.run(['cp', '-a', '/repo', R], check=True)
subprocess.run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=R, check=True)
os.makedirs(H, exist_ok=True)
subprocess.run(f'cp -a /verif/harness/src /verif/harness/Cargo.toml {H}/; cp /verif/harness/Cargo.lock {H}/ 2>/dev/null', shell=True)
if os.path.isdir('/verif/harness/.cargo'):
    subprocess.run(['cp', '-a', '/verif/harness/.cargo', H])
t = open(H + '/Cargo.toml').read()
open(H + '/Cargo.toml', 'w').write(t.replace('"/repo"', f'"{R}"').replace('debug = 1', 'debug = 0').replace('opt-level = 3', 'opt-level = 2'))
files = []
for root, _, fs in os.walk(R + '/src'):
    for f in fs:
        p = os.path.join(root, f)
        if f.endswith('.rs') and f not in ('test.rs',) and rex.search(p[len(R):]):
            files.append(p)
files.sort()

def candidates(p):
    """line numbers of code outside of tests, comments and attributes"""
    lines = open(p).read().split('\n')
    out, skip, depth = [], None, 0
    pend = False
    for i, l in enumerate(lines):
        s = l.strip()
        if skip is None and s.startswith('#[cfg(test)]'):
            pend = True
        if pend and '{' in l and not s.startswith('#'):
            skip = depth
            pend = False
        depth += l.count('{') - l.count('}')
        if skip is not None:
            if depth <= skip:
                skip = None
            continue
        if not s or s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'pub trait', 'trait', '}', 'assert', 'debug_assert', '"')):
            continue
        if '.expect("' in s or 'panic!' in s:
            continue
        out.append(i)
    return lines, out

OPS = [
    (r'(?<![<\-=])<(?![<=\-])(?= )', '<='), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '),
    (r' << ', ' >> '), (r' >> ', ' << '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '),
    (r' & ', ' | '), (r' \| ', ' & '), (r'wrapping_add', 'wrapping_sub'), (r'wrapping_sub', 'wrapping_add'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
    (r'\?;$', '.ok();'), (r'\bif (?!let)(.*) \{$', r'if !(\1) {'), (r'\bu64\b', 'u32'), (r'\bi32\b', 'i16'), (r' as u32\b', ' as u16 as u32'),
    (r' as i32\b', ' as i16 as i32'), (r' as usize\b', ' as u8 as usize'), (r' as u64\b', ' as u16 as u64'),
    (r'\bx\b', 'y'), (r'\by\b', 'x'), (r'\bNone\b', 'Some(Default::default())'), (r'unwrap_or\(0\)', 'unwrap_or(1)'),
    (r'\.rev\(\)', ''), (r'for (\w+) in 0\.\.', r'for \1 in 1..'), (r'\.\.=', '..'),
    (r'(?<![.=])\.\.(?![.=])', '..='), (r'read_exact', 'read'), (r'write_all', 'write'), (r'break;', 'continue;'), (r'\bcontinue;', 'break;'),
    (r'\blast\b', 'next'), (r'\bupper\b', 'lower'), (r'<LittleEndian>', '<byteorder::BigEndian>'), (r'flush\(\)', 'by_ref()'),
]

def mutate(rng):
    while True:
        # every file by its size
        sizes = []
        cs = []
        for p in files:
            l, c = candidates(p)
            cs.append((p, l, c)); sizes.append(len(c))
        p, lines, c = rng.choices(cs, sizes)[0]
        i = rng.choice(c)
        l = lines[i]
        code = l.split('//')[0]
        opts = []
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)(?![\w.]*\w)(u8|u16|u32|u64|i32|usize|i64)?', code):
            v = int(m.group(1).replace('_', ''), 0)
            for w in {v + 1, v - 1, 0, v ^ 4} - {v}:
                if w >= 0:
                    opts.append(code[:m.start(1)] + str(w) + code[m.end(1):])
        for a, b in OPS:
            for m in re.finditer(a, code):
                try:
                    opts.append(code[:m.start()] + m.expand(b) + code[m.end():])
                except re.error:
                    pass
        if code.rstrip().endswith(';') and not re.match(r'\s*(let|return|const|static|pub|type)\b', code) and code.count('(') == code.count(')') and code.count('{') == code.count('}') and not re.match(r'\s*[.)}]', code):
            opts += [re.match(r'\s*', code).group(0) + '// deleted'] * 3
        if not opts:
            continue
        n = rng.choice(opts)
        if n != code:
            return p, i, lines, n

def run(cmd, cwd, to):
    try:
        r = subprocess.run(['timeout', '-k', '5', str(to), 'bash', '-c', cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return r.returncode, r.stdout
    except Exception as e:
        return 99, str(e)

ORDER = 'C02 C11 C08 C13 C04 C12 C06 C05 C15 C07 C14 C09 C16 C17 C10 C03 C01'.split()
rng = random.Random(seed)
log = open(D + '/log.txt', 'a')
done = 0
stats = {}
seen = set()
while done < count:
    if os.path.exists(D + '/stop'):
        break
    p, i, lines, n = mutate(rng)
    key = (p, i, n)
    if key in seen:
        continue
    seen.add(key)
    orig = '\n'.join(lines)
    new = lines[:]
    new[i] = n
    open(p, 'w').write('\n'.join(new))
    t0 = time.time()
    rc, o = run('cargo check --offline --features parallel', R, 200)
    if rc != 0:
        st = 'nocompile'
    else:
        rc, o = run('cargo test --lib --tests --offline --features parallel -- --test-threads 4', R, 200)
        if rc == 0:
            rc, o = run('cargo test --doc --offline --features parallel', R, 200)
        if rc != 0:
            st = 'tests'
        else:
            rc, o = run('cargo build --release --offline', H, 400)
            if rc != 0:
                st = 'harness does not build'
                print(o[-500:], file=log)
            else:
                st = 'SURVIVED'
                for c in ORDER:
                    rc, o = run(f'./target/release/lazcheck run {c} --seed {rng.randrange(1000)} --scale {SCALE} --verif {D}/v', H, 600)
                    if rc != 0:
                        st = c if rc == 1 else f'{c} rc {rc}'
                        break
    open(p, 'w').write(orig)
    stats[st] = stats.get(st, 0) + 1
    done += 1
    print(f'{done} {time.time()-t0:.0f}s {st} {p[len(R)+1:]}:{i+1}: {lines[i].strip()}  =>  {n.strip()}', file=log, flush=True)
    if st == 'SURVIVED' or ' rc ' in st:
        with open(D + '/survivors.txt', 'a') as f:
            print(f'{st} {p[len(R)+1:]}:{i+1}\n-{lines[i]}\n+{n}\n', file=f)
print(stats, file=log, flush=True)
