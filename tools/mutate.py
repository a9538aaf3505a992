#!/usr/bin/env python3
# Mutation testing of the checks (development aid): mutate.py N [seed] [files substring]. Works in scratch copies only.
import sys, os, re, json, glob, random, subprocess, shutil, collections, threading, queue, time
N = int(sys.argv[1]); random.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 1); SUB = sys.argv[3] if len(sys.argv) > 3 else ''
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = int(os.environ.get('MW', '4')); S = os.environ.get('MS', '/tmp/mut')
cov = collections.defaultdict(set); wall = {}
for f in glob.glob(V + '/evidence/C*.json'):
    e = json.load(open(f)); wall[e['property']] = e['wall_s']
    for fn in e['coverage']['functions_encoded']:
        m = re.match(r'(\S+?):(\d+) (.*)', fn)
        if m and m.group(1).startswith('nntl'): cov[(os.path.normpath(m.group(1)), int(m.group(2)))].add(e['property'])
def body(L, i):
    d = 0; seen = False
    for k in range(i, min(i + 150, len(L))):
        for ch in L[k].split('//')[0]:
            if ch == '{': d += 1; seen = True
            if ch == '}': d -= 1
        if seen and d <= 0: return k
    return i
OPS = [(r'(?<![<\-=>])<(?![<=])(?=\s*[a-z(])', '<='), (r'<=(?!=)', '<'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'::std::max\b', '::std::min'), (r'::std::min\b', '::std::max'), (r'\+=', '='), (r'\+\+(\w)', r'\1'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b([a-z_]*\w*)\.rows\(\)', r'\1.cols()'), (r'real_t\(1\.?0?\)', 'real_t(0)'), (r'real_t\(0\.?0?\)', 'real_t(1)'), (r'-=', '+='), (r'\bif \(', 'if (!'), (r'^(\s*)[A-Za-z_][\w.>:\-]*\(.*\);\s*$', r'\1;'), (r'^(\s*)[\w.\[\]>\-*]+ = .*;\s*$', r'\1;')]
muts = []; seen = set()
for (f, ln), ps in cov.items():
    p = '/repo/' + f
    if SUB not in f or not os.path.exists(p): continue
    L = open(p, errors='replace', newline='').read().split('\n'); e = body(L, ln - 1)
    for k in range(ln - 1, e + 1):
        s = L[k]; c = s.split('//')[0]
        if re.search(r'NNTL_ASSERT|STDCOUT|static_assert|NNTL_DEBUG|template|#|typedef|using |constexpr (?!if)|\bassert', c) or not c.strip(): continue
        for o, (a, b) in enumerate(OPS):
            for m in re.finditer(a, c):
                if b == 'if (!' and True: nl = c[:m.start()] + 'if (!!!(' + c[m.end():] if False else None
                nl = c[:m.start()] + m.expand(b) + c[m.end():]
                if (f, k, nl) in seen: 
                    for x in muts:
                        if x[0] == f and x[1] == k and x[2] == nl: x[3].update(ps)
                    continue
                seen.add((f, k, nl)); muts.append([f, k, nl, set(ps)])
random.shuffle(muts); print(len(muts), 'mutants possible', flush=True); muts = muts[:N]
q = queue.Queue(); [q.put(m) for m in muts]; lock = threading.Lock(); stat = collections.Counter()
def work(w):
    d = '%s/%d' % (S, w); shutil.rmtree(d, True); os.makedirs(d); subprocess.run(['cp', '-a', V, d + '/v']); subprocess.run(['cp', '-a', '/repo', d + '/r'])
    while True:
        try: f, k, nl, ps = q.get_nowait()
        except queue.Empty: break
        p = d + '/r/' + f; o = open(p, 'rb').read(); L = o.split(b'\n'); old = L[k].decode(errors='replace').strip(); L[k] = nl.encode() + b'\r'; open(p, 'wb').write(b'\n'.join(L)); res = 'SURVIVED'; tried = []
        for pr in sorted(ps, key=lambda x: wall.get(x, 0))[:int(os.environ.get('MP', '5'))]:
            env = dict(os.environ, VP_REPO=d + '/r', VP_JOBS='3')
            try: r = subprocess.run(['python3', 'run.py', pr], cwd=d + '/v', env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired: tried.append(pr + ':timeout'); continue
            tried.append('%s:%d%s' % (pr, r.returncode, '' if 'INCONCL' not in r.stdout else 'i'))
            if r.returncode == 1: res = 'killed ' + pr; break
            if r.returncode not in (0, 1): res = 'nobuild'; tried.append((r.stdout + r.stderr)[-300:].replace('\n', '|')); break
        open(p, 'wb').write(o)
        with lock: stat[res.split()[0]] += 1; print('%s %s:%d  %s  =>  %s  %s' % (res, f, k + 1, old, nl.strip(), ' '.join(tried) if res[0] in 'Sn' else ''), flush=True)
    shutil.rmtree(d, True)
T = [threading.Thread(target=work, args=(i,)) for i in range(W)]; [t.start() for t in T]; [t.join() for t in T]; print(dict(stat))
