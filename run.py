#!/usr/bin/env python3
"""Decide one property: run.py <PROPERTY> [--tier quick|thorough] [--keep] [--only entry]
Ports /repo's current headers, compiles the property's harnesses to LLVM IR, executes them symbolically
(engine/nsym) and replays every counterexample natively before reporting it."""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
ATOM = ['-D__GCC_ATOMIC_%s_LOCK_FREE=2' % t for t in 'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split()] + ['-D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1']
CF = ['-std=c++17', '-w', '-pthread', '-fno-strict-aliasing', '-ffp-contract=off', '-fms-extensions', '-fms-compatibility', '-fms-compatibility-version=19', '-fdelayed-template-parsing', '-D_WIN32_WINNT=0x0600'] + ATOM
OPT = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=4;forward-switch-cond;no-switch-to-lookup;no-keep-loops;no-hoist-common-insts;no-sink-common-insts;speculate-blocks>),globaldce'
def sh(cmd, timeout=None, env=None, **k):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, **k)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'
def engine():
    out = os.path.join(HERE, 'build'); p = os.path.join(out, 'nsym')
    src = glob.glob(HERE + '/engine/*')
    if not os.path.exists(p) or any(os.path.getmtime(s) > os.path.getmtime(p) for s in src):
        r = sh(['make', '-C', HERE + '/engine', 'OUT=' + out])
        if r[0]: print('ENGINE BUILD FAILED\n' + r[2][-2000:]); sys.exit(3)
    return p
def entries(prop, tier):
    res = []
    for f in sorted(glob.glob(HERE + '/harness/*.cpp')):
        last = None
        for ln in open(f):
            m = re.match(r'//@ (.*)', ln)
            if m:
                d = dict(x.split('=', 1) for x in m.group(1).split())
                last = None
                if d.get('prop') != prop: continue
                if d.get('tier', 'quick') == 'thorough' and tier != 'thorough': continue
                d['file'] = f; d['bounds'] = ''; res.append(d); last = d; continue
            m = re.match(r'//@bounds (.*)', ln)
            if m and last is not None: last['bounds'] += (' ' if last['bounds'] else '') + m.group(1).strip()
    return res
class Ctx: pass
def incs(c, f):
    sm = '//@small' in open(f).read(2000)
    return [x.replace('/src', '/srcs') if sm and x == '-I' + c.tmp + '/src' else x for x in c.inc] + (['-DVP_STRINGS'] if '//@strings' in open(f).read(2000) else [])
def compile_bc(c, f):
    bc = os.path.join(c.tmp, os.path.basename(f)[:-4] + '.bc')
    cmd = ['clang++-18'] + CF + incs(c, f) + ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', f, '-o', bc + '0']
    r = sh(cmd, 600)
    if r[0]: return None, r[2]
    r = sh(['opt-18', '-passes=' + OPT, '-two-entry-phi-node-folding-threshold=1000', '-phi-node-folding-threshold=1000', '-speculate-one-expensive-inst', bc + '0', '-o', bc], 600)
    if r[0]: return None, r[2]
    return bc, ''
def run_entry(c, e, bc):
    out = os.path.join(c.tmp, e['entry'] + '.json')
    tier = c.tier
    tm = float(e.get('time', 240)) * (3 if tier == 'thorough' else 1)
    ta = int(e.get('toassert', 60000)) * (3 if tier == 'thorough' else 1)
    cmd = [c.eng, bc, '--entry=' + e['entry'], '--out=' + out, '--time=%g' % tm, '--steps=' + e.get('steps', '3000000'), '--to-assert=%d' % ta, '--to-branch=' + e.get('tobranch', '10000'), '--paths=' + e.get('paths', '400000')]
    if e.get('mode', 'ieee') == 'real': cmd.append('--real')
    r = sh(cmd, tm + 400)
    try: d = json.load(open(out))
    except Exception as ex: d = None
    return e, d, r
KIND_RT = {'memory', 'divzero', 'trap', 'abort', 'exception', 'unreachable', 'nontermination', 'stack', 'deadlock', 'race', 'lock'}
def build_native(c, e, kind):
    exe = os.path.join(c.tmp, e['entry'] + ('.tsan' if kind == 'race' else '.asan' if kind == 'asan' else '.plain') + '.exe')
    if os.path.exists(exe): return exe
    obj = exe + '.bc'
    sched = kind in ('sched', 'race')
    san = ['-fsanitize=thread', '-DVP_TSAN'] if kind == 'race' else ['-fsanitize=address', '-fsanitize=integer-divide-by-zero', '-fno-sanitize-recover=all'] if kind == 'asan' else []
    if sched:
        # the very bitcode that was analysed, with a scheduling point before every atomic access
        bc = c.bcs[e['file']]; r = sh([c.eng, bc, '--instrument=' + obj]);
        if r[0]: return None
        r = sh(['clang++-18', '-w', '-O0', '-c'] + san + [obj, '-o', exe + '.o'], 300)
    else:
        r = sh(['clang++-18'] + CF + incs(c, e['file']) + ['-g', '-O0'] + san + ['-c', e['file'], '-o', exe + '.o'], 600)
    if r[0]: c.log.append('native compile failed: ' + r[2][-1500:]); return None
    r = sh(['clang++-18', '-std=c++17', '-w', '-g', '-O1', '-pthread', '-fno-access-control'] + san + ['-DVP_ENTRY=' + e['entry'], HERE + '/rt/native.cpp', exe + '.o', '-o', exe], 600)
    if r[0]: c.log.append('native link failed: ' + r[2][-1500:]); return None
    return exe
def replay(c, e, v, n):
    """returns (confirmed, text, file)"""
    inp = os.path.join(c.rep, '%s-%s-%d.txt' % (c.prop, e['entry'], n))
    with open(inp, 'w') as f:
        f.write('# property=%s harness=%s entry=%s mode=%s kind=%s label=%s\n# where=%s\n' % (c.prop, os.path.basename(e['file']), e['entry'], e.get('mode', 'ieee'), v['kind'], v['label'], v['where']))
        for nm, k, val in v['inputs']: f.write('%s %s %s\n' % (nm.replace(' ', '_'), k, val))
        for s in v['sched']: f.write('@sched t %d\n' % s)
    threads = len(set(v['sched'])) > 1
    tries = []
    real = ['--real'] if e.get('mode', 'ieee') == 'real' else []
    if v['kind'] == 'race': kinds = ['race']
    elif threads: kinds = ['sched', 'asan']
    else: kinds = ['asan']
    for k in kinds:
        exe = build_native(c, e, k)
        if not exe: tries.append(k + ': native build failed'); continue
        reps = 1
        runs = []
        for i in range(reps): runs.append(([], 190))
        if k == 'asan': runs.append(([], 255)); runs.append(([], 0))
        if real: runs += [(['--jitter=%g' % j, '--seed=%d' % s], 190) for j, s in ((1e-3, 1), (1e-2, 2), (.1, 3), (.3, 4), (.5, 5), (.5, 6))]
        for extra, fill in runs:
            env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=%d:allocator_may_return_null=1' % fill
            env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
            rc, o, er = sh([exe, inp] + real + extra, 90, env)
            txt = (o + er)
            if 'REPLAY-VIOLATION' in o or 'AddressSanitizer' in er or 'ThreadSanitizer: data race' in er or 'runtime error' in er or rc < 0 or rc == 124:
                ln = [x for x in txt.splitlines() if 'REPLAY-VIOLATION' in x or 'ERROR: AddressSanitizer' in x or 'ThreadSanitizer' in x or 'runtime error' in x]
                msg = ln[0] if ln else ('killed by signal %d' % -rc if rc < 0 else 'does not terminate')
                with open(inp, 'a') as f: f.write('# replayed (%s): %s\n' % (k, msg))
                return True, msg, inp
            tries.append('%s%s: rc=%d %s' % (k, ' '.join(extra), rc, (o.strip().splitlines() or [''])[-1][:80]))
    return False, '; '.join(tries), inp
def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VP_TIER_OVERRIDE') or 'quick'; keep = '--keep' in a; only = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--only' in a: only = a[a.index('--only') + 1]
    t0 = time.time(); c = Ctx(); c.prop = prop; c.tier = tier; c.log = []
    c.eng = engine(); c.tmp = tempfile.mkdtemp(prefix='nsym-%s-' % prop)
    c.rep = os.path.join(HERE, 'build', 'replay'); os.makedirs(c.rep, exist_ok=True)
    try: rc = work(c, only, t0)
    finally:
        if not keep: shutil.rmtree(c.tmp, ignore_errors=True)
        else: print('kept', c.tmp)
    sys.exit(rc)
def work(c, only, t0):
    prop = c.prop
    es = entries(prop, c.tier)
    if only: es = [e for e in es if e['entry'] == only]
    if not es: print('no harness for', prop); return 3
    c.inc = ['-I' + HERE + '/port/shim', '-include', 'vp_pre.h', '-I' + c.tmp + '/src', '-I' + HERE + '/harness', '-I/opt/vp/nntl/include', '-DVS_THOROUGH=%d' % (c.tier == 'thorough')]
    env = dict(os.environ); env['VP_REPO'] = REPO
    r = sh([sys.executable, HERE + '/port/port.py', c.tmp + '/src'], 120, env)
    if any('//@small' in open(e['file']).read(2000) for e in es): r = max(r, sh([sys.executable, HERE + '/port/port.py', c.tmp + '/srcs', '--small'], 120, env))
    inconcl = []
    if r[0]: inconcl.append('port failed: ' + r[2][-500:])
    files = sorted(set(e['file'] for e in es)); c.bcs = {}
    W = int(os.environ.get('VP_JOBS', '8'))
    with cf.ThreadPoolExecutor(W) as ex:
        for f, (bc, err) in zip(files, ex.map(lambda f: compile_bc(c, f), files)):
            if bc: c.bcs[f] = bc
            else:
                el = [l for l in err.splitlines() if 'error' in l][:4]
                inconcl.append('harness %s does not compile against this tree: %s' % (os.path.basename(f), ' | '.join(el)[:600]))
        todo = [e for e in es if e['file'] in c.bcs]
        todo.sort(key=lambda e: -float(e.get('cost', 1)))
        res = list(ex.map(lambda e: run_entry(c, e, c.bcs[e['file']]), todo))
    known = [l for l in open(HERE + '/known-findings.txt').read().splitlines() if l.startswith('known: property=%s ' % prop)] if os.path.exists(HERE + '/known-findings.txt') else []
    tot = dict(paths=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, instr=0, proved=0, undecided=0); funcs = set(); per = []; viol = []; nrep = 0; kf = set()
    for e, d, r in res:
        if d is None:
            inconcl.append('%s: engine gave no result (rc=%d) %s' % (e['entry'], r[0], r[2][-300:])); per.append({'entry': e['entry'], 'result': 'no result'}); continue
        tot['paths'] += d['paths_completed']; tot['queries'] += d['queries']; tot['unsat'] += d['queries_unsat']; tot['sat'] += d['queries_sat']; tot['unknown'] += d['queries_unknown']; tot['solver_s'] += d['solver_s']; tot['instr'] += d['instructions']
        tot['proved'] += sum(d['asserts_proved'].values()); tot['undecided'] += sum(d['asserts_undecided'].values()); funcs.update(d['functions'])
        pe = {'entry': e['entry'], 'harness': 'harness/' + os.path.basename(e['file']), 'arithmetic': 'exact reals' if e.get('mode') == 'real' else 'IEEE-754 / bit-vectors', 'bounds': e['bounds'], 'paths': d['paths_completed'], 'assertions_discharged': sum(d['asserts_proved'].values()), 'distinct_assertions': sorted(d['asserts_proved'])[:60], 'queries': d['queries'], 'solver_s': round(d['solver_s'], 2), 'wall_s': round(d['wall_s'], 2)}
        probs = []
        if d['incomplete']: probs.append('incomplete: ' + d['incomplete_why'])
        if d['unsupported']: probs.append('unsupported: ' + '; '.join(d['unsupported'][:3])[:600])
        if d['asserts_undecided']: probs.append('undecided: ' + '; '.join(list(d['asserts_undecided'])[:5])[:600])
        if not d['violations'] and (d['paths_completed'] == 0 or not d['asserts_proved']): probs.append('vacuous: no path completed or no assertion reached')
        for lab in filter(None, e.get('reach', '').split(',')):
            if lab not in d['reached'] and not d['violations']: probs.append('witness "%s" not reached' % lab)
        for v in d['violations']:
            nrep += 1
            if nrep > 12 or any(x[0] for x in viol) and nrep > 4: continue
            ok, msg, path = replay(c, e, v, nrep)
            desc = '%s: %s [%s] at %s -- %s' % (e['entry'], v['label'], v['kind'], v['where'][:300], msg[:300])
            if not ok: probs.append('counterexample not reproduced natively (not reported): ' + desc); continue
            sig = '%s|%s' % (e['entry'], v['label'])
            k = [l for l in known if sig in l]
            if k: kf.add(k[0]); continue
            viol.append((True, desc, path))
        pe['result'] = 'violated' if any(x[1].startswith(e['entry'] + ':') for x in viol) else ('; '.join(probs) if probs else 'holds for every value within the bounds')
        if probs: inconcl += ['%s: %s' % (e['entry'], p) for p in probs]
        per.append(pe)
    for k in sorted(kf): print('KNOWN-FINDING: ' + k[len('known: '):])
    cov = {
        'explanation': 'Symbolic execution of LLVM IR compiled from the current sources; every assertion and every memory access is a query to Z3 quantified over all inputs within the bounds of the harness.',
        'obligations': tot['proved'] + tot['undecided'], 'discharged': tot['proved'],
        'functions_encoded': sorted(funcs), 'n_functions_encoded': len(funcs), 'harnesses': per, 'paths_explored': tot['paths'], 'instructions_executed': tot['instr'],
        'queries': tot['queries'], 'queries_unsat': tot['unsat'], 'queries_sat': tot['sat'], 'queries_unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2), 'solver': 'z3 4.8.12 (libz3)', 'inconclusive': inconcl, 'known_findings': sorted(kf)}
    ass = json.load(open(HERE + '/assumptions.json')) if os.path.exists(HERE + '/assumptions.json') else {}
    ev = {'property': prop, 'tier': c.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': ass.get('common', []) + ass.get(prop, []), 'violations': len(viol)}
    cov['violation_list'] = [{'description': x[1], 'replay': x[2]} for x in viol]
    os.makedirs(HERE + '/evidence', exist_ok=True); json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    if os.environ.get('VP_DEBUG'): print('\n'.join(c.log))
    for i in inconcl: print('INCONCLUSIVE: ' + i)
    print('%s %s: %d harnesses, %d paths, %d assertions discharged, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, wall %.1fs' % (prop, c.tier, len(es), tot['paths'], tot['proved'], tot['queries'], tot['unsat'], tot['sat'], tot['unknown'], tot['solver_s'], time.time() - t0))
    if viol:
        for x in viol: print('  ' + x[1])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][2])); return 1
    return 0
main()
