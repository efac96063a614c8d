#!/usr/bin/env python3
"""Runs the check of one property: check.py PID [quick|thorough]

Compiles the harness together with /repo's current sources to LLVM bitcode, lets the
symbolic executor (build/symx) decide every assertion with Z3, replays each
counterexample on a native sanitizer build of the same sources, writes
evidence/<PID>.json.  Exit 0 = held on everything explored, 1 = violation, 2 = no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from specs import SPECS
REPO = os.environ.get('VERIF_REPO', '/repo')
SYMX = os.path.join(HERE, 'build', 'symx')
JOBS = os.cpu_count() or 4
INC = ['-I' + os.path.join(HERE, 'engine'), '-I' + os.path.join(HERE, 'stubs'), '-I' + REPO + '/include', '-I/usr/include/eigen3', '-DEIGEN_DONT_VECTORIZE']
BASE = ['-std=gnu++14', '-w', '-ffp-contract=off', '-fno-strict-aliasing', '-DNDEBUG'] + INC
BC = BASE + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-math-errno', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c']
NATIVE = {
    'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'],
    'plain': ['-O1', '-g', '-ftrivial-auto-var-init=zero'],
}
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

class NoAnswer(Exception): pass

def compile_many(jobs):
    """jobs: list of (cmd). Raises on the first failure."""
    with ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: run(c, timeout=600), jobs)):
            if r.returncode:
                raise NoAnswer('compilation failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))

class Unit:
    """one harness file compiled with one set of defines"""
    def __init__(self, w, name, harness, srcs, defs):
        self.w = os.path.join(w, name); os.makedirs(self.w)
        self.harness = os.path.join(HERE, 'harness', harness)
        self.srcs = [os.path.join(REPO, s) for s in srcs]
        self.defs = ['-D' + d for d in defs]
        self.bc = os.path.join(self.w, 'all.bc')
        self.nat = {}
    def bitcode(self):
        objs, jobs = [], []
        for i, s in enumerate([self.harness, os.path.join(HERE, 'engine/rt.cpp')] + self.srcs):
            o = os.path.join(self.w, 'b%d.bc' % i); objs.append(o)
            jobs.append(['clang++'] + BC + self.defs + [s, '-o', o])
        compile_many(jobs)
        r = run([SYMX, '--link=' + self.bc] + objs, timeout=300)
        if r.returncode: raise NoAnswer('linking bitcode failed: ' + r.stderr[-2000:])
    def native(self, kind, entry):
        if (kind, entry) in self.nat: return self.nat[(kind, entry)]
        flags = ['clang++'] + BASE + NATIVE[kind] + self.defs
        if kind not in self.nat:
            objs, jobs = [], []
            for i, s in enumerate([self.harness] + self.srcs):
                o = os.path.join(self.w, '%s%d.o' % (kind, i)); objs.append(o)
                jobs.append(flags + ['-c', s, '-o', o])
            compile_many(jobs)
            self.nat[kind] = objs
        exe = os.path.join(self.w, kind + '_' + entry)
        compile_many([flags + ['-DSX_ENTRY=' + entry, os.path.join(HERE, 'engine/native.cpp')] + self.nat[kind] + ['-o', exe]])
        self.nat[(kind, entry)] = exe
        return exe

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, v in inputs: f.write('%s\t%s\n' % (n, v))

CONFIGS = [('asan', 'asan', {'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=190:abort_on_error=0:exitcode=43'}),
           ('plain', 'plain', {}),
           ('plain-fill', 'plain', {'MALLOC_PERTURB_': '85'}),
           ('asan-zero', 'asan', {'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=0:abort_on_error=0:exitcode=43'}),
           ('asan-ff', 'asan', {'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=255:abort_on_error=0:exitcode=43'})]
def replay(unit, entry, inputs, hang_s=20):
    """Run the real code on the counterexample. Returns (reproduced, description)."""
    f = os.path.join(unit.w, 'replay.txt')
    write_inputs(f, inputs)
    seen = []
    for name, kind, env in CONFIGS:
        exe = unit.native(kind, entry)
        e = dict(os.environ); e.update(env); e['SX_REPLAY'] = f
        try:
            r = run([exe], env=e, timeout=hang_s, cwd=unit.w)
        except subprocess.TimeoutExpired:
            return True, '%s: no result after %d s' % (name, hang_s)
        if r.returncode == 42:
            m = re.search(r'REPLAY-VIOLATION (.*)', r.stdout)
            return True, '%s: %s' % (name, m.group(1) if m else '?')
        if r.returncode in (70, 71): seen.append('%s: %s' % (name, (r.stderr or '').strip()[-100:])); continue
        if r.returncode != 0:
            m = re.search(r'(ERROR: AddressSanitizer.*|terminate called.*|runtime error.*)', r.stderr)
            return True, '%s: crashed (exit %d) %s' % (name, r.returncode, m.group(1)[:200] if m else r.stderr[-200:])
        seen.append(name + ': ended normally')
    return False, '; '.join(seen)

def close(a, b, real):
    try: x, y = float(a), float(b)
    except ValueError: return a == b
    if x == y or (x != x and y != y): return True
    return real and abs(x - y) <= 1e-5 * max(1, abs(x), abs(y))

def validate(unit, entry, traces, real):
    """Native runs of solved inputs must end like the symbolic path and log the same values."""
    ok = bad = 0; notes = []
    if not traces: return 0, 0, notes
    exe = unit.native('plain', entry)
    f = os.path.join(unit.w, 'trace.txt')
    for t in traces[:10]:
        write_inputs(f, t['inputs'])
        e = dict(os.environ); e['SX_REPLAY'] = f; e['SX_LOG'] = '1'
        try: r = run([exe], env=e, timeout=20, cwd=unit.w)
        except subprocess.TimeoutExpired: bad += 1; notes.append('native run does not end'); continue
        logs = re.findall(r'^LOG (.*)=(\S+)$', r.stderr, re.M)
        want = [d.rsplit('=', 1) for d in t['dumps']]
        if r.returncode == 0 and 'REPLAY-END' in r.stdout and len(logs) == len(want) and all(a[0] == b[0] and close(a[1], b[1], real) for a, b in zip(logs, want)): ok += 1
        else: bad += 1; notes.append('exit %d, logs %s, predicted %s, inputs %s' % (r.returncode, logs[:6], want[:6], t['inputs'][:12]))
    return ok, bad, notes[:3]

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#'): continue
            k = json.loads(l)
            if k.get('property') == pid and k.get('status') == 'known': out.append(k)
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    spec = SPECS[pid]
    t0 = time.time()
    if not os.path.exists(SYMX): run(['make', '-C', os.path.join(HERE, 'engine')])
    if not os.path.exists(SYMX): print('engine missing'); return 2
    w = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    rc, ev_entries, violations, unrep, problems, knownhits = 0, [], [], [], [], []
    known = known_findings(pid)
    try:
        units = {}
        plan = []
        for u in spec['units']:
            if tier not in u.get('tiers', ('quick', 'thorough')): continue
            defs = u.get('defs', []) + u.get(tier, [])
            key = (u['harness'], tuple(u['srcs']), tuple(defs))
            if key not in units: units[key] = Unit(w, 'u%d' % len(units), u['harness'], u['srcs'], defs)
            for en in u['entries']:
                plan.append((units[key], en, u))
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(lambda u: u.bitcode(), units.values()): pass
        budget = spec.get('budget', {'quick': 600, 'thorough': 3000})[tier]
        for unit, en, u in plan:
            if violations and time.time() - t0 > 300: problems.append('a violation is reproduced; ' + en + ' was left out'); continue
            mode = u.get('mode', 'fp')
            lim = min(u.get('time', {'quick': 240, 'thorough': 1500})[tier], max(20, budget - (time.time() - t0)))
            out = os.path.join(unit.w, en + '.json')
            cmd = [SYMX, unit.bc, '--entry=' + en, '--mode=' + mode, '--time=%d' % lim, '--jobs=%d' % JOBS, '--covroot=' + REPO, '--out=' + out] + u.get('args', [])
            try: r = run(cmd, timeout=lim + 120)
            except subprocess.TimeoutExpired: problems.append(en + ': engine did not stop'); continue
            if not os.path.exists(out): problems.append('%s: engine failed (%d): %s' % (en, r.returncode, r.stderr[-500:])); continue
            d = json.load(open(out))
            if d['checks'] == 0 and not d['violations']: problems.append(en + ': nothing was decided: ' + json.dumps(d['aborts'])[:500])
            missing = [l for l in u.get('reach', {}).get(en, []) if not d['reach'].get(l)]
            tried = {}
            for v in d['violations']:
                # one reproduced counterexample per assertion is enough; hanging replays are slow
                t = tried.setdefault(v['msg'], [0, False]); t[0] += 1
                if t[1] or t[0] > 25: continue
                rep, desc = replay(unit, en, v['inputs'])
                rec = dict(entry=en, kind=v['kind'], message=v['msg'], where=v['where'], inputs=v['inputs'], values=v['dumps'], native=desc)
                if not rep: unrep.append(rec); continue
                hit = next((k for k in known if k['entry'] == en and k['message'] == v['msg'] and all(i in v['inputs'] for i in k.get('inputs', []))), None)
                if hit: knownhits.append((hit, rec)); continue
                violations.append((unit, rec)); t[1] = True
            ok, bad, notes = validate(unit, en, d['traces'], mode != 'fp') if not d['violations'] else (0, 0, [])
            ev_entries.append(dict(entry=en, harness=u['harness'], mode={'fp': 'IEEE doubles', 'real': 'exact real arithmetic', 'mixed': 'IEEE doubles for constants, exact real arithmetic for unknowns'}[mode], defines=unit.defs, wall_s=round(d['wall'], 1),
                complete=d['complete'], paths=d['paths'], infeasible_paths=d['infeasible'], unfinished_paths=d['aborted'] + d['unexplored'], unfinished_reasons=d['aborts'],
                instructions=d['instructions'], forks=d['forks'], queries=d['queries'], sat=d['sat'], unsat=d['unsat'], unknown=d['unknown'], solver_s=round(d['solver_s'], 2),
                assertions_checked=d['checks'], assertions_constant=d['checks_const'], assertions_proved_by_solver=d['checks_solved'], assertions_unknown=d['checks_unknown'], unknown_assertions=d['unknown_checks'],
                assertion_counts=d['check_msgs'], reached=d['reach'], never_reached=missing, uninitialised_reads=d['uninit_reads'],
                functions=d['functions'], source_lines={k: len(v) for k, v in d['lines'].items()}, samples=d['samples'][:3], native_traces_ok=ok, native_traces_different=bad, native_notes=notes))
        seen = set()
        for k, rec in knownhits:
            if k['id'] in seen: continue
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        if violations:
            rc = 1
            rd = os.path.join(HERE, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
            done = set()
            for n, (unit, rec) in enumerate(violations):
                key = (rec['entry'], rec['message'])
                if key in done: continue
                done.add(key)
                path = os.path.join(rd, '%s_%d.json' % (pid, n))
                json.dump(dict(property=pid, harness=unit.harness, defines=unit.defs, **rec), open(path, 'w'), indent=1)
                print('  %s [%s] %s\n    at %s\n    native: %s' % (rec['entry'], rec['kind'], rec['message'], rec['where'], rec['native']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
        elif not ev_entries: rc = 2
        elif problems and all(e['assertions_checked'] == 0 for e in ev_entries): rc = 2
    except NoAnswer as e:
        print(str(e)); problems.append(str(e)[:2000]); rc = 2
    finally:
        shutil.rmtree(w, ignore_errors=True)
    tot = lambda k: sum(e[k] for e in ev_entries)
    funcs = sorted(set(f for e in ev_entries for f in e['functions']))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
        coverage=dict(states=tot('paths'), transitions=tot('instructions'), traces_validated_against_impl=tot('native_traces_ok'), samples=[s for e in ev_entries for s in e['samples']][:12],
            rule='states = completed symbolic paths (each stands for all inputs satisfying its path condition), transitions = IR instructions executed symbolically',
            exhaustive=bool(ev_entries) and all(e['complete'] for e in ev_entries) and not problems,
            queries=tot('queries'), queries_unsat=tot('unsat'), queries_sat=tot('sat'), queries_unknown=tot('unknown'), solver_s=round(tot('solver_s'), 1),
            assertions_checked=tot('assertions_checked'), assertions_proved_by_solver=tot('assertions_proved_by_solver'), assertions_constant_on_path=tot('assertions_constant'), assertions_unknown=tot('assertions_unknown'),
            functions_encoded=funcs, bounds=spec.get('bounds', {}), outside_bounds=spec.get('outside', ''), entries=ev_entries, problems=problems,
            unreproduced_counterexamples=unrep, known_findings=[k['id'] for k, _ in knownhits]),
        assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for e in ev_entries:
        print('  %-22s %s paths=%d checks=%d (%d by solver) queries=%d unknown=%d %.1fs%s%s' % (e['entry'], 'complete' if e['complete'] else 'INCOMPLETE', e['paths'], e['assertions_checked'], e['assertions_proved_by_solver'], e['queries'], e['unknown'], e['wall_s'],
              ' native %d/%d' % (e['native_traces_ok'], e['native_traces_ok'] + e['native_traces_different']), (' NEVER REACHED ' + str(e['never_reached'])) if e['never_reached'] else ''))
    for u in unrep: print('  not reproduced natively (not reported): %s %s: %s (%s)' % (u['entry'], u['kind'], u['message'], u['native']))
    for q in problems: print('  problem: ' + q[:1500])
    print('%s %s: %s in %.1f s' % (pid, tier, {0: 'held', 1: 'VIOLATED', 2: 'NO ANSWER'}[rc], time.time() - t0))
    return rc
sys.exit(main())
