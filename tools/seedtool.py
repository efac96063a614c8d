"""Development aid (no check uses it): confirm a planted change, or run a check against it.
  seedtool.py confirm ID   in a scratch copy: demo passes, patch applies, builds, test passes, demo fails
  seedtool.py run ID [tier] [PROP]  apply to /repo, run the check of its property, undo"""
import sys, os, subprocess, json, shutil, tempfile
S = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def confirm(i):
    d = tempfile.mkdtemp(prefix='seed_'); r = d + '/repo'; ok = True
    # demos and the build name /repo: work in a mount-free way by applying to /repo itself, with undo
    shutil.copytree(f'{S}/{i}', d + '/demo')
    for f in ('patch.diff', 'meta.json'): os.remove(d + '/demo/' + f)
    def demo(): return sh(f'timeout 300 bash {d}/demo/demo.sh', cwd='/repo').returncode
    assert sh('git status --short', cwd='/repo').stdout.strip() == '', 'repo not clean'
    sh('bash /opt/vp/build.sh')
    a = demo()
    p = sh(f'git apply {S}/{i}/patch.diff', cwd='/repo')
    try:
        b = sh('bash /opt/vp/build.sh'); t = sh(f'bash /opt/vp/test.sh {d}/o.json'); res = json.load(open(d + '/o.json'))
        c = demo()
    finally:
        sh('git checkout -- .', cwd='/repo'); sh('bash /opt/vp/build.sh')
    ok = a == 0 and p.returncode == 0 and b.returncode == 0 and t.returncode == 0 and len(res['passed']) >= 1 and not res['failed'] and c != 0
    print(i, 'OK' if ok else 'BAD', 'clean', a, 'apply', p.returncode, p.stderr.strip(), 'build', b.returncode, 'test', t.returncode, 'patched', c, flush=True)
    shutil.rmtree(d)
    return ok
def run(i, tier='quick', prop=None):
    m = json.load(open(f'{S}/{i}/meta.json')); prop = prop or m['property']
    assert sh('git status --short', cwd='/repo').stdout.strip() == '', 'repo not clean'
    assert sh(f'git apply {S}/{i}/patch.diff', cwd='/repo').returncode == 0
    try: r = sh(f'python3 /verif/tools/check.py {prop} {tier}', cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=tier))
    finally: sh('git checkout -- .', cwd='/repo')
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(i, prop, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', v[:1], '' if v else r.stdout[-600:] + r.stderr[-300:], flush=True)
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'confirm': sys.exit(0 if all([confirm(i) for i in sys.argv[2:]]) else 1)
    if c == 'run': run(*sys.argv[2:])
    if c == 'runall':
        for i in sys.argv[2:]: run(i)
