#!/usr/bin/env python3
"""Development tool (no check uses it): try the planted bugs in seeded/ against the checks.

  plant.py verify [--slot N] [--check] [ids...]

For each seeded/<id>: apply patch.diff to a scratch clone of /repo, build it, run the stable tests,
run demo.sh (must fail), and with --check the property's quick check (must report a violation).
demo.sh must also succeed on the unpatched clone.
"""
import argparse, json, os, pathlib, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parents[1]


def sh(cmd, cwd=None, env=None, timeout=1000):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, shell=isinstance(cmd, str),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


class Slot:
    def __init__(self, n):
        self.d = pathlib.Path(f'/tmp/seed/slot{n}')
        self.repo = self.d / 'repo'
        if not self.repo.exists():
            self.d.mkdir(parents=True, exist_ok=True)
            sh(['git', 'clone', '-q', '/repo', str(self.repo)])
            (self.repo / '.git/info/exclude').write_text('_build/\n')
            sh(f'cmake -S /opt/vp/cmake -B {self.repo}/_build -G Ninja -DREPO={self.repo} '
               '-DCMAKE_BUILD_TYPE=Debug -DPython3_EXECUTABLE=/usr/bin/python3',
               env={'CC': 'gcc', 'CXX': 'g++'})
        self.reset()

    def reset(self):
        sh('git fetch -q origin; git reset -q --hard origin/HEAD; git clean -fdq', self.repo)

    def build(self):
        return sh(f'ninja -C {self.repo}/_build', env={'CC': 'gcc', 'CXX': 'g++'})

    def test(self):
        rc, out = sh(f'ctest --test-dir {self.repo}/_build -j4 --timeout 300', self.repo)
        return rc, out

    def demo(self, sd):
        return sh(['bash', str(sd / 'demo.sh')], self.repo, timeout=300)

    def check(self, pid, tier='quick', cases=None):
        cmd = [sys.executable, str(V / 'check.py'), pid, '--tier', tier]
        return sh(cmd, V, {'VERIF_REPO': str(self.repo), 'VERIF_SEED': '1'})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--slot', default='0')
    ap.add_argument('--check', action='store_true')
    a = ap.parse_intermixed_args()
    s = Slot(a.slot)
    ids = a.ids or sorted(p.name for p in (pathlib.Path(os.environ.get('SEEDV', str(V / 'seeded')))).iterdir())
    s.build()
    for i in ids:
        sd = pathlib.Path(os.environ.get('SEEDV', str(V / 'seeded'))) / i
        meta = json.loads((sd / 'meta.json').read_text())
        s.reset()
        s.build()
        base = s.demo(sd)
        rc, out = sh(['git', 'apply', str(sd / 'patch.diff')], s.repo)
        res = {'id': i, 'property': meta['property'], 'demo_base': base[0], 'apply': rc}
        b = s.build()
        res['build'] = b[0]
        if b[0] == 0:
            t = s.test()
            res['tests'] = t[0]
            d = s.demo(sd)
            res['demo_bug'] = d[0]
            res['demo_out'] = d[1][-200:]
            if t[0]:
                res['tests_out'] = [l for l in t[1].splitlines() if 'Failed' in l][:5]
            if a.check:
                t0 = time.time()
                c = s.check(meta['property'])
                res['check'] = c[0]
                res['viol'] = [l for l in c[1].splitlines() if l.startswith('VIOLATION')][:1]
                res['t'] = round(time.time() - t0)
        else:
            res['build_out'] = b[1][-500:]
        ok = (base[0] == 0 and rc == 0 and b[0] == 0 and res.get('tests') == 0 and res.get('demo_bug'))
        res['counts'] = bool(ok)
        print(json.dumps(res), flush=True)
        s.reset()


main()
