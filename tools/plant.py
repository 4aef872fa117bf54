"""plant.py SPEC...: makes a scratch copy of /repo with the change a SPEC describes, confirms that it builds, passes the
stable tests, and that its demonstration tells it from the original; keeps it as seeded/<id>; runs the property's check.

A SPEC is a Python file that sets ID, PROPERTY, EDITS [(file, old, new)], DEMO (body of a Python program), NEEDS, BREAKS.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import logging, os, sys
sys.dont_write_bytecode = True
R = os.getcwd()
sys.path.insert(0, R)
from pp import yugen, yup
from pp.yuconfig import *
for lg in (yugen.log, yugen.trace):
    lg.propagate = False
    lg.handlers[:] = [logging.NullHandler()]


def tr(text, inp=None, **cfg):
    """The text a source yields, or None."""
    yup.shell()
    yugen.config()
    for k, v in cfg.items():
        setattr(yugen.config, k, v)
    yugen.yushell(text, inp, None)
    yugen.yuinit()
    try:
        res = yugen.yueval(yugen.yuparse(yugen.yushell.input_file))
        if not isinstance(res, str):
            return None
        return yugen.replace_steady(yugen.reduce_emptiness(res))
    except Exception as e:
        tr.error = str(e)
        return None


def same(got, want):
    if got != want:
        print('expected %r\\ngot      %r' % (want, got))
        sys.exit(1)


'''
SH = '''#!/bin/bash
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **env):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main(spec, check=True):
    d = {}
    exec(compile(open(spec).read(), spec, 'exec'), d)
    wt = tempfile.mkdtemp(prefix='wt-')
    repo = os.path.join(wt, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        out = os.path.join(V, 'seeded', d['ID'])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write((PRE if d.get('PRE', True) else '') + d['DEMO'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(d.get('SH', SH))
        demo = 'timeout 300 bash %s/demo.sh' % out
        rc, o = sh(demo, repo)
        if rc:
            print(d['ID'], 'DEMO FAILS ON THE ORIGINAL\n', o)
            return 1
        for fn, a, b in d['EDITS']:
            p = os.path.join(repo, fn)
            s = open(p, encoding='utf-8').read()
            assert s.count(a) == 1, (d['ID'], fn, a, s.count(a))
            open(p, 'w', encoding='utf-8').write(s.replace(a, b))
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, f, indent=1)
            f.write('\n')
        rc, o = sh(demo, repo)
        if not rc:
            print(d['ID'], 'DEMO PASSES WITH THE CHANGE')
            return 1
        shown = o.strip().split('\n')[-2:]
        k = open('/opt/vp/run_kits.py').read()
        assert "'/repo'" in k
        open(os.path.join(wt, 'run_kits.py'), 'w').write(k.replace("'/repo'", repr(repo)))
        for s in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % s).read().replace('cd /repo', 'cd ' + repo)
            t = t.replace('/opt/vp/run_kits.py', os.path.join(wt, 'run_kits.py'))
            open(os.path.join(wt, s + '.sh'), 'w').write(t)
        rc, o = sh('bash %s/build.sh' % wt, repo)
        if rc:
            print(d['ID'], 'DOES NOT BUILD', o[-500:])
            return 1
        sh('bash %s/test.sh %s/o.json >/dev/null 2>&1' % (wt, wt), repo)
        r = json.load(open(os.path.join(wt, 'o.json')))
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base['stable']
        lost = [x for x in names if x not in r['passed']]
        if lost:
            print(d['ID'], 'TESTS LOST', lost)
            return 1
        print(d['ID'], 'planted;', ' / '.join(shown))
        if check:
            rc, o = sh('timeout 900 bash %s/check.sh %s' % (V, d['PROPERTY']), V, YUPP_REPO=repo)
            v = [x for x in o.split('\n') if x.startswith('VIOLATION')]
            print('   %s: rc %d, %s' % (d['PROPERTY'], rc, 'CAUGHT ' + ' | '.join(o.split('\n')[2:4]) if v and rc == 1 else 'MISSED ' + o[-300:]))
    finally:
        shutil.rmtree(wt)
    return 0


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '--no-check']
    for a in args:
        main(a, '--no-check' not in sys.argv)
