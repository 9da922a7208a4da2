#!/usr/bin/env python3
# Development helper for planted bugs: validates seeded/<id> in a scratch copy and runs its property's check against it.
#   seedtool.py validate ID...   patch applies, stable tests pass, demo 0 without / nonzero with the patch
#   seedtool.py hit ID...        run the check of the bug's property against a patched scratch copy
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    return d, r


def tests(r):
    out = set()
    for env in ('venv', 'venv-slow'):
        p = subprocess.run(['/opt/%s/bin/python' % env, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=no', '-rA', '--doctest-modules',
                            'pymorphy2', 'tests'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for l in p.stdout.decode('utf8', 'replace').splitlines():
            if l.startswith('PASSED '):
                out.add(env + ' ' + l[7:])
    return out


def demo(sid, r):
    d = tempfile.mkdtemp(prefix='demo_', dir='/tmp')
    for f in os.listdir(os.path.join(V, 'seeded', sid)):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(V, 'seeded', sid, f), d)
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    shutil.rmtree(d)
    return p.returncode, p.stdout.decode('utf8', 'replace')[-600:]


def apply(sid, r):
    subprocess.check_call(['git', 'apply', os.path.join(V, 'seeded', sid, 'patch.diff')], cwd=r)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    base = None
    for sid in ids:
        d, r = copy()
        try:
            if cmd == 'validate':
                if base is None:
                    base = tests(r)
                rc0, o0 = demo(sid, r)
                apply(sid, r)
                rc1, o1 = demo(sid, r)
                lost = base - tests(r)
                ok = rc0 == 0 and rc1 != 0 and not lost
                print(sid, 'OK' if ok else 'BAD', 'demo', rc0, rc1, 'lost', sorted(lost)[:3], '' if ok else (o0, o1), flush=True)
            else:
                apply(sid, r)
                prop = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))['property']
                e = dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick')
                p = subprocess.run(['python3', 'check.py', prop], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                t = p.stdout.decode('utf8', 'replace')
                print('=====', sid, prop, 'rc', p.returncode, flush=True)
                print('\n'.join(l[:260] for l in t.splitlines()[-9:]), flush=True)
        finally:
            shutil.rmtree(d)


main()
