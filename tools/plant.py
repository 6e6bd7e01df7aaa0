"""plant.py SPEC.py: make seeded/<id> from a specification and confirm it in a scratch copy of /repo.

The specification defines ID, PROP, EDITS [(file below src/oidcmsg, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = tempfile.mkdtemp(prefix='plant')
os.chmod(d, 0o755)  # some checks run unprivileged
try:
    repo = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    sd = d + '/' + spec['ID']
    os.mkdir(sd)
    open(sd + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
    open(sd + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
    os.chmod(sd + '/demo.sh', 0o755)
    json.dump({'property': spec['PROP'], 'needs': ' '.join(spec['NEEDS'].split()), 'what_it_breaks': ' '.join(spec['BREAKS'].split())},
              open(sd + '/meta.json', 'w'), indent=1)

    def demo():
        r = subprocess.run(['bash', sd + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr).strip()[-300:]
    clean = demo()
    for f, old, new in spec['EDITS']:
        p = repo + '/src/oidcmsg/' + f
        s = open(p).read()
        assert s.count(old) == 1, '%s: %d times %r' % (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
    open(sd + '/patch.diff', 'w').write(patch)
    # the changed lines must be lines of the original
    blame_bad = 0
    for f, _, _ in spec['EDITS']:
        out = subprocess.run("git diff -U0 -- src/oidcmsg/%s | grep '^@@'" % f, shell=True, cwd=repo, capture_output=True, text=True).stdout
        for l in out.splitlines():
            a = l.split()[1][1:].split(',')
            n = int(a[1]) if len(a) > 1 else 1
            if n:
                b = subprocess.run(['git', 'blame', '-s', '-L', '%s,+%d' % (a[0], n), 'HEAD', '--', 'src/oidcmsg/' + f], cwd=repo,
                                   capture_output=True, text=True).stdout
                first = subprocess.run(['git', 'rev-list', '-n1', 'e39a56a'], cwd=repo, capture_output=True, text=True).stdout[:7]
                for x in b.splitlines():
                    c = x.split()[0].lstrip('^')
                    anc = subprocess.run(['git', 'merge-base', '--is-ancestor', c, 'e39a56a'], cwd=repo).returncode == 0
                    blame_bad += not anc
    bug = demo()
    env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--color=no', '--timeout=300'], cwd=repo, env=env,
                       capture_output=True, text=True).stdout.strip().splitlines()[-1]
    ok = clean[0] == 0 and bug[0] not in (0, 124) and t.startswith('246 passed') and not blame_bad
    print(spec['ID'], 'CONFIRMED' if ok else 'REJECTED', 'clean', clean, 'bug', bug, t, 'own lines %d' % blame_bad)
    checks = [spec['PROP']] + sys.argv[2:]
    if ok:
        dest = V + '/seeded/' + spec['ID']
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(V + '/seeded', exist_ok=True)
        shutil.copytree(sd, dest)
    ev = d + '/verif'
    shutil.copytree(V, ev, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    os.mkdir(ev + '/evidence')
    for c in checks:
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-W', 'ignore', ev + '/run.py', c], env=dict(os.environ, VF_REPO=repo), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
        print('  ', c, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, (lines or [''])[0][:250])
finally:
    shutil.rmtree(d)
