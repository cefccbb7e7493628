#!/usr/bin/env python3
"""plant.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file,old,new[,count])], DEMO (C source), NEEDS, BREAKS.
Works in /tmp/plant (a cp -a of /repo); writes /verif/seeded/<ID>/ after confirming build, stable tests and demo."""
import json, os, subprocess, sys, shutil
W = '/tmp/plant/repo'
SH = '''#!/bin/bash
# runs in the repository root after the build
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -fcommon -I "$PWD/Db" -I "$PWD/_build/main/Db" "$D/demo.c" "$PWD/_build/main/Main/.libs/libwgdb.a" -lm -lpthread -o "$T/demo"
cd "$T" && timeout 60 ./demo
'''
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build():
    r = run("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/plant/build.sh; bash /tmp/plant/build.sh" % W)
    return r
spec = {}
exec(open(sys.argv[1]).read(), spec)
notest = '--notest' in sys.argv
os.makedirs('/tmp/plant', exist_ok=True)
if not os.path.isdir(W):
    run('cp -a /repo %s' % W)
    run("rm -rf %s/_build" % W)
    print(build().stdout[-200:])
run('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W))
b = build()
if b.returncode: print(b.stdout[-2000:]); sys.exit('base build failed')
out = '/verif/seeded/%s' % spec['ID']
tmp = '/tmp/plant/out'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
open(tmp + '/demo.sh', 'w').write(spec.get('SHELL', SH)); os.chmod(tmp + '/demo.sh', 0o755)
open(tmp + '/demo.c', 'w').write(spec['DEMO'])
r = run('bash %s/demo.sh' % tmp, cwd=W)
print('demo on base:', r.returncode, r.stdout[-600:])
if r.returncode: sys.exit(1)
for e in spec['EDITS']:
    f, old, new = e[:3]
    p = W + '/' + f; s = open(p, encoding='latin-1').read()
    if s.count(old) != (e[3] if len(e) > 3 else 1): sys.exit('edit matches %d times: %s' % (s.count(old), old))
    open(p, 'w', encoding='latin-1').write(s.replace(old, new))
open(tmp + '/patch.diff', 'w', encoding='latin-1').write(subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE).stdout.decode('latin-1'))
b = build()
if b.returncode: print(b.stdout[-2000:]); sys.exit('mutant build failed')
r = run('bash %s/demo.sh' % tmp, cwd=W)
print('demo on mutant:', r.returncode, r.stdout[-600:])
if not r.returncode: sys.exit('demo does not fail')
if not notest:
    # tests run on /repo paths: run in place with the scripts redirected
    run("sed 's#/repo#%s#g; s#/opt/vp/build.sh#/tmp/plant/build.sh#g; s#/opt/vp/runtests.py#/tmp/plant/runtests.py#; s#/opt/vp/results.py#/opt/vp/results.py#' /opt/vp/test.sh > /tmp/plant/test.sh; sed 's#/repo#%s#g' /opt/vp/runtests.py > /tmp/plant/runtests.py" % (W, W))
    r = run('bash /tmp/plant/test.sh /tmp/plant/res.json')
    res = json.load(open('/tmp/plant/res.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad = st - set(res['passed'])
    print('tests failing:', sorted(bad))
    if bad: sys.exit(1)
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(tmp + '/meta.json', 'w'), indent=1)
shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
print('planted', out)
