#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE  < spec   -- make and confirm a planted bug.
spec (stdin): sections separated by lines '=== old', '=== new' (repeatable pairs), '=== demo', '=== needs', '=== breaks'.
Confirms in a scratch copy: builds, 44 stable tests pass, demo 0 without and nonzero with the change."""
import sys, os, re, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
pid, prop, fn = sys.argv[1:4]
secs = []; cur = None
for l in sys.stdin.read().split('\n'):
    m = re.match(r'=== (\w+)(?: (\S+))?$', l)
    if m: cur = [m.group(1), m.group(2), []]; secs.append(cur)
    elif cur is not None: cur[2].append(l)
get = lambda n: ['\n'.join(s[2]).rstrip('\n') for s in secs if s[0] == n]
d = os.path.join(V, 'seeded', pid); os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='seed_'); r = w + '/repo'
try:
    sh('cp -a /repo %s' % r)
    olds = [(s[1] or fn, '\n'.join(s[2]).rstrip('\n')) for s in secs if s[0] == 'old']; news = get('new')
    for (f, o), n in zip(olds, news):
        s0 = f; f, _, k = f.partition('#')   # file#k: the k-th occurrence
        t = open(r + '/' + f).read()
        parts = t.split(o); k = int(k or 1)
        assert (len(parts) == 2 or k > 1 or '#' in s0) and k < len(parts), ('old text occurs %d times in %s' % (len(parts) - 1, f))
        open(r + '/' + f, 'w').write(o.join(parts[:k]) + n + o.join(parts[k:]))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % r).stdout)
    open(d + '/demo.cpp', 'w').write(get('demo')[0] + '\n')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is as documented
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"
g++ -std=c++14 -O1 -w -I"$PWD/src" -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" && timeout 120 "$t/demo"; rc=$?
rm -rf "$t"; exit $rc
''')
    json.dump(dict(property=prop, needs=get('needs')[0].strip(), what_it_breaks=get('breaks')[0].strip()), open(d + '/meta.json', 'w'), indent=1)
    base = sh('cd /repo && bash %s/demo.sh' % d); bug = sh('cd %s && bash %s/demo.sh' % (r, d))
    print('demo unchanged rc', base.returncode, base.stdout[-300:]); print('demo changed rc', bug.returncode, bug.stdout[-300:])
    # tests: the scratch copy takes the place of /repo in a mount namespace of its own
    b = sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; echo build rc $?; bash /opt/vp/test.sh /tmp/seed_t%d.json 2>/dev/null | tail -1'" % (r, os.getpid()))
    print(b.stdout[-300:])
    c = sh('cd %s/bin && PV_REPO=%s python3 ./check %s' % (V, r, prop)); print(c.stdout[-900:])
finally: shutil.rmtree(w)
