"""mk.py: helper to write a planted change: mk(id, prop, file, [(old, new)], needs, breaks, demo C source)"""
import os, subprocess, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=/opt/vp/shadow/target/debug
[ -f $T/librexpat.a ] || T=$(dirname "$(find /opt/vp /repo -name librexpat.a -path '*debug*' 2>/dev/null | head -1)")
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
gcc -w -o "$w/demo" "$here/demo.c" "$T/librexpat.a" -lpthread -ldl -lm || exit 3
timeout 60 "$w/demo"
'''
DEMO_WF = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
X=/opt/vp/shadow/target/debug/xmlwf
[ -x $X ] || X=$(find /opt/vp /repo -name xmlwf -path '*debug/xmlwf' -type f 2>/dev/null | head -1)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cd "$w"
'''


def mk(id, prop, edits, needs, breaks, demo=None, sh=None):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    for f, old, new in edits:
        p = os.path.join('/repo', f); s = open(p).read()
        if isinstance(old, tuple): old, nth = old
        else:
            nth = 0
            assert s.count(old) == 1, (f, old, s.count(old))
        i = -1
        for _ in range(nth + 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, 'w').write(s)
    df = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(df)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    if demo is not None:
        shutil.copy(os.path.join(HERE, 'tools', 'x.h'), d + '/x.h')
        open(d + '/demo.c', 'w').write('#include "x.h"\n' + demo.strip() + '\n')
        open(d + '/demo.sh', 'w').write(DEMO)
    else:
        open(d + '/demo.sh', 'w').write(DEMO_WF + sh)
    os.chmod(d + '/demo.sh', 0o755)
