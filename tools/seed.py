#!/usr/bin/env python3
"""seed.py <spec.py>...: writes seeded/<id>/ from specs: dict(id, property, file, edits=[(old,new)], needs, breaks, demo)."""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# cwd: /repo, built
here=$(cd "$(dirname "$0")" && pwd)
BIN=$PWD/target/debug/wimbd
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
fail() { echo "FAIL: $*"; exit 1; }
gz() { gzip -nc > "$d/$1.json.gz"; }          # lines on stdin -> $d/$1.json.gz
doc() { for t in "$@"; do python3 -c 'import json,sys; print(json.dumps({"text": sys.argv[1]}))' "$t"; done; }
'''
def main():
    ns = {}
    for f in sys.argv[1:]: exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        files = s['file'] if isinstance(s['file'], list) else [s['file']]
        t = tempfile.mkdtemp(); diff = ''
        for f in files:
            a = open('/repo/' + f).read(); b = a
            for o, n in s['edits']:
                if o in b and (len(files) == 1 or a.count(o)): b = b.replace(o, n, 1)
                elif len(files) == 1: sys.exit('%s: text not found: %s' % (s['id'], o))
            if a == b: sys.exit('%s: no change in %s' % (s['id'], f))
            open(t + '/a', 'w').write(a); open(t + '/b', 'w').write(b)
            diff += subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, t + '/a', t + '/b'], stdout=subprocess.PIPE, text=True).stdout
        shutil.rmtree(t)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(HEAD + s['demo'].lstrip('\n')); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'])
main()
