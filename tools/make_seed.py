"""make_seed.py ID PROPERTY FILE 'needs' 'what it breaks' <<< python dict text with 'edits': [(file, old, new)], 'demo': text"""
import json, os, subprocess, sys, tempfile, shutil
spec = eval(sys.stdin.read())
folder = f'/verif/seeded/{spec["id"]}'
os.makedirs(folder, exist_ok=True)
scratch = tempfile.mkdtemp(prefix='mkseed-')
try:
    diff = ''
    files = sorted({e[0] for e in spec['edits']})
    for f in files:
        for side in 'ab':
            os.makedirs(os.path.dirname(f'{scratch}/{side}/{f}'), exist_ok=True)
            shutil.copy(f'/repo/{f}', f'{scratch}/{side}/{f}')
    for f, old, new in spec['edits']:
        p = f'{scratch}/b/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    for f in files:
        r = subprocess.run(['diff', '-u', f'a/{f}', f'b/{f}'], cwd=scratch, capture_output=True, text=True)
        lines = r.stdout.split('\n')
        lines[0] = f'--- a/{f}'; lines[1] = f'+++ b/{f}'
        diff += f'diff --git a/{f} b/{f}\n' + '\n'.join(lines)
    open(f'{folder}/patch.diff', 'w').write(diff)
finally:
    shutil.rmtree(scratch)
json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(f'{folder}/meta.json', 'w'), indent=1)
open(f'{folder}/demo.py', 'w').write(spec['demo'])
open(f'{folder}/demo.sh', 'w').write('''#!/bin/bash
export PYTHONPATH="$PWD/core:$PWD" PYTHONDONTWRITEBYTECODE=1
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
HOME="$scratch" TMPDIR="$scratch" timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py" "$scratch"
''')
