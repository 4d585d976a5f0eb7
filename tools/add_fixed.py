"""usage: add_fixed.py P04[,P05] "what failed"   (records the HEAD commit of /repo, or COMMIT env)"""
import os, subprocess, sys
commit = os.environ.get('COMMIT') or subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h'], capture_output=True, text=True).stdout.strip()
with open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.txt'), 'a') as f:
    for p in sys.argv[1].split(','):
        f.write(f'fixed: property={p} {commit} {sys.argv[2]}\n')
