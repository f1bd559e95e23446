"""lists for every seeded bug whether it removes or changes lines of the base commit (git blame)"""
import subprocess, re, sys, glob, os
base = 'e3d19a7'
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*'))):
    t = open(d + '/patch.diff').read()
    f = None
    orig = mine = ins = 0
    for l in t.split('\n'):
        m = re.match(r'\+\+\+ b/(.*)', l)
        if m:
            f = m.group(1)
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith('---') or l.startswith('+++') or f is None:
            continue
        if l.startswith('-'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '-L%d,%d' % (n, n), 'HEAD', '--', f], capture_output=True, text=True).stdout
            c = b.lstrip('^')[:39]
            inb = subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', c, base]).returncode == 0
            orig += inb
            mine += not inb
            n += 1
        elif l.startswith('+'):
            ins += 1
        else:
            n += 1
    print(os.path.basename(d), 'original lines removed', orig, 'own lines removed', mine, 'inserted', ins)
