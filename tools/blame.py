#!/usr/bin/env python3
"""How many of the lines that each planted bug changes come from the original repository."""
import glob, os, re, subprocess, sys
BASE = subprocess.check_output('git log --format=%H --diff-filter=A -- Cargo.toml | tail -1', shell=True, text=True, cwd='/repo').strip()
fixes = set(subprocess.check_output("git log --format=%H --grep=^fix:", shell=True, text=True, cwd='/repo').split())
for d in sorted(sys.argv[1:] or glob.glob('/verif/seeded/*')):
    f, tot, orig = None, 0, 0
    for l in open(os.path.join(d, 'patch.diff')):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            b = subprocess.check_output(['git', 'blame', '-l', '-s', f], cwd='/repo', text=True).splitlines()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith(' '):
            n += 1
        elif l.startswith('-') and not l.startswith('---'):
            c = b[n - 1].split()[0].lstrip('^')
            tot += 1
            orig += not any(x.startswith(c) for x in fixes)
            n += 1
    print(os.path.basename(d), 'changed', tot, 'original', orig, '' if orig else '  <-- NO ORIGINAL LINE')
