#!/usr/bin/env python3
# mkseeded.py < output of trybugs.sh > seeded.md
import sys, json, re
print('''# Planted bugs and the checks that catch them

Written by `tools/trybugs.sh | tools/mkseeded.py`. "found by" says how the check of the bug's property reported it: a failing input
found by running the real code after an obligation failed, or the failed obligation alone.

| bug | property | what it breaks | found by | failed obligation | time |
|---|---|---|---|---|---|''')
for l in sys.stdin:
    m = re.match(r'(\S+) (C\d\d) rc=(\d) (\d+s) (.*?) \| (.*) \| (.*)$', l.rstrip())
    if not m:
        m = re.match(r'(\S+) (C\d\d) rc=(\d) (\d+s) ?(.*?)\|(.*)\|(.*)$', l.rstrip())
    if not m: print('?? '+l[:80], file=sys.stderr); continue
    i, p, rc, t, v, inp, f = m.groups()
    meta = json.load(open('/verif/seeded/%s/meta.json' % i))
    how = 'missed' if rc != '1' else 'failing input' if 'failing input' in inp else 'obligation only'
    f = re.sub(r'^failed: ', '', f.split(';')[0]).replace('|', '\\|')[:90]
    w = meta['what_it_breaks'].replace('|', '\\|').replace('\n', ' ')
    print('| %s | %s | %s | %s | `%s` | %s |' % (i, p, w[:160], how, f.replace('`', "'"), t))
