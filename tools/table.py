"""Runs every check on every planted bug (in scratch copies) and rewrites the table in DESIGN.md."""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(os.listdir(V + '/seeded'))


def one(i):
    d = '/tmp/table_' + i
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff' % (d, d, V, i), shell=True, check=True)
    r = subprocess.run(['python3', V + '/check.py', '--all'], env=dict(os.environ, ZKSA_REPO=d), capture_output=True, text=True)
    shutil.rmtree(d)
    return i, sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))


with ThreadPoolExecutor(int(sys.argv[1]) if len(sys.argv) > 1 else 2) as ex:
    got = dict(ex.map(one, ids))
rows = ['| planted bug | property | reported by | what it breaks |', '|---|---|---|---|']
for i in ids:
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], ', '.join(got[i]) or 'none', m['what_it_breaks'].replace('|', '/')))
    print(rows[-1][:160])
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- table -->\n', '<!-- end of table -->'
if a not in s:
    raise SystemExit('no table marker in DESIGN.md')
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
