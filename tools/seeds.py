"""seeds.py [ID...]: applies each planted bug of /verif/seeded to /repo, runs its property's check, undoes it,
and writes the result to tools/seeds.json; --table puts all results into DESIGN.md."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = V + '/tools/seeds.json'
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
ids = [a for a in sys.argv[1:] if a != '--table']
if not ids and '--table' not in sys.argv:
    ids = sorted(os.listdir(V + '/seeded'))
git = lambda *a: subprocess.run(['git', '-C', '/repo', *a], check=True)
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    t = time.time()
    git('apply', d + '/patch.diff')
    try:
        p = subprocess.run([sys.executable, V + '/check.py', m['property']], cwd=V, capture_output=True, text=True)
    finally:
        git('checkout', '-q', '--', '.')
    e = json.load(open(V + '/evidence/%s.json' % m['property']))['coverage']
    res[i] = {'rc': p.returncode, 'seconds': int(time.time() - t), 'input': 'failing input' in p.stdout,
              'rejected': sorted({r['fn'] for r in e['rejected']}), 'bounded': [b if isinstance(b, str) else b.get('function', str(b)) for b in e['bounded_stand_ins']]}
    print(i, json.dumps(res[i])[:300], flush=True)
    json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)
if '--table' in sys.argv:
    rows = []
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(V + '/seeded/%s/meta.json' % d))
        r = res.get(d)
        how = '?' if r is None else 'MISSED' if r['rc'] != 1 else ('proof rejected: ' + ', '.join(r['rejected'][:2]) if r['rejected'] else 'stand-in for ' + ', '.join(r['bounded'][:2]) if r['bounded'] else 'oracle only') + (' + input' if r['input'] else '')
        rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], how))
    s = open(V + '/DESIGN.md').read()
    t = '| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n'
    s = re.sub(r'\| id \|.*?\n\n', lambda m: t + '\n', s, flags=re.S)
    open(V + '/DESIGN.md', 'w').write(s)
