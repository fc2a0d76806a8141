"""mk.py SPEC.py ID...: build seeded/<id> from a spec (dict BUGS: id -> dict(property, edits, needs, breaks, demo)), try it out.
Prints: apply ok, tests, demo on the clean tree, demo on the patched tree, own check on the patched tree."""
import json, os, shutil, subprocess, sys
V=os.environ.get('V') or '/verif'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
ns={}
exec(open(sys.argv[1]).read(), ns)
ids=sys.argv[2:] or list(ns['BUGS'])
notest=os.environ.get('NOTEST')
for i in ids:
    b=ns['BUGS'][i]
    d=f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
    w=f'/tmp/bug_{i}'; shutil.rmtree(w, ignore_errors=True); sh(f'cp -a /repo {w}')
    res=[]
    for f,o,n in b['edits']:
        p=f'{w}/openptv_python/{f}'; t=open(p).read()
        if t.count(o)!=1: res.append(f'EDIT {f} matches {t.count(o)}: {o[:60]!r}'); continue
        # every removed line must be original
        open(p,'w').write(t.replace(o,n))
    diff=sh(f'git -C {w} diff').stdout
    open(f'{d}/patch.diff','w').write(diff)
    # blame of removed lines
    for f in {e[0] for e in b['edits']}:
        import re
        bl=sh(f'git -C {w} blame -s HEAD -- openptv_python/{f}').stdout.split('\n')
        u=sh(f'git -C {w} diff -U0 -- openptv_python/{f}').stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u, re.M):
            s,c=int(m[1]),int(m[2] or 1)
            for k in range(s,s+c):
                if not bl[k-1].startswith('^') : res.append(f'NOT ORIGINAL: {bl[k-1]}')
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(f'{d}/meta.json','w'),indent=1)
    shutil.copy(f'{V}/tools/bug/demo.sh',f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/demo.py','w').write(b['demo'].lstrip('\n'))
    if 'from helper' in b['demo'] or 'import helper' in b['demo']: shutil.copy(f'{V}/tools/bug/helper.py',f'{d}/helper.py')
    a=sh(f'bash {d}/demo.sh',cwd='/repo'); res.append(f'clean={a.returncode}')
    if a.returncode: res.append(a.stderr[-1500:])
    a=sh(f'bash {d}/demo.sh',cwd=w); res.append(f'patched={a.returncode}')
    if 'VERB' in os.environ: res.append(a.stderr[-600:])
    if not notest:
        t=sh(f'cd {w} && PYTHONPATH={w} NUMBA_CACHE_DIR=/tmp/nb_{i} timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | grep -E "^FAILED|passed|failed|error" | tail -6; rm -rf /tmp/nb_{i}')
        tail=t.stdout.strip().split('\n'); res.append('tests: '+' / '.join(tail))
    if 'NOCHECK' not in os.environ:
        p=b['property']
        a=sh(f'MC_REPO={w} VERIF_SEED=1 timeout 900 ./check {p}',cwd=V)
        vl=[l for l in a.stdout.split('\n') if 'VIOLATION' in l]
        res.append(f'check {p} rc={a.returncode} '+(vl[0] if vl else 'NOT CAUGHT'))
    print(i,'|',' | '.join(res),flush=True)
    shutil.rmtree(w, ignore_errors=True)
