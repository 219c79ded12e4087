import sys,os,json
sys.path.insert(0,'/tmp/gen')
from seedlib import *
fresh()
for id in sys.argv[1:] or sorted(os.listdir(ROOT)):
    d=f'{ROOT}/{id}'
    reset()
    r=sh(f'git apply {d}/patch.diff',cwd=SC)
    if r.returncode: print(id,'APPLY',r.stderr); continue
    # removed lines: original?
    diff=sh('git diff -U0',cwd=SC).stdout
    r=sh('cargo build --offline',cwd=SC)
    if r.returncode: print(id,'BUILD FAIL',r.stderr[-800:]); continue
    r=sh('timeout 600 cargo test --offline 2>&1 | grep -E "^test .*(FAILED|panicked)|test result|error" ',cwd=SC)
    bad=[l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l]
    a=sh(f'bash {d}/demo.sh',cwd=SC); reset(); b=sh(f'bash {d}/demo.sh',cwd=SC)
    ok=not bad and a.returncode not in(0,3) and b.returncode==0
    print(id,'OK' if ok else 'BAD',bad[:4],a.returncode,b.returncode,flush=True)
