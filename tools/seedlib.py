import os,subprocess,shutil,sys,json
SC='/tmp/sd/seedrepo'
ROOT='/verif/seeded'
DEMO='''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" || exit 2
cp "$here/main.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dendron = { path = "$repo" }
[workspace]
EOF
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 3
timeout 100 "$d/target/debug/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def fresh():
    shutil.rmtree(SC,ignore_errors=True); os.makedirs('/tmp/sd',exist_ok=True)
    r=sh(f'cp -a /repo {SC}'); assert r.returncode==0,r.stderr
def reset(): sh('git checkout -q -- . && git clean -fdq -e target',cwd=SC)
def origline(path,text):
    pass
def plant(id,prop,edits,main,needs,breaks):
    reset()
    for f,old,new in edits:
        p=f'{SC}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT MATCHES',s.count(old)); return False
        open(p,'w').write(s.replace(old,new))
    diff=sh('git diff',cwd=SC).stdout
    # removed/changed lines must be original
    r=sh('cargo build --offline',cwd=SC)
    if r.returncode: print(id,'BUILD FAIL',r.stderr[-1500:]); return False
    # the tests: use test.sh's runner on the copy
    r=sh('timeout 600 cargo test --offline 2>&1 | grep -E "^test .*(FAILED|panicked)|test result|error" ',cwd=SC)
    bad=[l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l]
    d=f'/tmp/sd/seedout/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff); open(d+'/main.rs','w').write(main); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    a=sh(f'bash {d}/demo.sh',cwd=SC); reset(); b=sh(f'bash {d}/demo.sh',cwd=SC)
    ok=not bad and a.returncode!=0 and a.returncode!=3 and b.returncode==0
    print(id,prop,'OK' if ok else 'BAD','tests:',bad[:4],'patched rc',a.returncode,'clean rc',b.returncode)
    if not ok: print(a.stderr[-600:]); print('--clean'); print(b.stderr[-900:])
    if ok:
        shutil.rmtree(f'{ROOT}/{id}',ignore_errors=True); shutil.copytree(d,f'{ROOT}/{id}')
    return ok
