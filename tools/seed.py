#!/usr/bin/env python3
"""Usage: seed.py FILE.py [ID...]   FILE defines SEEDS: id, property, needs, breaks, edits, demo (Rust) or sh.
Applies each change to /repo, confirms it (tests pass, demo fails; without it the demo passes),
stores it in /verif/seeded/ID, runs the property's quick check against it, and undoes it."""
import json,os,subprocess,sys,runpy
V='/verif'
TOML='''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rekordcrate = { path = "REPO" }
binrw = "0.15"
quick-xml = { version = "0.40.1", features = ["serialize", "serde-types"] }
fallible-iterator = "0.3.0"
[workspace]
'''
DEMO='''#!/bin/bash
# Exit 0: the property holds. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" || exit 3
sed "s|REPO|$repo|" > "$d/Cargo.toml" <<'T'
%sT
cd "$d" || exit 3
export CARGO_TARGET_DIR=${SEED_TARGET:-$d/target}
cargo build --offline -q || exit 3
cd "$repo" || exit 3
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
'''%TOML
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def revert(): sh('git -C /repo checkout -- .')
g=runpy.run_path(sys.argv[1]); only=sys.argv[2:]
env=dict(os.environ,SEED_TARGET='/tmp/seedtarget')
for s in g['SEEDS']:
    i=s['id']
    if only and i not in only: continue
    assert not sh('git -C /repo status --porcelain').stdout, 'repo dirty'
    d=f'{V}/seeded/{i}'; ok=True
    try:
        for f,a,b in s['edits']:
            p='/repo/'+f; t=open(p).read()
            if t.count(a)<1: print(i,'EDIT NOT FOUND',f,a[:60]); ok=False; break
            if t.count(a)>1: print(i,'EDIT NOT UNIQUE',f,a[:60]); ok=False; break
            base=sh(f'git -C /repo show 4f67d93:{f}').stdout
            import difflib
            for l in difflib.unified_diff(a.split('\n'),b.split('\n'),n=0,lineterm=''):
                if l[0]=='-' and l[:3]!='---' and l[1:] not in base: print(i,'CHANGES A LINE OF MINE:',l)
            open(p,'w').write(t.replace(a,b))
        if not ok: continue
        diff=sh('git -C /repo diff').stdout
        r=sh(f'{V}/tools/tests.sh')
        if "missing [] failed []" not in r.stdout: print(i,'TESTS FAIL:',r.stdout[-600:]); continue
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        if 'demo' in s:
            open(d+'/main.rs','w').write(s['demo']); open(d+'/demo.sh','w').write(s.get('sh',DEMO))
        else: open(d+'/demo.sh','w').write(s['sh'])
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh(f'bash {d}/demo.sh',cwd='/repo',env=env)
        if r.returncode in (0,3): print(i,'DEMO WITH PATCH:',r.returncode,r.stdout[-300:],r.stderr[-1500:]); ok=False
        c=sh(f'./check.sh {s["property"]} quick',cwd=V)
        v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION property='+s['property'])]
        print(i,'CAUGHT' if c.returncode==1 and v else f'MISSED rc={c.returncode}', (v[0][:230] if v else c.stdout[-200:]+c.stderr[-300:]),flush=True)
    finally: revert()
    if ok:
        r=sh(f'bash {d}/demo.sh',cwd='/repo',env=env)
        if r.returncode!=0: print(i,'DEMO UNCHANGED FAILS',r.returncode,r.stdout[-300:],r.stderr[-1500:])
sh(f'bash {V}/tools/tests.sh')
