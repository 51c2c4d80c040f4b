#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> : reads OLD/NEW pairs and main.rs from a spec on stdin.
Spec: lines '<<<FILE path', 'OLD', ..., 'NEW', ..., 'END' repeated; then '<<<NEEDS', '<<<BREAKS', '<<<MAIN'."""
import sys,subprocess,os,json,re
sid,prop=sys.argv[1:3]; spec=sys.stdin.read()
d=f'/verif/seeded/{sid}'; os.makedirs(d,exist_ok=True)
parts=re.split(r'^<<<(\w+) ?(.*)\n',spec,flags=re.M)[1:]
meta={'property':prop}; edits=[]
for k,a,b in zip(parts[::3],parts[1::3],parts[2::3]):
    if k=='FILE':
        for m in re.finditer(r'^OLD\n(.*?)^NEW\n(.*?)^END\n',b,re.S|re.M): edits.append((a.strip(),m[1],m[2]))
    elif k=='NEEDS': meta['needs']=b.strip()
    elif k=='BREAKS': meta['what_it_breaks']=b.strip()
    elif k=='MAIN': open(d+'/main.rs','w').write(b)
R='/tmp/seedgen'; subprocess.run(f'mkdir -p {R} && rm -rf /tmp/seedgen/src && git -C /repo archive HEAD | tar x -C {R}',shell=True,check=True)
subprocess.run(f'cd {R} && git init -q 2>/dev/null; git add -A; git -c user.name=x -c user.email=x commit -qm x',shell=True)
for f,o,n in edits:
    p=f'{R}/{f}'; s=open(p).read()
    assert s.count(o)==1,(f,s.count(o),o)
    open(p,'w').write(s.replace(o,n))
diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(diff); json.dump(meta,open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write('''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sshcerts = { path = "$repo" }
ring = "0.17"
base64 = "0.13"
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 2
timeout 100 "$t/target/debug/demo"
''')
print(diff)
