# Plants a bug in scratch copies (/tmp/w/repo, /tmp/w/verif), validates it and runs the checks on it.
import subprocess,os,json,sys,re
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
DEMO='''#!/bin/bash
# Builds main.rs (beside this file) against the midi2 crate of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/midi2-demo.XXXXXX) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 3
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
midi2 = { path = "$PWD/midi2", features = ["channel-voice1","channel-voice2","flex-data","sysex7","sysex8","system-common","ump-stream","utility","ci"] }
[workspace]
EOT
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" 2>"$d/log" || { cat "$d/log" >&2; exit 3; }
"$d/target/debug/demo"
'''
R='/tmp/w/repo'; V='/tmp/w/verif'
def tests():
    t=sh(f'cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8; cargo test -p midi2 --all-targets --no-default-features --no-fail-fast --offline; cargo build -p midi2 --no-default-features --offline && cargo build -p midi2 --offline && cargo build -p handling_messages --offline && cargo build -p no_std_dynamic_message_generator --offline && cargo build -p midi2-fuzz --offline && echo BUILD-OK',cwd=R)
    o=t.stdout
    ps=sum(int(x) for x in re.findall(r'(\d+) passed',o)); f=sum(int(x) for x in re.findall(r'(\d+) failed',o))
    return ps,f,'BUILD-OK' in o
def plant(id,prop,edits,needs,breaks,main,others=()):
    sh(f'git -C {R} checkout -- .')
    base=[l for l in sh(f'git -C {R} log --format=%h%x20%s').stdout.splitlines() if l.endswith('base')]
    try:
        for f,o,n in edits:
            p=f'{R}/{f}'; s=open(p).read()
            if s.count(o)!=1:
                print(id,f,'COUNT',s.count(o)); return
            # original lines?
            l0=s[:s.index(o)].count('\n')+1; l1=l0+o.rstrip('\n').count('\n')
            bl=sh(f'git -C {R} blame -s -L {l0},{l1} {f}').stdout
            mine=[b for b in bl.splitlines() if not b.startswith('^')]
            if mine: print('   (my lines in region:',len(mine),'of',len(bl.splitlines()),')')
            open(p,'w').write(s.replace(o,n))
        diff=sh(f'git -C {R} diff').stdout
        d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        open(d+'/main.rs','w').write(main)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        t=tests()
        dm=sh(f'bash {d}/demo.sh',cwd=R)
        print(id,'tests:',t,"demo(patched):",dm.returncode,dm.stderr.strip()[-200:])
        ok=t[0]==713 and t[1]==0 and t[2] and dm.returncode not in(0,3)
        for q in (prop,)+tuple(others):
            ck=sh(f'SIM_REPLAY_DIR=/tmp/rr SIM_EVIDENCE_DIR=/tmp/rr bash {V}/check.sh {q} --tier quick',cwd=V)
            print('   check',q,ck.returncode,[l[:160] for l in ck.stdout.splitlines() if 'VIOL' in l or 'class' in l or 'ERR' in l], ck.stderr[-200:] if ck.returncode not in(0,1) else '')
    finally:
        sh(f'git -C {R} checkout -- .')
    dm=sh(f'bash {d}/demo.sh',cwd=R)
    print('   demo(clean):',dm.returncode,dm.stderr.strip()[-200:])
    if not ok or dm.returncode!=0: print('   *** NOT VALID ***')
    sys.stdout.flush()
if __name__=='__main__': print(tests())
