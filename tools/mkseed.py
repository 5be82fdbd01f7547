"""mkseed.py: writes /verif/seeded/<id>/ from the descriptions in tools/seedlib/*.py (each a dict SEEDS)."""
import glob, json, os, subprocess, sys, shutil
ROOT="/verif/seeded"; REPO="/repo"
DEMO='''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken. cwd is the crate.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
atomic-maybe-uninit = { path = "$repo" }
[workspace]
[profile.release]
debug-assertions = false
EOF
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export REPO="$repo" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=%(tc)s RUSTFLAGS="%(flags)s"
cd "$w" || exit 2
timeout -k 5 %(t)d cargo %(cmd)s
'''
def main(only):
    for f in sorted(glob.glob("/verif/tools/seedlib/*.py")):
        g={}; exec(open(f).read(),g)
        for id_,s in g["SEEDS"].items():
            if only and id_ not in only: continue
            d=os.path.join(ROOT,id_); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
            saved={}
            for path,old,new in s["edits"]:
                p=os.path.join(REPO,path); t=open(p).read(); saved.setdefault(p,t)
                n=t.count(old); want=s.get("count",1)
                assert n>=1 and (n==want or want=="any"),(id_,path,n,old)
                open(p,"w").write(t.replace(old,new))
            try: diff=subprocess.run(["git","-C",REPO,"diff"],capture_output=True,text=True,check=True).stdout
            finally:
                for p,t in saved.items(): open(p,"w").write(t)
            open(d+"/patch.diff","w").write(diff)
            open(d+"/demo.sh","w").write(s["demo_sh"] if "demo_sh" in s else DEMO%dict(tc=s.get("tc","1.97.0"),flags=s.get("flags",""),t=s.get("t",200),cmd=s.get("cmd","run -q --offline --release")))
            os.chmod(d+"/demo.sh",0o755)
            if "main" in s: open(d+"/main.rs","w").write(s["main"])
            for n,c in s.get("files",{}).items(): open(os.path.join(d,n),"w").write(c)
            json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
main(sys.argv[1:])
