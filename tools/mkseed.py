#!/usr/bin/env python3
"""mkseed.py <id> <property> <needs> <what>: completes /verif/seeded/<id>/ (which holds patch.diff and
scenario.rs) with the demonstration kit, demo.sh and meta.json."""
import json,os,re,shutil,sys
root=os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
H=root+"/harness"
def make(id,prop,needs,what,progs=("asset",)):
    d=f"{root}/seeded/{id}"; kit=d+"/kit"
    shutil.rmtree(kit,ignore_errors=True); os.makedirs(kit+"/demo/src")
    shutil.copytree(H+"/shim-common",kit+"/shim-common"); shutil.copytree(H+"/vendor",kit+"/vendor")
    for p in progs:
        shutil.copytree(f"{H}/shim-{p}",f"{kit}/shim-{p}")
        f=f"{kit}/shim-{p}/Cargo.toml"; s=open(f).read().replace("../../../repo","@REPO@"); open(f,"w").write(s)
    mem=", ".join('"%s"'%m for m in ["shim-common","demo"]+["shim-"+p for p in progs])
    open(kit+"/Cargo.toml","w").write(f'''[workspace]
resolver = "2"
members = [{mem}]
exclude = ["vendor"]

[patch.crates-io]
nitrate-program = {{ path = "vendor/nitrate-program" }}

[profile.dev]
debug = 0
overflow-checks = false
''')
    open(kit+"/demo/Cargo.toml","w").write('''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
shim-common = { path = "../shim-common" }
solana-program = "~1.16"
libc = "0.2"
''')
    shutil.copy(H+"/Cargo.lock",kit+"/Cargo.lock")
    for f in ("svm.rs","ids.rs","view.rs","tokenmeta.rs"):
        s=open(f"{H}/monitor/src/{f}").read()
        open(f"{kit}/demo/src/{f}","w").write("#![allow(dead_code)]\n"+s if not s.startswith("//!") else s)
    m=open(H+"/monitor/src/model.rs").read()
    a=m.index("#[derive(Clone, Debug, PartialEq)]\npub struct ExtIn"); b=m.index("struct Rd<'a>")
    open(kit+"/demo/src/op.rs","w").write("//! Instructions and their encoding.\n"+m[a:b])
    shutil.copy(root+"/tools/kit/kit.rs",kit+"/demo/src/kit.rs")
    shutil.copy(root+"/tools/kit/demo.sh",d+"/demo.sh"); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
if __name__=="__main__":
    make(*sys.argv[1:5],progs=tuple(sys.argv[5].split(",")) if len(sys.argv)>5 else ("asset",))
