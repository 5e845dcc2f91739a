#!/usr/bin/env python3
"""Writes seeded/<id>/ from seeds/<id>.txt: sections '== property', '== needs', '== breaks',
'== edit FILE' (old text, '---', new text), '== main.rs'."""
import os, shutil, subprocess, sys, json, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sel = sys.argv[1:]
for f in sorted(glob.glob(root + "/tools/seeds/*.txt")):
    id = os.path.basename(f)[:-4]
    if sel and id not in sel: continue
    sec, cur = [], None
    for line in open(f):
        if line.startswith("== "):
            cur = [line[3:].strip(), ""]; sec.append(cur)
        else: cur[1] += line
    d = f"{root}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    meta, wt = {}, "/tmp/mkseed-wt"
    subprocess.run(["rm", "-rf", wt]); subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    for k, v in sec:
        if k.startswith("edit "):
            p = f"{wt}/{k[5:]}"; s = open(p).read(); old, new = v.split("---\n")
            old, new = old.rstrip("\n"), new.rstrip("\n")
            assert s.count(old) >= 1, (id, old)
            open(p, "w").write(s.replace(old, new, 1))
        elif k == "main.rs": open(d + "/main.rs", "w").write(v)
        else: meta[k] = " ".join(v.split())
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    main = open(d + "/main.rs").read()
    upnp = "easy_upnp" in main
    shutil.copy(root + "/tools/demo/" + ("demo-upnp.sh" if upnp else "demo-http.sh" if main.startswith("// http") else "demo.sh"), d + "/demo.sh")
    if upnp: shutil.copy(root + "/tools/demo/easy_upnp.rs", d)
    if "mod net;" in main: shutil.copy(root + "/tools/demo/net.rs", d)
    if "mod common;" in main: shutil.copy(root + "/tools/demo/common.rs", d)
    print(id, len(diff))
    subprocess.run(["rm", "-rf", wt])
