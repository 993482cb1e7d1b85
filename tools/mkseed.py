#!/usr/bin/env python3
"""Write a planted bug: seed(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text, srcs=[repo sources], flags)
creates /verif/seeded/<id>/ and checks in a scratch copy that the demo passes on /repo and fails with the patch."""
import json, os, shutil, subprocess, sys
V = "/verif"
SCR = "/tmp/seedscratch"
DEMO = '''#!/bin/bash
# run with cwd = repository root; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
clang++-18 -std=gnu++17 -w -O1 -pthread -fno-strict-aliasing -D_GNU_SOURCE -DNDEBUG -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS \\
  -I"$D/stubs" -I"$PWD/omniscidb" -I"$PWD/omniscidb/ThirdParty/rapidjson" -I"$PWD/omniscidb/ThirdParty" -I"$PWD/src" -I"$PWD/_build" -I/usr/lib/llvm-16/include %s \\
  "$D/demo.cpp" %s -o "$W/demo" -static -Wl,--unresolved-symbols=ignore-all %s || { echo "demo does not compile"; exit 3; }
cd "$W" && timeout 200 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def seed(id, prop, needs, breaks, edits, demo, srcs=(), flags="", libs="", stubs=()):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(f"{d}/stubs", ignore_errors=True)
    shutil.copytree(f"{V}/stubs/Logger", f"{d}/stubs/Logger")
    for x in stubs: shutil.copytree(f"{V}/stubs/{x}", f"{d}/stubs/{x}") if os.path.isdir(f"{V}/stubs/{x}") else shutil.copy(f"{V}/stubs/{x}", f"{d}/stubs/{x}")
    os.makedirs(SCR, exist_ok=True)
    r = sh(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "_build", "/repo/", f"{SCR}/repo/"])
    sh(["cp", "-a", "/repo/_build/MapDRelease.h", f"{SCR}/"])
    diff = ""
    byfile = {}
    for f, old, new in edits:
        t = byfile.get(f) or open(f"/repo/{f}").read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        byfile[f] = t.replace(old, new)
    for f, t in byfile.items():
        open(f"{SCR}/repo/{f}", "w").write(t)
        r = sh(["git", "diff", "--no-index", "--", f"/repo/{f}", f"{SCR}/repo/{f}"])
        x = r.stdout.replace(f"a/repo/{f}", f"a/{f}").replace(f"b{SCR}/repo/{f}", f"b/{f}")
        diff += x
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMO % (flags, " ".join(f'"$PWD/{s}"' for s in srcs), libs))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    ok = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
    bad = sh(["bash", f"{d}/demo.sh"], cwd=f"{SCR}/repo")
    ap = sh(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"])
    print(id, "clean rc", ok.returncode, "| patched rc", bad.returncode, "| apply", ap.returncode, "|", bad.stdout.strip()[-150:])
    if ok.returncode: print(ok.stdout[-1500:])
    if bad.returncode in (0, 3) or bad.returncode < 0: print("BAD DEMO", bad.stdout[-800:])
