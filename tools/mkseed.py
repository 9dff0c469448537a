#!/usr/bin/env python3
"""Creates seeded/<id> from an edit list and a demo program; confirms demo passes on /repo and fails with the patch."""
import sys, os, json, subprocess, shutil
V = "/verif"; R = os.environ.get("VP_REPO", "/repo")
def seed(id, prop, edits, needs, breaks, demo, link=(), flags="", meshes=True):
    d = V + "/seeded/" + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    wt = "/tmp/seedwt"; shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "-C", R, "worktree", "prune"]); subprocess.check_call(["git", "-C", R, "worktree", "add", "-q", "--detach", "-f", wt, "HEAD"])
    try:
        for f, a, b in edits:
            f = f if f.startswith("libdiskpp") else "libdiskpp/include/diskpp/" + f
            s = open(wt + "/" + f).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(wt + "/" + f, "w").write(s.replace(a, b))
        p = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout.decode()
        open(d + "/patch.diff", "w").write(p)
        if meshes:
            shutil.copy(V + "/lib/meshes.hpp", d + "/meshes.hpp"); shutil.copy(V + "/lib/vp.hpp", d + "/vp.hpp")
            demo = '#include "meshes.hpp"\n' + demo
        open(d + "/demo.cpp", "w").write("#include <cstdio>\n#include <cmath>\n#include <cstdlib>\n#include <iostream>\n" + demo)
        jb = " ".join("libdiskpp/contrib/jburkardt/src/%s.cpp" % x for x in ("jb_common", "simplex_gm_rule", "tetrahedron_arbq_rule", "triangle_dunavant_rule")) if "jb" in link else ""
        ex = " ".join(l for l in link if l not in ("jb", "triangle"))
        tri = "gcc -w -O1 -DTRILIBRARY -DREDUCED -DCDT_ONLY -I libdiskpp/contrib/triangle -c libdiskpp/contrib/triangle/triangle_mesher.c -o $T/t.o || exit 1\n" if "triangle" in link else ""
        open(d + "/demo.sh", "w").write("""#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%sg++ -std=c++20 -O1 -w %s -I "$D" -I libdiskpp/include -I libdiskpp/contrib/jburkardt/include -I libdiskpp/contrib/triangle -I /usr/include/eigen3 "$D/demo.cpp" %s %s %s -o "$T/demo" || exit 1
cd "$T" && ./demo
""" % (tri, flags, jb, ex, "$T/t.o" if tri else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(id, "clean rc", a.returncode, "patched rc", b.returncode, (b.stdout or b"").decode()[-300:])
        if a.returncode: print(a.stdout.decode()[-1500:])
    finally:
        subprocess.run(["git", "-C", R, "worktree", "remove", "--force", wt])
