#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec file: python dict literal with id, property, needs, what_it_breaks, edits [(file, old, new)], demo (C++)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/mut/wt"
for spec in sys.argv[1:]:
    for s in eval(open(spec).read()):
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
        for f, old, new in s["edits"]:
            p = WT + "/" + f
            t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, old)
            i = s.get("nth", 0) if t.count(old) > 1 else 0
            pos = -1
            for _ in range(i + 1):
                pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
            open(p, "w").write(t)
        d = f"{V}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = subprocess.check_output(["git", "-C", WT, "diff"]).decode()
        open(d + "/patch.diff", "w").write(diff)
        for f in ("stim.h", "util.h", "demo.sh"):
            shutil.copy(f"{V}/tools/seedkit/{f}", d)
        if s.get("flags"):
            t = open(d + "/demo.sh").read().replace("${DEMO_FLAGS:-}", s["flags"])
            open(d + "/demo.sh", "w").write(t)
        for src, dst in s.get("files", ()):
            (shutil.copytree if os.path.isdir(f"{V}/{src}") else shutil.copy)(f"{V}/{src}", f"{d}/{dst}")
        if s.get("python"):
            open(d + "/demo.py", "w").write(open(f"{V}/tools/seedkit/stand_in.py").read() + s["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# Runs demo.py on src/pymatching/matching.py of the current directory, with stand-ins for the compiled module.\nexec timeout 200 python3-vt "$(dirname "$0")/demo.py"\n')
            os.remove(d + "/stim.h")
            os.remove(d + "/util.h")
        else:
            open(d + "/demo.cc", "w").write('#include "util.h"\n' + s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
        print("made", s["id"])
