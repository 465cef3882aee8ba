#!/usr/bin/env python3
"""Plant bugs: reads a python file defining PLANTS = [dict(id, property, file, edits=[(old,new)], needs, breaks, demo)]
and, in a scratch copy of /repo, checks that each builds, passes the stable tests and that its demo
distinguishes it.  Kept ones go to /verif/seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
ENV.pop("PYTHONPATH", None)


def sh(cmd, cwd, t=600, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=t, capture_output=True, text=True)


def main():
    mod = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    scratch = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        r = os.path.join(scratch, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        for p in mod["PLANTS"]:
            if only and p["id"] not in only:
                continue
            sh("git checkout -- pyoptmat", r)
            ok = True
            for f, old, new in [(e if len(e) == 3 else (p["file"],) + tuple(e)) for e in p["edits"]]:
                path = os.path.join(r, f)
                s = open(path).read()
                n = s.count(old)
                k = p.get("nth", 0)
                if n == 0 or (n > 1 and "nth" not in p):
                    print(p["id"], "edit does not match", n, old[:60])
                    ok = False
                    break
                parts = s.split(old)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(path, "w").write(s)
            if not ok:
                continue
            patch = sh("git diff -- pyoptmat", r).stdout
            d = os.path.join(scratch, "demo")
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + p["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            a = sh(f"sh {d}/demo.sh", r, 300)
            b = sh(f"sh {d}/demo.sh", "/repo", 300)
            if a.returncode == 0 or b.returncode != 0:
                print(p["id"], "demo: patched", a.returncode, "clean", b.returncode, (a.stderr + b.stderr)[-600:])
                continue
            tst = p.get("tests", "test")
            t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider -n {os.environ.get('PLANT_J', '8')} --timeout=300 --disable-warnings {tst}", r, 1200)
            if t.returncode != 0:
                print(p["id"], "tests fail:", t.stdout[-300:])
                continue
            out = f"/verif/seeded/{p['id']}"
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(patch)
            for n in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(d, n), out)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            print(p["id"], "KEPT")
            sys.stdout.flush()
    finally:
        shutil.rmtree(scratch)


main()
