"""Plant one bug: mkseed.py SPEC.py  (SPEC defines S = list of dicts).
Confirms in a scratch copy that the change applies, passes the stable tests and
that the demonstration passes without and fails with it; then stores it."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
def sh(c, cwd, t=300):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=t)
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def main(path):
    for s in runpy.run_path(path)["S"]:
        w = "/tmp/seedw"
        shutil.rmtree(w, ignore_errors=True)
        sh("cp -a /repo %s" % w, "/")
        d = os.path.join(V, "seeded", s["id"])
        tmp = "/tmp/seedd"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write("import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\n" + s["demo"])
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        for f, c in s.get("files", {}).items():
            open(tmp + "/" + f, "w").write(c)
        r0 = sh("bash %s/demo.sh" % tmp, w)
        for f, old, new in s["edits"]:
            t = open(os.path.join(w, f)).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT COUNT", t.count(old), f); break
            open(os.path.join(w, f), "w").write(t.replace(old, new))
        else:
            r1 = sh("bash %s/demo.sh" % tmp, w)
            names = [t.split("::") for t in STABLE]
            tests = " ".join("%s::%s" % (a.split(".test_")[0].replace(".", "/") + "/test_" + a.split(".test_")[1].replace(".", ".py::", 1) if "." in a.split(".test_")[1] else a.replace(".", "/") + ".py", b) for a, b in names)
            rt = sh("MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 %s -m pytest -q -p no:cacheprovider %s" % (PY, tests), w)
            ok = r0.returncode == 0 and r1.returncode != 0 and ("%d passed" % len(STABLE)) in rt.stdout
            print(s["id"], s["property"], "ok" if ok else "REJECTED", "clean rc", r0.returncode, "bug rc", r1.returncode, rt.stdout.strip().splitlines()[-1])
            if not ok:
                print(r0.stdout[-1500:]); print(r1.stdout[-800:]); continue
            diff = sh("git diff", w).stdout
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if "-n" not in sys.argv:
                c = sh("VERIF_REPO=%s ./bin/check %s quick" % (w, s["property"]), V, 900)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                print("   check rc", c.returncode, v[:1], c.stdout.strip().splitlines()[-1][:200] if not v else "")
    shutil.rmtree("/tmp/seedw", ignore_errors=True); shutil.rmtree("/tmp/seedd", ignore_errors=True)
main(sys.argv[1])
