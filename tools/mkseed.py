"""seed(...) writes one planted bug under /verif/seeded (used while building; no check reads it)."""
import os, subprocess, shutil, json
V = os.environ.get("VDIR", "/verif"); KIT = V + "/tools/seedkit"; REPO = os.environ.get("VERIF_REPO", "/repo")
def seed(id, prop, edits, run, needs, breaks, model=None, driver=None, fake=False, demo=None, extra=None, flags=""):
    w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", REPO, w], check=True)
    for f, old, new in edits:
        s = open(w + "/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(w + "/" + f, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    o = V + "/seeded/" + id; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    open(o + "/patch.diff", "w").write(d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    s = demo or open(KIT + "/demo.sh").read()
    if flags: s = s.replace("$DEMOFLAGS", flags)
    open(o + "/demo.sh", "w").write(s)
    if run: open(o + "/run.go.txt", "w").write(run)
    if model:
        open(o + "/m.go.txt", "w").write(model)
        open(o + "/gen.go.txt", "w").write(open(KIT + "/gen.go.txt").read().replace("DRIVER", driver))
    if fake: shutil.copy(KIT + "/fake.go.txt", o)
    for k, v in (extra or {}).items(): open(o + "/" + k, "w").write(v)
    shutil.rmtree(w)
T = 'cmd/sqlgen/codegen/templates/db.go.tpl'; O = 'cmd/sqlgen/codegen/templates/operator.go.tpl'; G = 'cmd/sqlgen/codegen/generate.go'
