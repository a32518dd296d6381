"""What every check shares: the run context, findings, evidence, verdict."""
import json, os, re, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import tlc, ws

VERIF = ws.VERIF


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        os.environ["VERIF_TIER"], os.environ["VERIF_SEED"] = self.tier, str(self.seed)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.total = 0
        self._ws = None
        self.tlc_runs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def ws(self):
        if self._ws is None:
            self._ws = ws.Workspace()
        return self._ws

    @property
    def tmp(self):
        return self.ws.dir

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- model checking
    def tlc(self, module, consts, **kw):
        r = tlc.run(module, consts, self.tmp, seed=self.seed, **kw)
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.tlc_runs.append({"module": module, "states": r["states"], "transitions": r["transitions"]})
        return r

    def tlc_all(self, jobs, par=7):
        """jobs: list of (module, consts, kwargs)"""
        with ThreadPoolExecutor(par) as ex:
            return list(ex.map(lambda j: self.tlc(j[0], j[1], **j[2]), jobs))

    # ---- replayers
    def replay(self, binary, args, env=None, timeout=800, race=False):
        """Runs a replayer and takes in its report."""
        p = self.ws.run([binary] + args, check=False, timeout=timeout, env=env)
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            if self.crashed(p.stderr):
                return {}
            raise RuntimeError("replayer %s %s gave no report (exit %s): %s" % (
                os.path.basename(binary), args[0], p.returncode, (p.stdout + p.stderr)[-3000:]))
        self.take(r)
        return r

    def crashed(self, err):
        """a crash of the process inside the code under test is a violation"""
        m = re.search(r"(?m)^(panic: |fatal error: |runtime: goroutine stack exceeds).*", err)
        g = re.search(r"(?ms)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[running.*?(?=^goroutine |\Z)", err)
        if not m or not g:
            return False
        for l in g.group(0).splitlines()[1:]:
            f = re.match(r"^((?:[\w.~%-]+/)*)([\w-]+)\.", l)
            if not f or l.startswith("created by"):
                continue
            path = (f.group(1) or "") + f.group(2)
            if re.match(r"github\.com/si3nloong/sqlgen|verifws/f/\w+/(db|std|hand|vals|m\w*|q\w*)$", path):
                self.violation("crash", path, "the process crashes", None, m.group(0) + "\n" + g.group(0)[:3000])
                return True
            if path.startswith("verifws/") or path == "main":
                return False
        return False

    def take(self, r):
        self.cov["traces_validated_against_impl"] += r.get("runs", 0)
        self.cov["peak_mb"] = max(self.cov.get("peak_mb", 0), r.get("peak_mb", 0))
        for k, v in (r.get("counts") or {}).items():
            d = self.cov.setdefault("executions_by_model", {})
            d[k] = d.get(k, 0) + v
        for s in (r.get("samples") or []):
            if len(self.cov["samples"]) < 8:
                self.cov["samples"].append(s)
        self.total += r.get("total_violations", 0)
        for v in r.get("violations") or []:
            self.viol.append(v)

    def violation(self, sig, where, what, case=None, detail=""):
        self.total += 1
        self.viol.append({"sig": sig, "where": where, "what": what, "case": case, "detail": detail})

    # ---- verdict
    def finish(self):
        known, fresh, seen = [], [], {}
        kf = [k for k in known_findings() if k.get("property") == self.prop and k.get("status", "known") == "known"]
        for v in self.viol:
            text = json.dumps(v, sort_keys=True)
            for k in kf:
                if all(re.search(p, v.get(f) if isinstance(v.get(f), str) else json.dumps(v.get(f), sort_keys=True))
                       for f, p in k["match"].items()):
                    seen[k["id"]] = seen.get(k["id"], 0) + 1
                    known.append(v)
                    break
            else:
                fresh.append(v)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.cov["tlc_runs"] = self.tlc_runs
        self.cov["known_finding_hits"] = seen
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh), "assumptions": self.assumptions}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if not fresh:
            self.log("held on everything explored:", json.dumps({k: self.cov[k] for k in
                     ("states", "transitions", "traces_validated_against_impl")}))
            return 0
        rp = os.path.join(VERIF, "evidence", self.prop + ".replay.json")
        json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": fresh[:60]},
                  open(rp, "w"), indent=1)
        shown = set()
        for v in fresh:
            key = (v["sig"], v["where"])
            if key in shown or len(shown) >= 12:
                continue
            shown.add(key)
            print("  %s: %s\n    %s" % (v["where"], v["what"], (v.get("detail") or "")[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
        return 1


def main(prop, level, fn):
    c = Ctx(prop, level)
    try:
        try:
            fn(c)
        except ws.GenFailure as e:
            c.violation("generation", "generator", e.what, None, e.detail)
            if not c.cov["traces_validated_against_impl"]:
                c.cov["note"] = "generation or compilation of generated code failed: nothing replayed"
        rc = c.finish()
    except ws.Broken as e:
        print("the tree does not build, no verdict:", e)
        rc = 2
    except tlc.TLCError as e:
        print("the specification failed its own check, no verdict:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if c._ws is not None:
            c._ws.close()
    sys.exit(rc)
