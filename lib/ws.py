"""Workspace: a scratch Go workspace that builds /repo's current tree together
with the harness, generates the model corpus and compiles the replayers."""
import os, subprocess, tempfile, shutil, json, atexit, sys, re, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")

FLAVOURS = {
    "my":  ("mysql", False),
    "myq": ("mysql", True),
    "pg":  ("postgres", False),
    "pgq": ("postgres", True),
    "sq":  ("sqlite", False),
    "sqq": ("sqlite", True),
}


class Broken(Exception):
    """The repository itself does not build: no verdict."""


class GenFailure(Exception):
    """Generated code failed to generate or to compile."""
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def goenv():
    if "_VERIF_ENV" not in globals():
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
        env.update({k: v for k, v in os.environ.items() if k.startswith("VERIF_")})
        env["CGO_CFLAGS"] = "-O0 -g0"
        env.pop("GOFLAGS", None)
        globals()["_VERIF_ENV"] = env
    return dict(globals()["_VERIF_ENV"])


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verifws.", dir="/tmp")
        atexit.register(self.close)
        self.env = goenv()
        w = self.dir
        self.h = os.path.join(w, "h")
        os.mkdir(self.h)
        open(os.path.join(w, "go.work"), "w").write(
            "go 1.24.0\n\nuse (\n\t%s\n\t%s/cmd/sqlgen\n\t%s/examples\n\t./h\n)\n" % (REPO, REPO, REPO))
        shutil.copy(REPO + "/go.work.sum", w)
        mod = open(REPO + "/examples/go.mod").read()
        mod = re.sub(r"(?m)^module .*$", "module verifws", mod)
        mod = re.sub(r"(?m)^replace .*$", "", mod)
        open(os.path.join(self.h, "go.mod"), "w").write(mod)
        shutil.copy(REPO + "/examples/go.sum", self.h)
        for d in ("engine", "kit", "gencmd"):
            shutil.copytree(os.path.join(H, d), os.path.join(self.h, d))
        self.env["GOFLAGS"] = "-mod=mod" if False else ""
        self.env["GOWORK"] = os.path.join(w, "go.work")

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            return
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, args, cwd=None, timeout=600, check=True, env=None):
        e = dict(self.env)
        e.update(env or {})
        p = subprocess.run(args, cwd=cwd or self.h, env=e, capture_output=True, text=True, timeout=timeout)
        if check and p.returncode != 0:
            raise Broken("%s failed:\n%s%s" % (" ".join(args), p.stdout[-4000:], p.stderr[-4000:]))
        return p

    def build(self, pkg, out, generated=False, tags=None, overlay=None, race=False):
        """Compiles a package; a failure blamed on generated code is a finding."""
        args = ["go", "build"]
        if race:
            args.append("-race")
        if tags:
            args += ["-tags", tags]
        if overlay:
            args += ["-overlay", overlay]
        args += ["-o", os.path.join(self.dir, out), pkg]
        p = self.run(args, check=False)
        if p.returncode != 0:
            msg = p.stdout + p.stderr
            if "signal: killed" in msg:
                raise Broken("the compiler was ended:\n" + msg[-3000:])
            if generated and not self.repo_builds():
                raise Broken("the repository does not build:\n" + msg[-3000:])
            if generated:
                raise GenFailure("generated code does not compile", msg[-4000:])
            raise Broken("build of %s failed:\n%s" % (pkg, msg[-4000:]))
        return os.path.join(self.dir, out)

    def repo_builds(self):
        a = self.run(["go", "build", "./..."], cwd=REPO + "/cmd/sqlgen", check=False)
        b = self.run(["go", "build", "./..."], cwd=REPO, check=False)
        return a.returncode == 0 and b.returncode == 0

    def gen_binary(self):
        p = os.path.join(self.dir, "gencmd")
        if not os.path.exists(p):
            self.build("./gencmd", "gencmd")
        return p

    def generate(self, jobs, timeout=None, name="jobs"):
        """Runs the generator; returns the list of messages ("ok" or "error: ...")."""
        g = self.gen_binary()
        timeout = timeout or (1800 if os.environ.get("VERIF_TIER") == "thorough" else 400)
        f = os.path.join(self.dir, name + ".json")
        json.dump(jobs, open(f, "w"))
        try:
            p = self.run([g, f], timeout=timeout, check=False)
        except subprocess.TimeoutExpired:
            return ["error: no answer in %d s" % timeout] * len(jobs)
        out = ["error: no answer (crash) " + p.stderr[-2000:]] * len(jobs)
        for l in p.stdout.splitlines():
            m = re.match(r'^(\d+) (".*")$', l)
            if m:
                out[int(m.group(1))] = json.loads(m.group(2)) if not "\\x" in m.group(2) else m.group(2)
        return out

    def sub(self, src, dst, rep):
        s = open(src).read()
        for k, v in rep.items():
            s = s.replace(k, v)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write(s)

    def corpus(self, flavours):
        """Database model corpus: generated code and adapters per flavour."""
        jobs = []
        for fl in flavours:
            drv, quote = FLAVOURS[fl]
            rep = {"FLAVOUR": fl, "DRIVER": drv}
            base = os.path.join(self.h, "f", fl)
            m = os.path.join(H, "models")
            self.sub(m + "/std.go.txt", base + "/std/std.go", rep)
            self.sub(m + "/hand.go.txt", base + "/hand/hand.go", rep)
            jobs.append(dict(Driver=drv, Quote=quote, Source=["./f/%s/std" % fl], DB="f/%s/db" % fl, DBPkg="db"))
            a = os.path.join(H, "adapter")
            self.sub(a + "/common.go.txt", base + "/ad/common.go", rep)
            self.sub(a + ("/pg.go.txt" if drv == "postgres" else "/my.go.txt"), base + "/ad/drv.go", rep)
            self.sub(a + "/ops.go.txt", base + "/ad/ops.go", rep)
            self.sub(m + "/reg.go.txt", base + "/ad/reg.go", rep)
        res = self.generate(jobs)
        for j, r in zip(jobs, res):
            if r != "ok":
                raise GenFailure("generation failed for %s" % j["Driver"], r)
        fl = os.path.join(self.h, "flav")
        os.makedirs(fl, exist_ok=True)
        s = "package flav\n\nimport (\n\t\"verifws/kit\"\n"
        for f in flavours:
            s += "\t%s \"verifws/f/%s/ad\"\n" % (f, f)
        s += ")\n\n// All lists the flavours.\nvar All = []*kit.Env{%s}\n" % ", ".join(f + ".Env" for f in flavours)
        open(fl + "/flav.go", "w").write(s)

    def harness(self, name):
        d = os.path.join(self.h, name)
        if not os.path.exists(d):
            shutil.copytree(os.path.join(H, name), d)
        return "./" + name
