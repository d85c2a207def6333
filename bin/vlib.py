"""Common machinery of the checks: build, drivers, TLC, verdicts, evidence."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
B = os.path.join(BUILD, "b")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_btl_vader_eager_limit": "65536", "OMPI_MCA_btl_self_eager_limit": "65536",
    "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm": "isolated",
    "OMPI_MCA_oob_tcp_if_include": "lo",
    "HWLOC_COMPONENTS": "-gl,-opencl,-cuda",
    "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
}


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def env(extra=None):
    e = dict(os.environ)
    e.update(ENV)
    e.pop("DISPLAY", None)
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


# ---------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    src = os.path.join(REPO, "src")
    for root, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "docs", "examples", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p):
                continue
            h.update(os.path.relpath(p, src).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(VERIF, "cmake/CMakeLists.txt"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def build(targets, log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    e = env({"CCACHE_DIR": os.path.join(BUILD, "ccache"), "CCACHE_MAXSIZE": "3G",
             "CCACHE_SLOPPINESS": "time_macros"})
    try:
        stamp = os.path.join(BUILD, "stamp")
        h = tree_hash()
        if not (os.path.exists(stamp) and open(stamp).read() == h
                and os.path.exists(os.path.join(B, "build.ninja"))):
            # time stamps are not trusted: a changed tree gets a fresh build tree
            shutil.rmtree(B, ignore_errors=True)
            r = subprocess.run(
                ["cmake", "-S", os.path.join(VERIF, "cmake"), "-B", B, "-G", "Ninja",
                 "-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
                 "-DCMAKE_C_FLAGS=-O1 -g0 -w", "-DCMAKE_CXX_FLAGS=-O1 -g0 -w",
                 "-DS=" + os.path.join(REPO, "src"), "-DPython3_EXECUTABLE=/usr/bin/python3.12"],
                env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("cmake failed:\n" + r.stdout[-4000:])
            with open(stamp, "w") as fh:
                fh.write(h)
        r = subprocess.run(["ninja", "-C", B] + targets, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def drv(name):
    return os.path.join(B, "drv", name)


# ---------------------------------------------------------------- processes
def run(cmd, timeout, extra_env=None, cwd=None):
    """returncode (or 'timeout'), stdout+stderr"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env(extra_env), cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return "timeout", out.decode("utf-8", "replace")


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(spec, cfg, work, extra_env, timeout=600, mem="3g", args=()):
    """Run TLC; returns dict(ok, states, distinct, out)."""
    meta = os.path.join(work, "meta_%s_%d_%d" % (spec, os.getpid(), int(time.time() * 1e6)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC", "-workers", "1", "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg + ".cfg"] + list(args) + [spec + ".tla"]
    rc, out = run(cmd, timeout, extra_env, cwd=os.path.join(VERIF, "spec"))
    shutil.rmtree(meta, ignore_errors=True)
    m = STATES.findall(out)
    return {"rc": rc, "ok": rc == 0, "out": out,
            "states": int(m[-1][1]) if m else 0, "transitions": int(m[-1][0]) if m else 0}


def rejected(r):
    """TLC turned the recorded execution down: it is no behaviour of the spec,
    or not even a value the spec has a meaning for (evaluation error)."""
    o = r["out"]
    if "MISMATCH" in o or "is violated" in o:
        return True
    return "The error occurred when TLC was evaluating the nested" in o and \
        not any(w in o for w in ("OutOfMemory", "StackOverflow", "IOException", "FileNotFound", "overrides.Json"))


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- a check run
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replay_dir = os.path.join(BUILD, "replay", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        os.makedirs(self.replay_dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "model_transitions_replayed": 0, "parts": [],
                    "samples": []}
        self.violations = []
        self.pool = cf.ThreadPoolExecutor(8)

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            t = s if len(s) < 1500 else s[:1500] + "..."
            self.cov["samples"].append(t)

    def report(self, what, files=()):
        d = os.path.join(self.replay_dir, "v%d" % len(self.violations))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "what.txt"), "w") as fh:
            fh.write(what + "\n")
        for f in files:
            if f and os.path.exists(f):
                shutil.copy(f, d)
        self.violations.append((what, d))

    # ---- random histories of the real code, validated by TLC
    def traces(self, driver, spec, args, shards, tag, timeout=300, launcher=(),
               extra_env=None, tlc_timeout=600, history_op="begin", cfg=None):
        pre = os.path.join(self.work, tag + "_")
        cmd = list(launcher) + [drv(driver)] + [str(a) for a in args] + [pre, str(shards)]

        def drive():
            for f in glob.glob(pre + "*"):
                os.remove(f)
            return run(cmd, timeout, extra_env)
        rc, out = drive()
        if rc == 99:
            raise CheckError("driver %s: %s" % (driver, out[-2000:]))
        if rc != 0:
            # it has to happen again: an interrupted run of a sound program does not count
            for _ in range(3):
                rc2, out2 = drive()
                if rc2 != 0:
                    break
            if rc2 == 0:
                raise CheckError("driver %s failed once (%s) but not again:\n%s" % (driver, rc, out[-2000:]))
            last = pre + "last"
            what = "driver '%s' ended with %s (twice): the code under test crashed or hung" % (" ".join(cmd), rc)
            if os.path.exists(last):
                what += "\nlast call: " + open(last).read()[:4000]
            what += "\n" + out2[-3000:]
            self.report(what, [last])
            return False
        files = sorted(glob.glob(pre + "*.ndjson"))
        files = [f for f in files if os.path.getsize(f) > 0]
        if not files:
            raise CheckError("driver %s wrote no trace" % driver)

        def validate(f):
            return f, tlc(spec, cfg or spec, self.work, dict(extra_env or {}, TRACE=f), tlc_timeout)
        ok = True
        for f, r in self.pool.map(validate, files):
            nev = sum(1 for _ in open(f))
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["transitions"]
            if r["ok"]:
                self.cov["events_validated"] += nev
                self.cov["traces_validated_against_impl"] += (sum(1 for l in open(f) if '"op":"%s"' % history_op in l) or 1) if history_op else nev
                continue
            if not rejected(r):
                raise CheckError("TLC failed on %s:\n%s" % (f, r["out"][-4000:]))
            # the rejection has to repeat, on a fresh recording of the same history
            if not getattr(self, "_redriven", None) == tag:
                keep = f + ".first"
                shutil.copy(f, keep)
                self._redriven = tag
                rc2, out2 = drive()
                if rc2 != 0:
                    self.report("driver crashed on the second recording\n" + out2[-2000:], [keep])
                    return False
            for _ in range(3):
                r2 = tlc(spec, cfg or spec, self.work, dict(extra_env or {}, TRACE=f), tlc_timeout)
                if not r2["ok"] or drive()[0] != 0:
                    break
            if r2["ok"]:
                raise CheckError("a rejection did not repeat: " + f)
            mm = mismatch_text(r2["out"])
            # the rejected line of the trace
            li = re.search(r'"MISMATCH",\s*(\d+)', r2["out"]) or re.search(r'states generated, (\d+) distinct', r2["out"])
            line = ""
            if li:
                lines = open(f).read().splitlines()
                k = int(li.group(1))
                s = k - 1
                while history_op and s > 0 and '"op":"%s"' % history_op not in lines[s]:
                    s -= 1
                hist = os.path.join(self.work, "history.ndjson")
                with open(hist, "w") as fh:
                    fh.write("\n".join(lines[s:k]) + "\n")
                line = lines[k - 1]
            self.report("recorded execution is not a behaviour of %s\ncommand: %s\nTLC: %s\nevent: %s"
                        % (spec, " ".join(cmd), mm[:6000], line[:6000]),
                        [f, os.path.join(self.work, "history.ndjson")])
            ok = False
            break
        self.cov["parts"].append({"part": tag, "driver": driver, "spec": spec,
                                  "args": [str(a) for a in args]})
        if ok:
            ls = open(files[0]).read(20000).splitlines()
            self.sample(ls[min(len(ls) - 1, 3)])
            for f in files:
                os.remove(f)
        return ok

    # ---- every transition of the bounded model, replayed in the real code
    def explore(self, driver, spec, tag, menv, timeout=600, dtimeout=300, chunks=8, cfg=None, mem="6g",
                fields=("ok", "res", "post", "xs", "lv", "ab")):
        out = os.path.join(self.work, tag + "_model.ndjson")
        r = tlc(spec, cfg or spec, self.work, dict(menv, OUT=out), timeout, mem)
        if not r["ok"]:
            raise CheckError("TLC failed on the model %s:\n%s" % (spec, r["out"][-4000:]))
        lines = [json.loads(l) for l in open(out).read().splitlines()]
        if not lines:
            raise CheckError("the model exported nothing")
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        n = max(1, min(chunks, len(lines) // 200 + 1))
        parts = [lines[i::n] for i in range(n)]

        def replay(i):
            fi = os.path.join(self.work, "%s_in%d" % (tag, i))
            fo = os.path.join(self.work, "%s_out%d" % (tag, i))
            with open(fi, "w") as fh:
                fh.write("\n".join(parts[i]) + "\n")
            for _ in range(2):
                rc, o = run([drv(driver), "replay", fi, fo], dtimeout)
                if rc == 0:
                    break
            return i, rc, o, fo
        ok = True
        for i, rc, o, fo in self.pool.map(replay, range(n)):
            if rc == 99:
                raise CheckError("driver %s: %s" % (driver, o[-2000:]))
            if not ok:
                continue
            if rc != 0:
                last = fo + ".last"
                what = "replay of a model behaviour in the library ended with %s (twice)\n%s" % (rc, o[-2000:])
                if os.path.exists(last):
                    what += "\nbehaviour: " + open(last).read()[:4000]
                self.report(what, [last])
                ok = False
                continue
            got = open(fo).read().splitlines()
            if len(got) != len(parts[i]):
                raise CheckError("replay produced %d results for %d behaviours" % (len(got), len(parts[i])))
            for want, have in zip(parts[i], got):
                w, g = json.loads(want), json.loads(have)
                bad = [k for k in fields if canon(w[k]) != canon(g[k])]
                if g.get("sane"):
                    bad.append("sane")
                if bad:
                    f = os.path.join(self.work, "behaviour.json")
                    with open(f, "w") as fh:
                        fh.write(want + "\n" + have + "\n")
                    self.report("the library does not follow the model: %s\nhistory: %s\nmodel: %s\nlibrary: %s" % (
                        ",".join(bad), canon(w["h"]),
                        canon({k: w[k] for k in bad if k in w})[:5000],
                        canon({k: g[k] for k in bad})[:5000]), [f])
                    ok = False
                    break
            else:
                self.cov["model_transitions_replayed"] += len(got)
                self.cov["traces_validated_against_impl"] += len(got)
        self.sample(lines[len(lines) // 2])
        self.cov["parts"].append({"part": tag, "driver": driver, "spec": spec, "exhaustive_within": menv})
        if ok:
            for f in glob.glob(os.path.join(self.work, tag + "_*")):
                os.remove(f)
        return ok

    # ---- verdict
    def finish(self, level="model_checking", assumptions=()):
        known = known_findings(self.prop)
        new = []
        for what, d in self.violations:
            k = [x for x in known if x[0] in what]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[0][1]))
            else:
                new.append((what, d))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for what, d in new:
            print(what[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        if not new:
            shutil.rmtree(self.work, ignore_errors=True)
            print("%s: held on everything explored (%d model states, %d events, %d replayed, %.1f s)" % (
                self.prop, self.cov["states"], self.cov["events_validated"],
                self.cov["model_transitions_replayed"], ev["wall_s"]))
        return 1 if new else 0


def mismatch_text(out):
    i = out.find("MISMATCH")
    if i < 0:
        i = max(0, out.find("is violated") - 200)
    j = out.find("\nFinished", i)
    return re.sub(r"\s+", " ", out[max(0, i - 4):j if j > 0 else i + 6000])


def known_findings(prop):
    """lines 'finding: property=<id> match=<<text>> <description>'; 'fixed:' lines suppress nothing"""
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=<<(.*?)>> (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res
