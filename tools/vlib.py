"""Common machinery of the checks: build drivers from /repo's working tree, run TLC on the
specification, replay scripts into the real code, validate the recorded traces with TLC."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
NCPU = min(8, os.cpu_count() or 1)
CXX = "g++"
CXXFLAGS = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"]
# needs ROOT: not part of the ROOT-free library; built only by the drivers that ask for them,
# against the shim headers in harness/rootshim
NEEDS_ROOT = {
    "data/DataSetGenerator.cpp", "data/IO.cpp", "data/ROOTNtuple.cpp", "data/ROOTTree.cpp",
    "dist/BinnedEDGenerator.cpp", "dist/DistTools.cpp", "eventSystematic/EventConvolution.cpp",
    "function/Gaussian.cpp", "function/VaryingCDF.cpp", "optimise/MCMC.cpp", "optimise/MCMCSamples.cpp",
    "optimise/MetropolisSampler.cpp", "optimise/Minuit.cpp", "optimise/MinuitFCN.cpp",
    "plot/ROOTMultiPlot.cpp", "rand/Rand.cpp",
}


# drivers that link sources needing ROOT (against the stand-in in harness/rootshim)
ROOTSRC = {
    "drv_mini": ("optimise/Minuit.cpp", "optimise/MinuitFCN.cpp"),
    "drv_io": ("data/IO.cpp", "data/ROOTNtuple.cpp", "data/ROOTTree.cpp", "dist/DistTools.cpp", "function/Gaussian.cpp", "rand/Rand.cpp"),
    "drv_chain": ("optimise/MCMC.cpp", "optimise/MCMCSamples.cpp", "optimise/MetropolisSampler.cpp", "rand/Rand.cpp"),
    "drv_param": ("function/Gaussian.cpp", "function/VaryingCDF.cpp", "eventSystematic/EventConvolution.cpp", "rand/Rand.cpp"),
    "drv_gen": ("data/DataSetGenerator.cpp", "dist/BinnedEDGenerator.cpp", "rand/Rand.cpp"),
    "drv_event": ("eventSystematic/EventConvolution.cpp", "rand/Rand.cpp"),
    "drv_nllh": ("function/Gaussian.cpp", "function/VaryingCDF.cpp", "rand/Rand.cpp"),
    "drv_smear": ("function/Gaussian.cpp", "function/VaryingCDF.cpp", "rand/Rand.cpp"),
}


class InfraError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_headers_hash = None


def headers_hash():
    global _headers_hash
    if _headers_hash is None:
        fs = []
        for root in (os.path.join(REPO, "src"), HARN):
            for d, _, names in os.walk(root):
                for n in sorted(names):
                    if n.endswith((".h", ".hpp", ".hh", ".tpp", ".icc", ".inl")):
                        fs.append(os.path.join(d, n))
        fs.sort()
        _headers_hash = _hash(*[x for f in fs for x in (f, _read(f))])
    return _headers_hash


def include_flags(shim):
    fl = ["-I" + HARN]
    if shim:
        fl.append("-I" + os.path.join(HARN, "rootshim"))
    fl += ["-I" + d for d in sorted(glob.glob(os.path.join(REPO, "src", "*"))) if os.path.isdir(d)]
    for d in ("/usr/include/hdf5/serial",):
        if os.path.isdir(d):
            fl.append("-I" + d)
    return fl


def _compile(src, shim, extra, outdir):
    flags = CXXFLAGS + extra + include_flags(shim)
    key = _hash(headers_hash(), src, _read(src), " ".join(flags))
    cache = os.path.join(BUILD, "objcache")
    os.makedirs(cache, exist_ok=True)
    o = os.path.join(cache, os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + ["-c", src, "-o", tmp], timeout=600)
        if r.returncode != 0:
            raise InfraError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, o)
    return o


def build_driver(name, outdir, rootsrc=(), extra=()):
    rootsrc = rootsrc or ROOTSRC.get(name, ())
    """Compile /repo/src (ROOT-free part + rootsrc against the shim) and harness/<name>.cpp; link."""
    srcs = []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*", "*.cpp"))):
        rel = os.path.relpath(s, os.path.join(REPO, "src"))
        if rel not in NEEDS_ROOT or rel in rootsrc:
            srcs.append(s)
    drv = os.path.join(HARN, name + ".cpp")
    shim = bool(rootsrc)
    jobs = [drv] + srcs
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # biggest first
        order = sorted(jobs, key=lambda p: (p != drv, -os.path.getsize(p)))
        objs = list(ex.map(lambda p: _compile(p, shim, list(extra), outdir), order))
    exe = os.path.join(outdir, name)
    lib = os.path.join(outdir, "liboxsx_%s.a" % name)
    if os.path.exists(lib):
        os.remove(lib)
    r = sh(["ar", "rcs", lib] + objs[1:])
    if r.returncode:
        raise InfraError("ar: " + r.stdout)
    r = sh([CXX] + list(extra) + [objs[0], lib, "-o", exe, "-L/usr/lib/x86_64-linux-gnu/hdf5/serial",
            "-lhdf5_cpp", "-lhdf5", "-larmadillo", "-lgsl", "-lgslcblas"])
    if r.returncode:
        raise InfraError("link failed\n" + r.stdout[-4000:])
    return exe


# ------------------------------------------------------------------ TLC
_classes = None


def classes():
    global _classes
    if _classes is None:
        key = _hash(_read(os.path.join(SPEC, "Real.java")))
        d = os.path.join(BUILD, "classes-" + key)
        if not os.path.exists(os.path.join(d, "Real.class")):
            tmp = d + ".%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            r = sh(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", tmp, os.path.join(SPEC, "Real.java")])
            if r.returncode:
                raise InfraError("javac: " + r.stdout)
            if not os.path.exists(d):
                try:
                    os.rename(tmp, d)
                except OSError:
                    shutil.rmtree(tmp, ignore_errors=True)
        _classes = d
    return _classes


def tlc(module, cfg, workdir, workers=1, env=None, timeout=800, args=(), heap="3g"):
    md = os.path.join(workdir, "md-%s-%d-%d" % (module, os.getpid(), random.getrandbits(40)))
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + workdir,
           "-cp", ":".join([classes(), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise InfraError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def strip_tlc(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Loading ", "Semantic ", "Parsing ", "Linting ")))


def emitted(out):
    """The scripts printed by Emit (PrintT("@@" \\o ToJson(log')))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    return res


def merge_scripts(scripts, queries=()):
    """Scripts as one list of episodes: common prefixes kept once, and every query (an operation that
    leaves the state alone) that is the last step of a script run in one episode with its siblings."""
    root = {}
    for s in scripts:
        node = root
        for o in s:
            k = json.dumps(o, sort_keys=True)
            node = node.setdefault(k, {})
    eps = []

    def walk(node, path):
        leafq = [k for k, c in node.items() if not c and json.loads(k)["op"] in queries]
        rest = [k for k in node if k not in set(leafq)]
        if leafq:
            eps.append(path + [json.loads(k) for k in leafq])
        if not rest and not leafq and path:
            eps.append(path)
        for k in rest:
            walk(node[k], path + [json.loads(k)])

    sys.setrecursionlimit(10000)
    walk(root, [])
    return eps


# ------------------------------------------------------------------ traces
class Reject(Exception):
    pass


class Lines(list):
    """The recorded lines; stuck: why the script could not be followed to its end (the code under test did
    something else than the script counted on, so the recorded part has to be rejected)"""
    stuck = None


def watch(cmd, cwd, grows, timeout):
    """(exit status, end of stderr) of a driver; status None where its trace has not grown for a
    while: one call does not come back."""
    ep = grows + ".err"
    with open(os.devnull, "w") as dn, open(ep, "w") as ef:
        p = subprocess.Popen(cmd, stdout=dn, stderr=ef, cwd=cwd)
    size, last = -1, time.time()
    step = .005
    try:
        while True:
            try:
                rc = p.wait(step)
                break
            except subprocess.TimeoutExpired:
                step = min(.25, step * 2)
            now = os.path.getsize(grows) if os.path.exists(grows) else 0
            if now != size:
                size, last = now, time.time()
            elif time.time() - last > timeout:
                rc = None
                break
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    with open(ep, "rb") as f:
        err = f.read().decode(errors="replace")[-3000:]
    os.unlink(ep)
    return rc, err


def run_driver(exe, events, workdir, tag, timeout=120, cwd=None):
    """Runs a script; returns the trace lines.  A crash or hang of the code under test becomes the
    outcome of the call that was running."""
    sp = os.path.join(workdir, tag + ".script")
    tp = os.path.join(workdir, tag + ".trace")
    with open(sp, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    scratch = os.path.join(workdir, tag + ".d")
    os.makedirs(scratch, exist_ok=True)
    why = stuck = None
    err = ""
    try:
        rc, err = watch([exe, sp, tp], scratch, tp, timeout)
        if rc == 2:
            raise InfraError("driver: " + err)
        if rc == 3:
            stuck = "driver: " + err
        elif rc is None:
            why = "no answer within %d s" % timeout
        elif rc != 0:
            why = "exit status %d: %s" % (rc, err[-300:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    lines = Lines()
    if os.path.exists(tp):
        with open(tp) as f:
            lines = Lines(x for x in f.read().split("\n") if x)
    if lines:
        try:
            json.loads(lines[-1])
        except ValueError:
            lines.pop()
    if why is not None:
        if len(lines) < len(events):
            ev = dict(events[len(lines)])
            ev["out"] = {"ok": False, "err": "crash", "why": why[:200].replace("\n", " ")}
            lines.append(json.dumps(ev))
        else:
            lines.append(json.dumps({"op": "Exit", "out": {"ok": False, "err": "crash", "why": why[:200]}}))
    elif stuck is not None:
        if len(lines) < 2:
            raise InfraError(stuck)
        lines.stuck = stuck
    elif len(lines) != len(events):
        raise InfraError("driver wrote %d of %d events" % (len(lines), len(events)))
    return lines


EVAL_ERR = re.compile(r"(Attempted to |TLC threw an unexpected exception|The first argument of Assert|"
                      r"In evaluation, the identifier|Evaluating |tlc2.tool.EvalException|was not in the domain|"
                      r"Invariant \w+ is violated|Action property|Temporal properties were violated|"
                      r"Error: .*is violated|The invariant|not a real|Real: )")


def validate(module, cfg, lines, workdir, tag, timeout=800, extra_env=None):
    """TLC's verdict on one trace: (accepted, number of accepted lines, generated states, message)."""
    tp = os.path.join(workdir, tag + ".ndjson")
    with open(tp, "w") as f:
        f.write("\n".join(lines) + "\n")
    env = {"TRACE_FILE": tp}
    env.update(extra_env or {})
    rc, out = tlc(module, cfg, workdir, workers=1, env=env, timeout=timeout)
    gen, dist = tlc_stats(out)
    o = strip_tlc(out)
    if rc == 0 and "No error has been found" in o:
        return True, len(lines), gen, ""
    m = re.search(r"depth of the complete state graph search is (\d+)", o)
    depth = int(m.group(1)) - 1 if m else None
    dis = [x for x in o.split("<<") if "DISAGREE" in x]
    msg = ""
    i = o.find('"DISAGREE"')
    if i >= 0:
        msg = re.sub(r"\s+", " ", o[i:i + 1500].split("Error:")[0])
    if "TraceAccepted" in o or "postcondition" in o.lower():
        return False, depth if depth is not None else 0, gen, msg
    if EVAL_ERR.search(o):
        # the trace drove the specification into an evaluation error or a property violation:
        # count the states of the printed error trace
        n = len(re.findall(r"^State \d+:|^\d+: ", o, re.M))
        ls = re.findall(r"^/\\ l = (\d+)", o, re.M)
        at = int(ls[-1]) - 1 if ls else max(0, n - 1)
        k = o.find("Error:")
        p = o.find("The error occurred when TLC")
        where = o[p:p + 900] if p >= 0 else ""
        return False, at, gen, (msg + " " + re.sub(r"\s+", " ", o[k:k + 500] + " ... " + where)).strip()
    raise InfraError("TLC failed on %s (rc %d)\n%s" % (module, rc, o[-3000:]))


def split_episodes(lines):
    eps = []
    for x in lines:
        if json.loads(x).get("op") == "Reset" or not eps:
            eps.append([])
        eps[-1].append(x)
    return eps


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.ops = {}
        self.mc = []
        self.samples = []
        self.distinct = set()
        self.violations = 0
        self.assumptions = []
        self.exes = {}
        self.known = [k for k in load_known() if k["property"] == pid]
        self.violated = False
        self.nval = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # -- building
    def driver(self, name, rootsrc=(), extra=()):
        if name not in self.exes:
            self.exes[name] = build_driver(name, self.work, rootsrc, extra)
        return self.exes[name]

    # -- design: exhaustive or simulated exploration of the specification
    def model(self, module, cfg, workers=4, args=(), timeout=700, consts=None, emit=False):
        path = cfg
        if consts:
            txt = open(os.path.join(SPEC, cfg)).read()
            for k, v in consts.items():
                txt, n = re.subn(r"(\b%s\s*=\s*)\S+" % k, r"\g<1>%s" % v, txt)
                if not n:
                    raise InfraError("no constant %s in %s" % (k, cfg))
            path = os.path.join(self.work, "%s-%d.cfg" % (cfg[:-4], random.getrandbits(30)))
            open(path, "w").write(txt)
        rc, out = tlc(module, path, self.work, workers=workers, args=args, timeout=timeout)
        o = strip_tlc(out)
        if rc != 0 or "No error has been found" not in o and "-simulate" not in args:
            raise InfraError("the specification itself fails: %s %s (rc %d)\n%s" %
                             (module, cfg, rc, "\n".join(x for x in o.splitlines() if not x.startswith('"@@'))[-5000:]))
        gen, dist = tlc_stats(out)
        if "-simulate" in args:
            m = re.findall(r"(\d[\d,]*) states checked", out) or re.findall(r"states generated: ([\d,]+)", out) or ["0"]
            gen = int(m[-1].replace(",", ""))
            dist = 0
        self.states += dist
        self.transitions += gen
        self.mc.append({"module": module, "cfg": cfg, "constants": consts or {}, "generated": gen, "distinct": dist,
                        "mode": "simulate" if "-simulate" in args else "exhaustive"})
        return emitted(out) if emit else []

    # -- conformance
    def conform(self, drv, module, cfg, episodes, name="traces", shards=NCPU, timeout=120, rootsrc=(), extra=(),
                isolate=False):
        """Replay episodes (lists of operations) into the real code, check every recorded step."""
        if self.violated:
            return
        exe = self.driver(drv, rootsrc, extra)
        eps = [[{"op": "Reset"}] + e for e in episodes]
        self.rng_shuffle = random.Random(self.seed)
        if not eps:
            raise InfraError("no episodes for " + name)
        shards = max(1, min(shards, len(eps)))
        # longest-processing-time split
        bins = [[] for _ in range(shards)]
        load = [0] * shards
        for e in sorted(eps, key=lambda e: -len(e)):
            i = load.index(min(load))
            bins[i].append(e)
            load[i] += len(e)

        def one(i):
            self_tag = "%s-%s-%d" % (name, module, i)
            evs = [o for e in bins[i] for o in e]
            lines = run_driver(exe, evs, self.work, self_tag, timeout)
            acc, n, gen, msg = validate(module, cfg, lines, self.work, self_tag)
            return i, lines, acc, n, gen, msg

        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        for i, lines, acc, n, gen, msg in res:
            neps = split_episodes(lines)
            done = lines if acc else lines[:n]
            self.transitions += gen
            self.events += len(done)
            for x in done:
                o = json.loads(x)
                k = o.get("op", "?")
                oc = "ok" if o.get("out", {}).get("ok") else "refused"
                self.ops.setdefault(k, {"ok": 0, "refused": 0})[oc] += 1
            for e in neps[:len(neps) if acc else max(0, len(split_episodes(done)) - 1)]:
                self.traces += 1
                self.distinct.add(_hash("\n".join(e)))
            if len(self.samples) < 4 and neps:
                self.samples.append({"trace": [json.loads(x) for x in neps[len(neps) // 2][:12]]})
        for i, lines, acc, n, gen, msg in res:
            if not acc:
                self.report(drv, module, cfg, lines, n, msg, exe, timeout)
                return
        for r in res:
            if r[1].stuck:
                raise InfraError(r[1].stuck)

    def report(self, drv, module, cfg, lines, n, msg, exe, timeout):
        # the episode of the first line TLC did not accept, cut after it
        n = min(n, len(lines) - 1)
        start = max(k for k in range(n + 1) if json.loads(lines[k]).get("op") == "Reset")
        script = []
        for x in lines[start:n + 1]:
            o = json.loads(x)
            o.pop("out", None)
            script.append(o)
        if script[-1].get("op") == "Exit":
            script.pop()
            script = [dict((k, v) for k, v in json.loads(x).items() if k != "out") for x in lines[:n]]
            script = [o for o in script if o.get("op") != "Exit"]
        # repeat it alone
        again = run_driver(exe, script, self.work, "again", timeout)
        acc, n2, _, msg2 = validate(module, cfg, again, self.work, "again")
        if acc:
            # it may need what came before it in the same process
            script = [dict((k, v) for k, v in json.loads(x).items() if k != "out") for x in lines[:n + 1]]
            again = run_driver(exe, script, self.work, "again", timeout)
            acc, n2, _, msg2 = validate(module, cfg, again, self.work, "again")
        if acc:
            if "no answer within" in lines[n]:
                raise InfraError("a call timed out and did not when repeated: " + lines[n][:2000])
            # the code answered differently the second time: the recorded trace is the witness
            again, n2, msg2 = lines, n, msg + " (not every run: the same script was accepted when repeated)"
        self.violated = True
        self.violations += 1
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (self.pid, _hash(json.dumps(script))[:10]))
        bad = again[min(n2, len(again) - 1)]
        with open(path, "w") as f:
            json.dump({"property": self.pid, "driver": drv, "module": module, "cfg": cfg,
                       "rejected_call": json.loads(bad), "disagreement": msg2 or msg, "script": script}, f, indent=1)
        print("rejected call: " + bad[:1500])
        print("specification: " + (msg2 or msg)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def run_known(self, rootsrc_of=None):
        """Repeat the recorded findings: each must still be rejected (then it is announced), never more."""
        for k in self.known:
            if k.get("status") != "known":
                continue
            exe = self.driver(k["driver"], tuple(k.get("rootsrc", ())))
            lines = run_driver(exe, [{"op": "Reset"}] + k["script"], self.work, "known-" + k["id"])
            acc, n, _, msg = validate(k["module"], k["cfg"], lines, self.work, "known-" + k["id"])
            if acc:
                print("note: known finding %s no longer occurs" % k["id"])
            elif n != len(k["script"]):  # Reset + script: only its last call may be rejected
                self.report(k["driver"], k["module"], k["cfg"], lines, n, msg, exe, 120)
            else:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))

    def finish(self, level="model_checking", assumptions=(), extra=None):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces, "distinct_traces": len(self.distinct),
            "events_validated_against_impl": self.events,
            "calls_by_operation": self.ops, "model_runs": self.mc, "samples": self.samples[:4],
        }
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions) + [
                  "what the drivers in /verif/harness project through the public API is what a user observes",
                  "TLC, the CommunityModules JSON reader and spec/Real.java (exact rationals) are correct"],
              "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violated else 0


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def main(pid, fn, **kw):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish(**kw)
        if rc == 0:
            print("%s: held on %d traces, %d calls; specification: %d states, %d transitions; %.0f s" %
                  (pid, c.traces, c.events, c.states, c.transitions, time.time() - c.t0))
        sys.exit(rc)
    except InfraError as e:
        print("ERROR (no verdict): %s" % e, file=sys.stderr)
        shutil.rmtree(c.work, ignore_errors=True)
        sys.exit(2)


def hx(x):
    """A real for a script: the exact double."""
    return float(x).hex()
