"""The runner: builds the harness from /repo's working tree, runs jobs on the real code, checks the recorded traces
against the TLA+ specification with TLC, runs the bounded models, and writes the evidence."""
import collections
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import unicodedata
import lex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HOUT = os.path.join(BUILD, "harness")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


COVER = collections.Counter()


class EvalError(Exception):
    """A record that the specification cannot be evaluated for: its values are of another kind, or far out of range."""


class CheckError(Exception):
    """Something other than the code under test failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    os.makedirs(HOUT, exist_ok=True)
    cmd = ["make", "-s", "-j%d" % NPROC, "-f", os.path.join(VERIF, "harness", "Makefile"), "-C",
           os.path.join(VERIF, "harness"), "REPO=" + REPO, "OUT=" + HOUT]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("the harness does not build:\n" + p.stdout[-4000:])
    return os.path.join(HOUT, "ppph")


def run_jobs(jobs, timeout=30, env=None, tmp=None):
    """Runs the jobs on the real code. Returns one result per job."""
    exe = os.path.join(HOUT, "ppph")
    d = tmp or tempfile.mkdtemp(prefix="ppph-", dir=BUILD)
    try:
        jp, rp = os.path.join(d, "jobs"), os.path.join(d, "results")
        with open(jp, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run([exe, jp, rp, str(NPROC), str(timeout)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=e, cwd=d)
        if p.returncode != 0:
            raise CheckError("the harness ended with %d" % p.returncode)
        with open(rp, encoding="utf-8", errors="replace") as f:
            res = [json.loads(x) for x in f]
    finally:
        if not tmp:
            shutil.rmtree(d, ignore_errors=True)
    if len(res) != len(jobs):
        raise CheckError("the harness returned %d results for %d jobs" % (len(res), len(jobs)))
    return res


def java(args, env, cwd, timeout, heap="3g"):
    e = dict(os.environ)
    e.update(env)
    e["LC_ALL"] = "C.UTF-8"
    cmd = ["java", "-Djava.io.tmpdir=" + cwd, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-cp", JAR, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not end within %d s" % timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tlc_trace(records, props, timeout=800, module="Trace", extra_env=None):
    """Validates a trace. Returns (number of consumed records, list of REJECT lines, output)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        tp, pp = os.path.join(d, "trace.ndjson"), os.path.join(d, "props.json")
        with open(tp, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        with open(pp, "w") as f:
            json.dump(sorted(props), f)
        env = {"TRACE": tp, "PROPS": pp, "COMBINING": os.path.join(SPEC, "combining.json"), "CHARMAP": os.path.join(SPEC, "charmap.json")}
        env.update(extra_env or {})
        rc, out = java(["-workers", "1", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config",
                        os.path.join(SPEC, module + ".cfg"), os.path.join(SPEC, module + ".tla")], env, d, timeout)
        for x in re.findall(r'^"COVER .*"$', out, re.M):
            COVER.update(json.loads(json.loads(x)[6:]))
        m = re.search(r'<<"PREFIX", (\d+), (\d+)>>', out)
        e = re.search(r"^(?:Error: )?.*(?:[Oo]verflow when computing|Attempted to |In evaluation, the identifier|unexpected exception|"
                      r"evaluating the |NumberFormatException).*", out, re.M)
        if e and (not m or int(m.group(1)) < len(records)) and not re.search(r"OutOfMemory|StackOverflow|Java heap", out) \
                and not re.search(r"[Pp]ostcondition", out.split(e.group(0))[0]):
            raise EvalError(e.group(0)[:300])
        if not m or int(m.group(2)) != len(records):
            raise CheckError("TLC failed on a trace:\n" + out[-6000:])
        n = int(m.group(1))
        if n < len(records) and ("Error: " in out and not re.search(r"POSTCONDITION|[Pp]ostcondition", out)):
            raise CheckError("TLC failed on a trace:\n" + out[-6000:])
        rej = re.findall(r'^<<\s*"REJECT",\s*"[^"]*"(?:.|\n (?= ))*', out, re.M)
        return n, rej, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_model(module, cfg, env=None, workers=None, timeout=800, heap="8g", extra=None, coverage=True):
    """Checks a bounded model. Returns (ok, stats, printed lines, output)."""
    d = tempfile.mkdtemp(prefix="mc-", dir=BUILD)
    try:
        e = {"COMBINING": os.path.join(SPEC, "combining.json"), "CHARMAP": os.path.join(SPEC, "charmap.json")}
        e.update(env or {})
        rc, out = java(["-workers", str(workers or NPROC), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"] +
                       (["-coverage", "1"] if coverage else []) + ["-config", os.path.join(SPEC, cfg)] + (extra or []) +
                       [os.path.join(SPEC, module + ".tla")], e, d, timeout, heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ok = "Model checking completed. No error has been found." in out
        if not ok and "is violated" not in out:
            raise CheckError("TLC failed on %s:\n%s" % (cfg, out[-6000:]))
        st = {"transitions": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0}
        # Actions that were never taken make a model vacuous.
        never = [a for a, n in re.findall(r"^<(\w+) line [^>]*>: \d+:(\d+)", out, re.M) if n == "0"]
        st["never"] = never
        return ok, st, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nfc_table(doc):
    """The compositions that the recorded merges call for (the oracle is Python's unicodedata)."""
    with open(os.path.join(SPEC, "combining.json")) as f:
        comb = dict(json.load(f))
    ks = {}
    marks = {}
    for c in doc["chars"]:
        if c["md"] > 0 and c["u"]:
            marks.setdefault(c["md"], []).append(comb.get(c["u"][0], c["u"][0]))
    for i, ms in marks.items():
        k = tuple(doc["chars"][i - 1]["u"] + ms)
        if all(0 < x < 0x110000 and not 0xD800 <= x < 0xE000 for x in k):
            ks[k] = unicodedata.normalize("NFC", "".join(chr(x) for x in k))
    return [{"k": list(k), "t": v} for k, v in ks.items()]


TABLES = ["chars", "words", "hyph", "segs", "lines", "blocks", "figs", "shapes", "graphics", "cuts", "pages", "fonts"]


def project(doc, keep):
    """Reduces a document to the tables a set of clauses needs (the others become empty)."""
    return {k: (v if k == "st" or k in keep else []) for k, v in doc.items()}


def to_records(res, keep=None, start=True):
    """The trace of one job."""
    recs = []
    for k, e in enumerate(res["ev"]):
        r = dict(e)
        r["job"] = str(res["id"])
        if r["op"] == "stage" and r["name"] == "diacritics":
            r["aux"] = {"nfc": nfc_table(r["doc"])}
        if r["op"] == "stage" and r["name"] == "blocks":
            r["aux"] = lex.blocks_aux(res["ev"][k - 1]["doc"])
        if r["op"] == "ser":
            r["aux"] = lex.jsonl(r["out"]) if r["fmt"] == "jsonl" else {"soh": "\u0001"}
        if r["op"] == "predict":
            r["aux"] = lex.roles_aux(res["ev"][k - 1]["doc"])
        if keep and "doc" in r:
            r["doc"] = project(r["doc"], keep)
        recs.append(r)
    if "crash" in res:
        recs.append({"op": "crash", "job": str(res["id"]), "what": res["crash"]})
    return recs


def records(res, job, post, keep):
    """The trace of one job as the specification sees it. What cannot even be read ends in a record that is never accepted."""
    try:
        recs = to_records(res, None)
        if post:
            recs = post(recs, job)
        if keep:
            for x in recs:
                if "doc" in x:
                    x["doc"] = project(x["doc"], keep)
        return recs
    except Exception as e:
        return [{"op": "crash", "job": str(res["id"]), "what": "the result cannot be read: %r" % (e,)}]


def shards(items, n, weight):
    out = [[] for _ in range(n)]
    w = [0] * n
    for it in sorted(items, key=weight, reverse=True):
        i = w.index(min(w))
        out[i].append(it)
        w[i] += weight(it)
    return [s for s in out if s]


def validate(traces, props, timeout=800, max_reject=3, module="Trace", extra_env=None):
    """traces: list of (id, records). Returns (records validated, list of (id, index of the record, rejects))."""
    def one(ts):
        bad, done = [], 0
        ts = list(ts)
        while ts:
            recs = [r for _, rs in ts for r in rs]
            try:
                n, rej, out = tlc_trace(recs, props, timeout, module, extra_env)
            except EvalError as e:
                if len(ts) == 1:
                    return done, bad + [(ts[0][0], len(ts[0][1]) - 1, ["not a possible result (%s)" % e])]
                for part in (ts[:len(ts) // 2], ts[len(ts) // 2:]):
                    d, b = one(part)
                    done, bad = done + d, bad + b
                    if len(bad) >= max_reject:
                        break
                break
            if n == len(recs):
                done += n
                break
            k = 0
            for i, (tid, rs) in enumerate(ts):
                if k + len(rs) > n:
                    bad.append((tid, n - k, rej))
                    done += k
                    ts = ts[i + 1:]
                    break
                k += len(rs)
            if len(bad) >= max_reject:
                break
        return done, bad

    parts = shards(traces, NPROC, lambda t: 2000 + sum(len(json.dumps(r)) for r in t[1]))
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(one, parts))
    return sum(r[0] for r in rs), [b for r in rs for b in r[1]]


class Check:
    """One check of one property: collects what was explored and reports."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "records_validated": 0,
                    "samples": [], "models": [], "campaigns": []}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.rng = random.Random(SEED * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(prop)))
        self.replays = os.path.join(BUILD, "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays, exist_ok=True)
        try:
            with open(os.path.join(VERIF, "known-findings.json")) as f:
                self.findings = [k for k in json.load(f)["findings"] if k["property"] == prop]
        except FileNotFoundError:
            self.findings = []

    # -- models
    def model(self, module, cfg, env=None, expect_actions=True, **kw):
        t = time.time()
        ok, st, out = tlc_model(module, cfg, env, **kw)
        if not ok:
            self.violation("model %s/%s violates its invariant" % (module, cfg), {"output": out[-8000:]})
        if st["never"] and expect_actions:
            raise CheckError("%s: actions never taken: %s" % (cfg, st["never"]))
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["models"].append({"module": module, "config": cfg, "states": st["states"],
                                   "transitions": st["transitions"], "wall_s": round(time.time() - t, 1)})
        log("model %s %s: %s (%.1f s)" % (module, cfg, st, time.time() - t))
        return out

    # -- conformance
    def campaign(self, name, jobs, props, keep=None, post=None, timeout=30, env=None, module="Trace", nontrivial=None,
                 extra_env=None):
        """Runs the jobs on the real code and validates what was recorded."""
        t = time.time()
        for i, j in enumerate(jobs):
            j.setdefault("id", "%s-%d" % (name, i))
        res = run_jobs(jobs, timeout, env)
        t1 = time.time()
        byid = {str(j["id"]): j for j in jobs}
        traces = []
        for r in res:
            recs = records(r, byid[str(r["id"])], post, keep)
            traces.append((str(r["id"]), recs))
        n, bad = validate(traces, props, module=module, extra_env=extra_env)
        c = {"name": name, "jobs": len(jobs), "records": n, "clauses": sorted(props), "wall_s": round(time.time() - t, 1)}
        big = {}
        for _, recs in traces:
            for x in recs:
                for k, v in (x.get("doc") or {}).items():
                    if isinstance(v, list):
                        big[k] = max(big.get(k, 0), len(v))
        c["largest"] = {k: v for k, v in sorted(big.items()) if v}
        if nontrivial:
            c["nontrivial"] = sum(1 for r in res if nontrivial(r))
        self.cov["campaigns"].append(c)
        self.cov["traces_validated_against_impl"] += len(jobs) - len(bad)
        self.cov["records_validated"] += n
        log("campaign %s: %d jobs, %d records, %d rejected (%.1f s, run %.1f s)" % (name, len(jobs), n, len(bad), time.time() - t,
                                                                                t1 - t))
        if traces:
            s = traces[len(traces) // 2]
            self.cov["samples"].append({"campaign": name, "job": s[0], "trace": json.dumps(s[1])[:1500]})
        for tid, idx, rej in bad[:8]:
            self.confirm(name, byid[tid], props, post, timeout, env, rej, module, keep, extra_env)
        return res

    def confirm(self, name, job, props, post, timeout, env, rej, module, keep, extra_env=None):
        """A rejection counts only if running and validating the job again repeats it."""
        res = run_jobs([job], timeout, env)
        recs = records(res[0], job, post, keep)
        try:
            n, rej2, out = tlc_trace(recs, props, module=module, extra_env=extra_env)
        except EvalError as e:
            n, rej2 = len(recs) - 1, ["not a possible result (%s)" % e]
        if n == len(recs):
            log("rejection of %s not repeated" % job["id"])
            return
        ev = recs[n]
        what = "%s at %s %s: %s" % (job["id"], ev.get("op"), ev.get("name", ev.get("what", "")), "; ".join(rej2[-3:]))
        self.violation(what, {"campaign": name, "job": job, "record": n, "rejects": rej2, "observed": recs[max(0, n - 1):n + 1]},
                       key=job.get("finding"))

    def violation(self, what, data, key=None):
        for f in self.findings:
            if key and f.get("key") == key:
                if f not in self.known:
                    self.known.append(f)
                return
        path = os.path.join(self.replays, "%d.json" % (len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        self.violations.append((what, path))

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if COVER:
            self.cov["rules_exercised"] = dict(sorted(COVER.items()))
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in self.violations[:5]:
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0


def histories(out, cap=None, rng=None):
    """The completed histories a model printed (all of them, or a seeded sample)."""
    hs = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^"HIST .*"$', out, re.M)]
    hs.sort(key=json.dumps)
    if cap and len(hs) > cap:
        hs = rng.sample(hs, cap)
    return hs


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]
