"""Solver-based checking of FlatCV: shared machinery.

A *query* is one harness instance: a C file in harness/ compiled with concrete
size parameters, linked with the goto program of /repo's current sources and
handed to CBMC, which turns it into one propositional formula over all symbolic
inputs ("in_*") and discharges every assertion and every built-in safety check.

Outcome of a query
  holds      every assertion unsatisfiable, unwinding assertions included, and
             the reachability witness came back violated
  violated   some assertion satisfiable AND the solver's input, replayed in a
             gcc ASan/UBSan build of the real sources, misbehaves there too
  undecided  time-out, unfinished unwinding, counterexample that does not
             reproduce, compile problem: never reported as success, listed in
             the evidence
"""
import concurrent.futures as cf
import ctypes
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")

# name -> (compiler flags for the library sources, extra C files linked in both
# the encoding and the replay)
VARIANTS = {
    "std": dict(defs=[], models=["cmodels.c"], nmodels=[]),
    # sqrt and atan2 exact on small grids, unconstrained elsewhere
    "fp": dict(defs=[], models=["cmodels.c", "fpmodels.c"], nmodels=[]),
    # typed, constant-size heap objects (see poolalloc.h)
    "pool": dict(defs=["-include", os.path.join(LIB, "poolalloc.h")], models=["cmodels.c", "poolmodels.c"], nmodels=[]),
    # the harness decides which allocation requests fail (see faultmac.h)
    "fault": dict(defs=["-include", os.path.join(LIB, "faultmac.h")], models=["cmodels.c"], nmodels=[]),
    # the harness provides the file the library reads
    "file": dict(defs=["-D%s=verif_%s" % (f, f) for f in "fopen fclose fread fseek ftell rewind fgetc getc feof".split()],
                 models=["cmodels.c"], nmodels=[]),
    # the harness includes cli.c and replaces the image library and the codecs
    "cli": dict(defs=["-I" + os.path.join(LIB, "stbshim"), "-I" + os.path.join(REPO, "src"), "-D__NO_CTYPE"],
                models=["clilib.c"], nmodels=[], nolib=True),
    # the harness provides the allocator
    "alloc": dict(defs=["-Dmalloc=verif_malloc", "-Dcalloc=verif_calloc", "-Dfree=verif_free"],
                  models=["cmodels.c"], nmodels=[]),
}


class Q:
    def __init__(self, name, harness, defs=None, unwind=None, opts=None,
                 timeout=240, variant="std", max_unwind=None, sat=None,
                 partial=False, note="", cost=1, malloc_fail=False, rtimeout=30,
                 refine=True, minunw=False, lunw=None, hints=None, calls=None, scaled=None, patched=None):
        self.name = name
        self.harness = harness
        self.defs = dict(defs or {})
        self.unwind = unwind if unwind is not None else 1000000
        self.opts = list(opts or [])
        self.timeout = timeout
        self.variant = variant
        self.max_unwind = max_unwind or max(self.unwind, 64)
        self.sat = sat
        self.partial = partial
        self.note = note
        self.cost = cost
        self.malloc_fail = malloc_fail
        self.rtimeout = rtimeout
        self.refine = refine
        self.minunw = minunw
        self.lunw = lunw
        self.hints = dict(hints or {})
        self.scaled = scaled  # {file: [(pattern, replacement)]}: smaller constants for the solver
        self.patched = patched  # the same for the replay, too: renames definitions, for recorders
        self.calls = calls  # functions of /repo replaced by recorders of the harness


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, 9)  # PR_SET_PDEATHSIG, SIGKILL


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=env, start_new_session=True, preexec_fn=_die_with_parent)
    with _procs_lock:
        _procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, b"", b"timeout"
    finally:
        with _procs_lock:
            _procs.discard(p)


_procs = set()
_procs_lock = threading.Lock()


def kill_all():
    with _procs_lock:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


class Engine:
    def __init__(self, pid, tier, budget):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.budget = budget
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.lock = threading.Lock()
        self.libs = {}
        self.liblocks = {}
        self.stop = threading.Event()
        self.violation = None
        self.functions = set()
        self.fn_seen = set()

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- building the encoding from /repo's current working tree ----------
    def lib_sources(self):
        return [s for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
                if os.path.basename(s) != "cli.c"]

    def cflags(self, variant):
        # the directories of a variant hide headers of the repository
        return VARIANTS[variant]["defs"] + ["-I" + os.path.join(REPO, "include"), "-I" + LIB]

    def build_lib(self, variant):
        with self.lock:
            lk = self.liblocks.setdefault(variant, threading.Lock())
        with lk:
            if variant in self.libs:
                return self.libs[variant]
            d = os.path.join(self.tmp, "lib_" + variant)
            os.makedirs(d, exist_ok=True)
            v = VARIANTS[variant]
            srcs = list(self.lib_sources()) if not v.get("nolib") else []
            srcs = [(s, self.cflags(variant)) for s in srcs]
            for m in v["models"]:
                srcs.append((os.path.join(LIB, m), ["-I" + LIB, "-I" + os.path.join(REPO, "include")]))
            objs = []
            procs = []
            for s, fl in srcs:
                o = os.path.join(d, os.path.basename(s) + ".gb")
                objs.append(o)
                procs.append((s, subprocess.Popen(
                    ["goto-cc", "-c", s, "-o", o] + fl,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            err = None
            for s, p in procs:
                out, _ = p.communicate()
                if p.returncode != 0:
                    err = "goto-cc %s: %s" % (s, out.decode(errors="replace")[-800:])
            self.libs[variant] = (objs, err)
            return self.libs[variant]

    def defs(self, q):
        return ["-D%s=%s" % (k, v) if v is not None else "-D" + k
                for k, v in sorted(q.defs.items())]

    def copies(self, q, d, subs):
        """copies of the sources with replacements, first on the include path"""
        text = {}
        for part in subs:
            for name, pairs in (part or {}).items():
                if name not in text:
                    with open(os.path.join(REPO, "src", name)) as f:
                        text[name] = f.read()
                for pat, to in pairs:
                    text[name] = re.sub(pat, to, text[name])
        if not text:
            return []
        os.makedirs(d, exist_ok=True)
        for name, t in text.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(t)
        return ["-I" + d]

    def build(self, q):
        objs, err = self.build_lib(q.variant)
        if err:
            return None, err
        gb = os.path.join(self.tmp, re.sub(r"\W", "_", q.name) + ".gb")
        extra = self.copies(q, gb + ".src", [q.scaled, q.patched])
        rc, out, er = sh(["goto-cc", "-o", gb, os.path.join(HARN, q.harness)] +
                         objs + extra + self.cflags(q.variant) + self.defs(q), timeout=120)
        if rc != 0:
            return None, "goto-cc link: " + (out + er).decode(errors="replace")[-800:]
        if q.calls:
            rc, out, er = sh(["goto-instrument"] + [x for k, r in sorted(q.calls.items()) for x in ("--replace-calls", k + ":" + r)] +
                             [gb, gb + ".r"], timeout=60)
            if rc != 0:
                return None, "goto-instrument: " + (out + er).decode(errors="replace")[-800:]
            os.replace(gb + ".r", gb)
        key = (q.harness, q.defs.get("CASE"))
        with self.lock:
            new = key not in self.fn_seen
            self.fn_seen.add(key)
        if new:
            rc, out, er = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=60)
            names = set(re.findall(rb"[A-Za-z_]\w*", out))
            rc2, out2, _ = sh(["bash", "-c", "grep -hoE '^[A-Za-z_][A-Za-z0-9_ *]*\\b([a-z_0-9]+)\\(' " +
                               os.path.join(REPO, "src") + "/*.c"], timeout=30)
            known = set(re.findall(rb"([A-Za-z_]\w*)\(", out2))
            with self.lock:
                self.functions |= {n.decode() for n in names & known}
        return gb, None

    def harness_loops(self, q, gb):
        """q.lunw bounds the loops of the library; the loops of the harness and
        of the libc models get q.unwind"""
        _, out, _ = sh(["goto-instrument", "--show-loops", gb], timeout=60)
        us = {"memcmp.0": q.unwind}
        for m in re.finditer(r"Loop (\S+):\s*\n\s*file (\S+) line (\d+)", out.decode(errors="replace")):
            if not m.group(2).startswith(os.path.join(REPO, "src")) and not m.group(1).startswith("__CPROVER"):
                us[m.group(1)] = q.unwind
            elif q.hints:
                # starting bounds for loops whose text matches; a wrong guess
                # only costs another run with a larger bound
                try:
                    text = open(m.group(2)).read().splitlines()[int(m.group(3)) - 1]
                except (OSError, IndexError):
                    continue
                for pat, n in q.hints.items():
                    if re.search(pat, text):
                        us[m.group(1)] = n
        return us

    # ---- one solver run ----------------------------------------------------
    def cbmc(self, q, gb, unwindset, timeout, extra=(), unwind=None):
        """runs the solvers of q one after the other until one answers"""
        sats = q.sat if isinstance(q.sat, tuple) else (q.sat,)
        for k, sat in enumerate(sats):
            t0 = time.time()
            r = self.cbmc1(q, sat, gb, unwindset, timeout / (len(sats) - k), extra, unwind)
            timeout -= time.time() - t0
            if k == len(sats) - 1:
                return r
            if r[0] is not None:
                p = self.parse(r[1])
                if p and p[0] and not any(x["status"] not in ("FAILURE", "SUCCESS") for x in p[0]):
                    return r
            if self.stop.is_set():
                return r

    def cbmc1(self, q, sat, gb, unwindset, timeout, extra=(), unwind=None):
        cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8",
               "--drop-unused-functions", "--unwind", str(unwind or q.lunw or q.unwind)]
        if not q.malloc_fail:
            cmd.append("--no-malloc-may-fail")
        if q.partial:
            cmd += ["--partial-loops", "--no-unwinding-assertions"]
        if unwindset:
            cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(unwindset.items()))]
        if sat == "kissat":
            cmd += ["--external-sat-solver", "kissat"]
        elif sat in ("z3", "cvc5"):
            cmd += ["--" + sat]
        elif sat:
            cmd += ["--sat-solver", sat]
        cmd += q.opts
        cmd += list(extra)
        return sh(["prlimit", "--as=%d" % (12 << 30)] + cmd, timeout=timeout)

    @staticmethod
    def parse(out):
        try:
            js = json.loads(out.decode(errors="replace"))
        except Exception:
            return None
        res, msgs = None, []
        for e in js:
            if "result" in e:
                res = e["result"]
            if "messageText" in e:
                msgs.append(e["messageText"])
        return res, msgs

    def run_query(self, q):
        r = dict(name=q.name, status="undecided", detail="", asserts=0,
                 solver_s=0.0, wall_s=0.0, vars=0, clauses=0, runs=0, defs=q.defs,
                 harness=q.harness)
        t0 = time.time()
        try:
            self._run_query(q, r)
        except Exception as e:  # never let the machinery end with a stack trace
            r["detail"] = "machinery: %r" % (e,)
        r["wall_s"] = round(time.time() - t0, 2)
        return r

    def _run_query(self, q, r):
        if self.stop.is_set() or self.left() < 5:
            r["detail"] = "not started: budget used up or violation already found"
            return
        gb, err = self.build(q)
        if err:
            r["detail"] = err
            return
        us = self.harness_loops(q, gb) if q.lunw else {}
        searched = False
        tq = time.time()
        while True:
            to = min(q.timeout - (time.time() - tq), self.left() - 20)
            if to <= 1 or self.stop.is_set():
                r["detail"] = "time-out after %d solver runs" % r["runs"]
                return
            if q.minunw and not searched:
                # find the smallest sufficient unwinding per loop first: only
                # unwinding assertions are decided in this phase
                rc, out, err = self.cbmc(q, gb, us, to, ["--no-assertions", "--no-standard-checks",
                                                         "--unwinding-assertions"])
                p = self.parse(out) if rc is not None else None
                r["runs"] += 1
                if p is None or p[0] is None:
                    r["detail"] = "time-out in unwinding search (%.0f s)" % (time.time() - tq)
                    return
                unw = [x["property"] for x in p[0] if x["status"] == "FAILURE"]
                grew = False
                for x in unw:
                    m = re.match(r"(.*)\.unwind\.(\d+)$", x)
                    if m:
                        loop = "%s.%s" % (m.group(1), m.group(2))
                        cur = us.get(loop, q.lunw or q.unwind)
                        if cur < q.max_unwind:
                            us[loop] = min(q.max_unwind, max(cur + 1, int(cur * 1.6)))
                            grew = True
                if grew:
                    continue
                searched = True
                continue
            rc, out, err = self.cbmc(q, gb, us, to)
            r["runs"] += 1
            if rc is None:
                r["detail"] = "time-out (%.0f s)" % (time.time() - tq)
                return
            p = self.parse(out)
            if p is None or p[0] is None:
                r["detail"] = "no verdict: " + (out[-300:] + err[-300:]).decode(errors="replace")
                return
            res, msgs = p
            for m in msgs:
                g = re.match(r"Runtime Solver: ([\d.e-]+)s", m)
                if g:
                    r["solver_s"] += float(g.group(1))
                g = re.match(r"(\d+) variables, (\d+) clauses", m)
                if g:
                    r["vars"] = max(r["vars"], int(g.group(1)))
                    r["clauses"] = max(r["clauses"], int(g.group(2)))
            r["asserts"] = len(res)
            wit = [x for x in res if "WITNESS" in x.get("description", "")]
            nobody = [x for x in res if x["status"] == "FAILURE" and ".no-body." in x["property"]]
            bad = [x for x in res if x["status"] == "FAILURE" and x not in wit and x not in nobody]
            other = [x for x in res if x["status"] not in ("FAILURE", "SUCCESS")]
            unw = [x for x in bad if ".unwind." in x["property"] or "unwinding assertion" in x["description"]
                   or "recursion" in x["property"]]
            real = [x for x in bad if x not in unw]
            if real:
                # assertions in CHECK first: they name the broken property
                real.sort(key=lambda x: 0 if x["description"].startswith("CHECK") else 1)
                # past an insufficient bound the solver's values may be of no use
                self.confirm(q, gb, us, real[:1] if unw else real, r)
                if r["status"] == "violated" or not unw:
                    return
                unconfirmed = r["detail"]
            if unw:
                grew = False
                for x in unw:
                    m = re.match(r"(.*)\.unwind\.(\d+)$", x["property"])
                    if not m:
                        continue
                    loop = "%s.%s" % (m.group(1), m.group(2))
                    cur = us.get(loop, q.lunw or q.unwind)
                    if cur < q.max_unwind and q.refine:
                        us[loop] = min(q.max_unwind, cur * 2 if cur > 2 else cur + 2)
                        grew = True
                if grew:
                    continue
                if real:
                    r["detail"] = unconfirmed
                    return
                # the loop runs past the bound: a hang in the real code?
                self.confirm(q, gb, us, unw, r, hang=True)
                if r["status"] != "violated":
                    r["detail"] = "unwinding unfinished: " + unw[0]["property"]
                return
            if nobody:
                r["detail"] = "no model for " + ", ".join(x["property"].split(".no-body.")[1] for x in nobody)
                return
            if other:
                r["detail"] = "solver gave no verdict for %s (%s)" % (
                    other[0]["property"], other[0]["status"])
                return
            if not wit or any(x["status"] != "FAILURE" for x in wit):
                r["detail"] = "vacuous: reachability witness not violated"
                return
            r["status"] = "holds"
            r["unwindset"] = us
            return

    # ---- counterexample -> replay against the real code ---------------------
    def confirm(self, q, gb, us, bad, r, hang=False):
        tried = []
        for x in bad[:4]:
            if self.stop.is_set():
                r["detail"] = "another query already reported a violation"
                return
            to = min(max(q.timeout, 60), self.left() - 15)
            rc, out, err = self.cbmc(q, gb, us, to, ["--trace", "--property", x["property"]] +
                                     ([] if hang or q.partial else ["--no-unwinding-assertions"]))
            vals = extract_values(out) if rc is not None else None
            if vals is None:
                tried.append("%s: no trace" % x["property"])
                continue
            ok, log = self.replay(q, vals, hang)
            if ok:
                self.report(q, x, vals, log, r)
                return
            tried.append("%s (%s): solver input did not reproduce natively" % (x["property"], x["description"]))
            if os.environ.get("VERIF_DEBUG"):
                print(log, len(vals), sorted(vals.items())[:40])
        r["detail"] = "unconfirmed counterexample: " + "; ".join(tried)

    def native_build(self, q, d, autoinit):
        v = VARIANTS[q.variant]
        exe = os.path.join(d, "replay_" + autoinit)
        srcs = [os.path.join(HARN, q.harness), os.path.join(LIB, "replay.c")]
        if not v.get("nolib"):
            srcs += self.lib_sources()
        cmd = ["gcc", "-g", "-O1", "-w", "-DVERIF_REPLAY", "-U_FORTIFY_SOURCE",
               "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow",
               "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=" + autoinit,
               "-o", exe] + srcs + [os.path.join(LIB, m) for m in v["nmodels"]] + \
            self.copies(q, os.path.join(d, "copies"), [q.patched]) + self.cflags(q.variant) + self.defs(q) + ["-lm"]
        return cmd, exe

    def replay(self, q, vals, hang=False):
        d = tempfile.mkdtemp(prefix="replay_", dir=self.tmp)
        vf = os.path.join(d, "values.txt")
        with open(vf, "w") as f:
            for (n, i), v in sorted(vals.items()):
                f.write("%s %d %x\n" % (n, i, v))
        log = []
        for autoinit in ("pattern", "zero"):
            cmd, exe = self.native_build(q, d, autoinit)
            rc, out, err = sh(cmd, timeout=180)
            if rc != 0:
                log.append("replay build failed: " + (out + err).decode(errors="replace")[-500:])
                return False, "\n".join(log)
            for fill in (0, 255, 165):
                env = dict(os.environ, VERIF_VALUES=vf, ASAN_OPTIONS=ASAN % fill)
                rc, out, err = sh([exe], timeout=q.rtimeout, cwd=d, env=env)
                text = (out + err).decode(errors="replace")
                if rc is None:
                    if hang:
                        return True, "does not terminate within %d s" % q.rtimeout
                    log.append("native replay timed out")
                    continue
                if rc not in (0,):
                    return True, "malloc_fill_byte=%d auto-init=%s exit=%s\n%s" % (fill, autoinit, rc, text[:4000])
                log.append(text[-300:])
        return False, "\n".join(log)

    def report(self, q, x, vals, log, r):
        h = hashlib.sha1(repr((q.name, sorted(vals.items()))).encode()).hexdigest()[:8]
        d = os.path.join(VERIF, "replays", self.pid, re.sub(r"\W", "_", q.name) + "_" + h)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "values.txt"), "w") as f:
            for (n, i), v in sorted(vals.items()):
                f.write("%s %d %x\n" % (n, i, v))
        with open(os.path.join(d, "README.txt"), "w") as f:
            f.write("property %s, query %s\nassertion %s: %s\n at %s\n\nnative replay:\n%s\n" % (
                self.pid, q.name, x["property"], x["description"],
                json.dumps(x.get("sourceLocation", {})), log))
        cmd, exe = self.native_build(q, d, "zero")
        with open(os.path.join(d, "replay.sh"), "w") as f:
            f.write("#!/bin/bash\n# rebuilds /repo's sources natively and feeds them the solver's input\nset -e\n")
            f.write(" ".join("'%s'" % c if re.search(r"[^\w./=,:+-]", c) else c for c in cmd) + "\n")
            f.write("for b in 0 255 165; do ASAN_OPTIONS=%s VERIF_VALUES=%s %s; done\n" % (
                ASAN.replace("%d", "$b"), os.path.join(d, "values.txt"), exe))
        first = log.splitlines()
        r["status"] = "violated"
        r["detail"] = "%s: %s" % (x["property"], x["description"])
        r["replay"] = d
        r["log"] = first[:6]
        with self.lock:
            if self.violation is None:
                self.violation = r
        self.stop.set()
        kill_all()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


ASAN = "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=%d:detect_stack_use_after_return=0:exitcode=77"


def extract_values(out):
    try:
        js = json.loads(out.decode(errors="replace"))
    except Exception:
        return None
    trace = None
    for e in js:
        for x in e.get("result", []) if isinstance(e, dict) else []:
            if x.get("trace") and "WITNESS" not in x.get("description", ""):
                trace = x["trace"]
    if trace is None:
        return None
    vals = {}

    def put(name, idx, v):
        b = v.get("binary")
        if b is None:
            d = v.get("data", "")
            if d in ("TRUE", "true"):
                b = "1"
            elif d in ("FALSE", "false"):
                b = "0"
            else:
                return
        vals.setdefault((name, idx), int(b, 2))

    def walk(name, v):
        if v.get("name") == "struct":
            for m in v.get("members", []):
                walk(name, m.get("value", {}))
        elif v.get("name") in ("array",):
            for e in v.get("elements", []):
                put(name, int(e["index"]), e["value"])
        else:
            put(name, 0, v)

    for s in trace:
        if s.get("stepType") != "assignment" or s.get("hidden"):
            continue
        lhs = s.get("lhs", "")
        m = re.match(r"^(in_\w+?)(_st)?((?:\.a)?(?:\[(\d+)[a-z]*\])?)$", lhs)
        if not m:
            continue
        if "value" not in s:
            continue
        name = m.group(1)
        if m.group(4) is not None:
            put(name, int(m.group(4)), s["value"])
        else:
            walk(name, s["value"])
    return vals


def run_property(pid, prop, tier, seed):
    """prop: dict(queries=[Q...], level=..., assumptions=[...], bounds=str)"""
    budget = int(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "7200"))
    eng = Engine(pid, tier, budget)
    t0 = time.time()
    results = []
    known = load_known(pid)
    try:
        qs = prop["queries"]
        for n in sorted({q.variant for q in qs}):
            eng.build_lib(n)
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            futs = [ex.submit(eng.run_query, q)
                    for q in sorted(qs, key=lambda q: q.cost)]
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                if r["status"] != "holds" or os.environ.get("VERIF_VERBOSE"):
                    if not (eng.stop.is_set() and r["status"] == "undecided"):
                        print("%-10s %s %s %.1fs" % (r["status"], r["name"], r["detail"], r["wall_s"]))
                        sys.stdout.flush()
    finally:
        eng.close()
    results.sort(key=lambda r: r["name"])
    holds = [r for r in results if r["status"] == "holds"]
    und = [r for r in results if r["status"] == "undecided"]
    viol = [r for r in results if r["status"] == "violated"]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.get("level", "model_checking"),
        coverage=dict(
            states=sum(r["vars"] for r in holds),
            transitions=sum(r["clauses"] for r in holds),
            traces_validated_against_impl=len(viol),
            samples=0,
            explanation="bounded symbolic execution with CBMC: 'states' counts the propositional "
                        "variables and 'transitions' the clauses of the formulas discharged",
            queries_total=len(results), queries_discharged=len(holds),
            queries_undecided=[dict(name=r["name"], why=r["detail"]) for r in und],
            assertions_discharged=sum(r["asserts"] for r in holds),
            solver_time_s=round(sum(r["solver_s"] for r in results), 2),
            functions_encoded=sorted(eng.functions),
            bounds=prop.get("bounds", ""),
            per_query=[dict(name=r["name"], status=r["status"], asserts=r["asserts"],
                            vars=r["vars"], clauses=r["clauses"], solver_s=round(r["solver_s"], 3),
                            wall_s=r["wall_s"]) for r in results]),
        assumptions=prop.get("assumptions", []),
        wall_s=round(time.time() - t0, 2),
        violations=[dict(query=r["name"], what=r["detail"], replay=r["replay"]) for r in viol])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s tier=%s queries=%d holds=%d undecided=%d violated=%d asserts=%d solver=%.1fs wall=%.1fs" % (
        pid, tier, len(results), len(holds), len(und), len(viol),
        ev["coverage"]["assertions_discharged"], ev["coverage"]["solver_time_s"], ev["wall_s"]))
    if viol:
        for r in viol:
            print("  %s %s" % (r["name"], r["detail"]))
            for l in r.get("log", []):
                print("    " + l)
        print("VIOLATION property=%s replay=%s" % (pid, viol[0]["replay"]))
        return 1
    return 0 if holds else 2


def load_known(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\w+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append(m.group(2))
    except OSError:
        pass
    return out
