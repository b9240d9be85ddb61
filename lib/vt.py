"""Shared machinery: build a harness from /repo, run scripts, validate traces with TLC, report."""
import json, os, re, threading, subprocess, sys, tempfile, time, shutil, random, glob, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KORIN_REPO", "/repo")
CORE = REPO + "/src/korin/core"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]
DEBUGFLAGS = ["-std=c++17", "-O0", "-g1", "-DBUILD_DEBUG", "-mavx2", "-DPLATFORM_LINUX=1", "-w"]


class CheckError(Exception):
    """The check itself could not do its work (exit code 2)."""


class Unusable(Exception):
    """A program using the interface as the properties describe it cannot be built: a violation."""


def thorough():
    return TIER == "thorough"


class Work:
    """Scratch directory of one run; removed at exit."""
    def __init__(self, pid):
        base = os.path.join(VERIF, "out", "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, name, source, extra=(), san=("asan",), libs=True, std=None, opt=None, core_srcs=None):
    """Compile harness/<source> together with the library's translation units from /repo."""
    exe = work.path(name)
    objdir = work.path("obj-" + name)
    os.makedirs(objdir, exist_ok=True)
    flags = list(DEBUGFLAGS)
    if opt:
        flags = [f for f in flags if f != "-O0"] + [opt]
    if "asan" in san:
        flags += ASAN
    if "ubsan" in san:
        flags += UBSAN
    if "tsan" in san:
        flags += ["-fsanitize=thread"]
    flags += list(extra)
    inc = ["-I", CORE + "/public", "-I", VERIF + "/harness"]
    srcs = [os.path.join(VERIF, "harness", source)]
    if libs:
        srcs += core_srcs if core_srcs is not None else sorted(
            s for s in glob.glob(CORE + "/private/**/*.cpp", recursive=True)
            if os.path.basename(s) != "main.cpp" or True)

    def one(src):
        obj = os.path.join(objdir, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
        r = subprocess.run(["g++", *flags, *inc, "-c", src, "-o", obj], capture_output=True, text=True, errors="replace")
        return obj, r
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, srcs))
    objs = []
    for obj, r in res:
        if r.returncode:
            errs = [l for l in r.stderr.split("\n") if "error:" in l]
            sys.stderr.write("\n".join(errs[:12]) + "\n")
            if errs and r.returncode == 1 and "internal compiler error" not in r.stderr:
                raise Unusable("harness/%s, which uses the interface as documented, does not compile against this tree:\n%s" % (source, r.stderr[:6000]))
            raise CheckError("harness %s does not compile" % source)
        objs.append(obj)
    r = subprocess.run(["g++", *flags, *objs, "-o", exe, "-lpthread"], capture_output=True, text=True, errors="replace")
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        if "undefined reference" in r.stderr or "multiple definition" in r.stderr:
            raise Unusable("harness/%s, which uses the interface as documented, does not link against this tree:\n%s" % (source, r.stderr[:6000]))
        raise CheckError("harness %s does not link" % source)
    return exe


# ---------------------------------------------------------------- running scripts

def run_harness(exe, scenarios, work, tag="run", args=(), cpu_s=10, max_crashes=3, env=None, wall_s=900, batch=None):
    """Runs scenarios (lists of lines). Returns a list of event lists (dicts), one per scenario.

    The harness writes one JSON object per event. When it dies inside a scenario, an event
    Crash/Hang (which no specification allows) closes that scenario, and the harness is restarted
    behind it."""
    n = len(scenarios)
    out = [None] * n
    start = 0
    crashes = 0
    deadline = time.time() + wall_s
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:allocator_may_return_null=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:quarantine_size_mb=16:malloc_context_size=4"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=98"
    if env:
        e.update(env)
    while start < n:
        sp = work.path("%s-%d.script" % (tag, start))
        tp = work.path("%s-%d.ndjson" % (tag, start))
        with open(sp, "w") as f:
            for sc in scenarios[start:]:
                f.write("reset\n")
                for l in sc:
                    f.write(l + "\n")
        errp = work.path("%s-%d.err" % (tag, start))
        with open(errp, "w") as ef:
            try:
                r = subprocess.run([exe, sp, tp, str(cpu_s), *args], stdout=ef, stderr=ef, env=e,
                                   timeout=max(5, deadline - time.time()))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        cur = start - 1
        try:
            with open(tp, errors="replace") as f:
                lines = f.read().split("\n")
        except FileNotFoundError:
            lines = []
        done = False
        for l in lines:
            if not l:
                continue
            if l == '{"e":"Done"}':
                done = True
                continue
            try:
                ev = json.loads(l)
            except ValueError:
                continue    # torn line of a crash
            if ev["e"] == "Reset":
                cur += 1
                if cur < n:
                    out[cur] = []
            if 0 <= cur < n:
                out[cur].append(ev)
        if done and rc == 0:
            break
        err = open(errp, errors="replace").read()
        if rc == 77:
            raise CheckError("harness rejected its script: " + err[-500:])
        if cur < start:
            raise CheckError("harness did not start (rc=%s): %s" % (rc, err[-1500:]))
        kind = "Hang" if rc in (-signal.SIGPROF, -signal.SIGALRM, "timeout", -signal.SIGXCPU) else "Crash"
        if done:
            kind = "Crash"  # died in final teardown
        m = re.search(r"(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*|terminate called[^\n]*)", err)
        out[cur].append({"e": kind, "why": (m.group(1) if m else "rc=%s" % rc)[:200].replace('"', "'").replace("\\", "/")})
        crashes += 1
        start = cur + 1
        if crashes >= max_crashes:
            break
    return [(i, o) for i, o in enumerate(out) if o is not None]


def run_parallel(exe, scenarios, work, tag="run", shards=None, **kw):
    """Split the scenarios over several harness processes."""
    shards = shards or NCPU
    idx = [list(range(k, len(scenarios), shards)) for k in range(shards)]
    idx = [i for i in idx if i]

    def go(k):
        res = run_harness(exe, [scenarios[j] for j in idx[k]], work, tag="%s-%d" % (tag, k), **kw)
        return [(idx[k][i], o) for i, o in res]
    with ThreadPoolExecutor(shards) as ex:
        parts = list(ex.map(go, range(len(idx))))
    return sorted((x for p in parts for x in p), key=lambda t: t[0])


# ---------------------------------------------------------------- TLC

def java(args, work, heap="2g", timeout=800, env=None, extra_jvm=()):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    meta = tempfile.mkdtemp(prefix="meta-", dir=work.dir)
    cmd = ["java", "-Djava.io.tmpdir=" + work.dir, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1" if "-simulate" not in args and heap == "1g" else "-XX:+TieredCompilation",
           "-Xmx" + heap, "-Xss64m", *extra_jvm, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", *args]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "specs"), env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as t:
        raise CheckError("TLC timed out: " + " ".join(args))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def cfg_text(spec="Spec", invariants=(), properties=(), constants=None, constraint=None, action_constraint=None,
             view=None, postcondition=None, deadlock=False, extra=""):
    t = "SPECIFICATION %s\n" % spec
    for k, v in (constants or {}).items():
        t += "CONSTANT %s = %s\n" % (k, v)
    for i in invariants:
        t += "INVARIANT %s\n" % i
    for p in properties:
        t += "PROPERTY %s\n" % p
    if constraint:
        t += "CONSTRAINT %s\n" % constraint
    if action_constraint:
        t += "ACTION_CONSTRAINT %s\n" % action_constraint
    if view:
        t += "VIEW %s\n" % view
    if postcondition:
        t += "POSTCONDITION %s\n" % postcondition
    t += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return t + extra


def write_cfg(work, text):
    fd, p = tempfile.mkstemp(suffix=".cfg", dir=work.dir)
    os.close(fd)
    with open(p, "w") as f:
        f.write(text)
    return p


def model_check(work, module, cfg, workers=4, heap="4g", timeout=800, edges=False, coverage=False, expect_ok=True, env=None):
    """Exhaustive model checking. Returns dict(states, transitions, depth, edges, out)."""
    args = ["-config", write_cfg(work, cfg), "-workers", str(workers)]
    if coverage:
        args += ["-coverage", "1"]
    rc, out = java(args + [module], work, heap=heap, timeout=timeout, env=env)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"rc": rc, "out": out}
    if m:
        res["transitions"], res["states"] = int(m.group(1)), int(m.group(2))
    d = re.search(r"The depth of the complete state graph search is (\d+)", out)
    res["depth"] = int(d.group(1)) if d else 0
    if expect_ok and (rc != 0 or not m):
        raise CheckError("model %s fails on its own: rc=%s\n%s" % (module, rc, out[-3000:]))
    if edges:
        es = []
        for l in out.split("\n"):
            if l.startswith('<<"EDGE"'):
                mm = re.match(r'<<"EDGE", (.*)>>$', l)
                parts = json.loads("[" + mm.group(1).replace('\\\\"', '\\\\"') + "]")
                es.append((canon(parts[0]), parts[1], canon(parts[2])))
        res["edges"] = es
    return res


def canon(js):
    return json.dumps(json.loads(js), sort_keys=True, separators=(",", ":"))


def tour(edges, init, maxlen=40):
    """edges: (from, op, to). Returns scripts (lists of op) from init covering every edge."""
    out = {}
    for u, op, v in edges:
        out.setdefault(u, {})[op] = v
    if init not in out:
        raise CheckError("initial state %r not among the edges" % (init,))
    # shortest path tree
    par = {init: None}
    q = [init]
    for u in q:
        for op, v in out.get(u, {}).items():
            if v not in par:
                par[v] = (u, op)
                q.append(v)
    todo = {u: sorted(ops, reverse=True) for u, ops in out.items() if u in par}
    scripts = []

    def path(u):
        p = []
        while par[u]:
            u, op = par[u]
            p.append(op)
        return p[::-1]
    order = q
    for s in order:
        while todo.get(s):
            sc = path(s)
            u = s
            while len(sc) < maxlen and todo.get(u):
                op = todo[u].pop()
                sc.append(op)
                u = out[u][op]
            scripts.append(sc)
    lost = sum(len(o) for u, o in out.items() if u not in par) + sum(len(t) for t in todo.values())
    if lost:
        raise CheckError("%d edges of the state graph are not covered by the replay scripts" % lost)
    return scripts


class Rejection:
    def __init__(self, scenario, index, event, prefix, why):
        self.scenario, self.index, self.event, self.prefix, self.why = scenario, index, event, prefix, why


def evaluation_error(out):
    """Index of the event on which TLC could not evaluate the specification (values outside its domain), if that is why it stopped."""
    if "is violated" in out or "OutOfMemory" in out or "StackOverflow" in out or "Java heap" in out:
        return 0
    if "The error occurred when TLC was evaluating" not in out and "Error: Evaluating" not in out and "overflow" not in out.lower() and "Attempted to" not in out:
        return 0
    n = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
    return int(n[-1]) if n else 0


def validate_chunk(work, module, cfg, evs, heap="1g", timeout=600, env=None):
    """Validates one list of events. Returns (n_matched, states, transitions, out)."""
    fd, tp = tempfile.mkstemp(suffix=".ndjson", dir=work.dir)
    with os.fdopen(fd, "w") as f:
        for e in evs:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    e = {"TRACE": tp}
    if env:
        e.update(env)
    rc, out = java(["-config", cfg, "-workers", "1", module], work, heap=heap, timeout=timeout, env=e)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"The depth of the complete state graph search is (\d+)", out)
    hi = re.search(r'<<"MATCHED", (\d+)>>', out)
    os.unlink(tp)
    if "Trace acceptance" in out or rc == 0 or "is violated" in out or "Postcondition" in out or "POSTCONDITION" in out.upper():
        pass
    if rc == 0 and m:
        return len(evs), int(m.group(2)), int(m.group(1)), out
    bad = evaluation_error(out)
    if bad:
        # the specification does not give this event a meaning at all
        return min(bad - 1, len(evs) - 1), int(m.group(2)) if m else 0, int(m.group(1)) if m else 0, out
    if m is None and "is violated" not in out and not d:
        # evaluation error inside the spec: model failure
        raise CheckError("TLC failed on trace (%s): rc=%s\n%s" % (module, rc, out[-3000:]))
    if rc not in (10, 12, 13, 1) and "is violated" not in out and "Assumption" in out:
        raise CheckError("TLC failed: " + out[-2000:])
    if re.search(r"Error: (?!.*(violated|postcondition|POSTCONDITION|Postcondition|The behavior|invariant))", out) and "is violated" not in out and "ostcondition" not in out and "POSTCONDITION" not in out:
        raise CheckError("TLC evaluation error (%s): rc=%s\n%s" % (module, rc, out[out.find("Error:"):][:1500]))
    if hi:
        matched = int(hi.group(1))
    elif d:
        matched = int(d.group(1)) - 1
    else:
        n = re.findall(r"State (\d+):", out)
        matched = max(map(int, n)) - 1 if n else 0
        if "is violated" in out:
            matched = max(0, matched - 1)   # the last matched event produced the bad state
    return min(matched, len(evs) - 1), int(m.group(2)) if m else 0, int(m.group(1)) if m else 0, out


def validate(work, module, cfg, results, chunk=3000, heap="1g", timeout=600, workers=None, env=None, max_rej=3):
    """results: list of (scenario index, events). Returns (stats, rejections)."""
    cfgp = write_cfg(work, cfg)
    chunks, cur, size = [], [], 0
    for i, evs in results:
        cur.append((i, evs))
        size += len(evs)
        if size >= chunk:
            chunks.append(cur)
            cur, size = [], 0
    if cur:
        chunks.append(cur)
    stats = {"events": sum(len(e) for _, e in results), "states": 0, "transitions": 0, "traces": 0, "chunks": len(chunks)}
    rejs = []

    def go(ch):
        evs = [e for _, es in ch for e in es]
        matched, st, tr, out = validate_chunk(work, module, cfgp, evs, heap=heap, timeout=timeout, env=env)
        if matched == len(evs):
            return st, tr, len(ch), None
        k = 0
        for n, (i, es) in enumerate(ch):
            if matched < k + len(es):
                j = matched - k
                why = "invariant" if "is violated" in out and "nvariant" in out else "event not allowed"
                return st, tr, n, Rejection(i, j, es[j], es[:j + 1], why)
            k += len(es)
        raise CheckError("cannot locate rejection (%d of %d)\n%s" % (matched, len(evs), out[-1500:]))
    with ThreadPoolExecutor(workers or NCPU) as ex:
        for st, tr, n, rej in ex.map(go, chunks):
            stats["states"] += st
            stats["transitions"] += tr
            stats["traces"] += n
            if rej:
                rejs.append(rej)
    return stats, rejs


# ---------------------------------------------------------------- reporting

def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def evidence(pid, level, coverage, t0, assumptions=(), violations=0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)
        f.write("\n")


def report_violation(pid, n, text):
    d = os.path.join(VERIF, "out", "violations")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (pid, n))
    with open(p, "w") as f:
        f.write(text)
    print("VIOLATION property=%s replay=%s" % (pid, p))
    sys.stdout.flush()


class Conformance:
    """One batch of scripts -> harness -> TLC, with confirmation of rejections."""
    def __init__(self, pid, work):
        self.pid, self.work = pid, work
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "model_states": 0, "model_transitions": 0, "graph_edges_replayed": 0, "samples": [], "batches": {}}
        self.viol = 0
        for f in glob.glob(os.path.join(VERIF, "out", "violations", pid + "-*.txt")):
            os.remove(f)
        self.lock = threading.Lock()
        self.assumptions = []

    def model(self, module, cfg, **kw):
        t = time.time()
        r = model_check(self.work, module, cfg, **kw)
        self.cov["model_states"] += r["states"]
        self.cov["model_transitions"] += r["transitions"]
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov["batches"].setdefault("model:" + module, []).append({"states": r["states"], "transitions": r["transitions"], "depth": r["depth"], "wall_s": round(time.time() - t, 1)})
        return r

    def batch(self, name, exe, scenarios, module, cfg, args=(), chunk=3000, env=None, run_kw=None, tlc_env=None, heap="1g", shards=None, confirm=True, timeout=700):
        """Returns number of violations."""
        t = time.time()
        run_kw = dict(run_kw or {})
        if os.environ.get("VT_ONLY") and not name.startswith(os.environ["VT_ONLY"]):
            return 0        # while developing
        if self.viol >= 3 or (self.viol and t - self.t0 > 120):
            return 0        # the verdict stands; the rest would only repeat it (slowly, when the code hangs)
        res = run_parallel(exe, scenarios, self.work, tag=name.replace("/", "_"), args=args, env=env, shards=shards, **run_kw)
        t1 = time.time()
        stats, rejs = validate(self.work, module, cfg, res, chunk=chunk, env=tlc_env, heap=heap, timeout=timeout)
        ops = {}
        self.lock.acquire()
        for _, es in res:
            for e in es:
                ops[e["e"]] = ops.get(e["e"], 0) + 1
        self.cov["batches"][name] = {"scenarios": len(scenarios), "events": stats["events"], "chunks": stats["chunks"],
                                     "per_action": ops, "run_s": round(t1 - t, 1), "tlc_s": round(time.time() - t1, 1)}
        self.cov["states"] += stats["states"]
        self.cov["transitions"] += stats["transitions"]
        self.cov["traces_validated_against_impl"] += stats["traces"]
        self.cov["events_validated"] += stats["events"]
        if scenarios and len(self.cov["samples"]) < 8:
            s = scenarios[min(len(scenarios) - 1, len(scenarios) // 2)]
            self.cov["samples"].append({"batch": name, "script": s[:40]})
        self.lock.release()
        n = 0
        for r in rejs[:3]:
            sc = scenarios[r.scenario]
            ok = True
            again = None
            if confirm:
                again = self.recheck(exe, [sc], module, cfg, args, env, run_kw, tlc_env, heap)
                if again is None:
                    # may depend on what ran before in the same process
                    shard_n = shards or NCPU
                    pre = [scenarios[j] for j in range(r.scenario % shard_n, r.scenario + 1, shard_n)]
                    again = self.recheck(exe, pre, module, cfg, args, env, run_kw, tlc_env, heap)
                ok = again is not None
            if not ok:
                raise CheckError("rejection of %s scenario %d (%s) did not repeat" % (name, r.scenario, json.dumps(r.event)[:300]))
            n += 1
            with self.lock:
                self.viol += 1
                vn = self.viol
            r2 = again or r
            txt = "property %s, batch %s, scenario %d\n%s at event %d:\n  %s\n\nscript (harness %s):\n" % (
                self.pid, name, r.scenario, r2.why, r2.index, json.dumps(r2.event), " ".join(args))
            txt += "\n".join("  " + l for l in sc[:500]) + "\n\ntrace up to the rejected event (TLC module %s):\n" % module
            txt += "\n".join("  " + json.dumps(e) for e in r2.prefix[-200:]) + "\n"
            report_violation(self.pid, vn, txt)
            if os.environ.get("VT_DEBUG"):
                print(txt[-3000:])
        return n

    def par(self, jobs, n=4):
        """Several batches at a time: list of (args, kwargs) of batch."""
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(lambda j: self.batch(*j[0], **j[1]), jobs))

    def recheck(self, exe, scs, module, cfg, args, env, run_kw, tlc_env, heap):
        res = run_harness(exe, scs, self.work, tag="again%d" % random.getrandbits(30), args=args, env=env, **run_kw)
        _, rej = validate(self.work, module, cfg, res, chunk=10**9 if len(scs) < 50 else 3000, env=tlc_env, heap=heap)
        return rej[0] if rej else None

    def finish(self, level="model_checking"):
        evidence(self.pid, level, self.cov, self.t0, self.assumptions, self.viol)
        return 1 if self.viol else 0


TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def main(run, pid):
    """run(conf) -> None; exit code by convention."""
    t0 = time.time()
    work = Work(pid)
    try:
        conf = Conformance(pid, work)
        run(conf)
        code = conf.finish(getattr(conf, "level", "model_checking"))
        for kid, text in known_findings(pid):
            if kid in getattr(conf, "known_seen", set()):
                print("KNOWN-FINDING: property=%s id=%s %s" % (pid, kid, text))
        print("%s %s tier=%s seed=%d events=%d traces=%d states=%d %.1fs" % (
            pid, "VIOLATED" if code else "held", TIER, SEED, conf.cov["events_validated"], conf.cov["traces_validated_against_impl"], conf.cov["states"], time.time() - t0))
        return code
    except Unusable as e:
        report_violation(pid, 1, "property %s\n%s\n" % (pid, e))
        evidence(pid, getattr(conf, "level", "model_checking"), conf.cov, conf.t0, conf.assumptions, 1)
        return 1
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VT_KEEP"):
            work.close()
