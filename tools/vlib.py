"""Machinery shared by all checks: building the harnesses from /repo's working
tree, executing sessions on the real code, running TLC, reporting.

Division of labour: the harness executes, TLC judges. Python generates inputs,
moves data between the two and compares values the specification exported with
values the code produced."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
JARS = ":".join(os.path.join("/opt/veriftools/tla", j)
                for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
NCPU = min(8, os.cpu_count() or 2)


class ToolError(Exception):
    """Something other than the code under test failed: exit 2, no verdict."""


# ------------------------------------------------------------------- building
EXCLUDED = """json_request_translator prefix_writer request_message_translator
request_stream_translator request_weaver response_to_json_translator
status_error_listener type_helper""".split()


def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _walk(d, exts):
    out = []
    for root, _, files in os.walk(d):
        out += [os.path.join(root, f) for f in files if f.endswith(exts)]
    return out


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _pkg(kind, names):
    return _run(["pkg-config", kind] + names).split()


def protos(out):
    """google/api/http.proto and friends, and the bookstore test protos."""
    done = os.path.join(out, ".done")
    if os.path.exists(done):
        return
    import zipfile
    os.makedirs(out, exist_ok=True)
    api = os.path.join(out, "api")
    z = zipfile.ZipFile("/usr/share/java/proto-google-common-protos.jar")
    for n in z.namelist():
        if n.startswith("google/api/") and n.endswith(".proto"):
            z.extract(n, api)
    gen = os.path.join(out, "gen")
    os.makedirs(gen, exist_ok=True)
    _run(["protoc", "-I" + api, "--cpp_out=" + gen, "google/api/http.proto",
          "google/api/annotations.proto"])
    open(done, "w").close()


SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
CXX = "/usr/bin/clang++-18"
FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-pthread"]


def _compile(jobs):
    """jobs: [(src, obj, flags)], in parallel."""
    def one(job):
        src, obj, flags = job
        if os.path.exists(obj):
            return
        tmp = obj + ".tmp%d.o" % os.getpid()
        _run([CXX] + FLAGS + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))


def build_core(san="asan", main="core"):
    """The parts of the library the official build covers, with core.cc (or trie.cc)."""
    srcs = sorted(p for p in _walk(os.path.join(REPO, "src"), (".cc",))
                  if os.path.dirname(p) == os.path.join(REPO, "src")
                  and os.path.basename(p)[:-3] not in EXCLUDED)
    heads = _walk(os.path.join(REPO, "src"), (".h",))
    harn = [os.path.join(HARN, main + ".cc"), os.path.join(HARN, "common.h")]
    key = _hash_files(srcs + heads + harn, "core1" + san)
    d = os.path.join(BUILD, "%s-%s-%s" % (main, san, key))
    exe = os.path.join(d, main)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    pr = os.path.join(BUILD, "protos")
    protos(pr)
    inc = ["-I" + os.path.join(REPO, "src/include"), "-I" + REPO,
           "-I" + os.path.join(pr, "gen"), "-I" + HARN] + SAN[san]
    inc += _pkg("--cflags", ["protobuf", "absl_status", "absl_strings"])
    jobs = [(os.path.join(HARN, main + ".cc"), os.path.join(d, main + ".o"), inc)]
    for s in srcs:
        jobs.append((s, os.path.join(d, os.path.basename(s) + ".o"), inc))
    for s in ("http", "annotations"):
        jobs.append((os.path.join(pr, "gen/google/api/%s.pb.cc" % s),
                     os.path.join(d, s + ".pb.o"), inc))
    _compile(jobs)
    tmp = exe + ".tmp%d" % os.getpid()
    _run([CXX, "-pthread"] + SAN[san] + ["-o", tmp] + [j[1] for j in jobs] +
         _pkg("--libs", ["protobuf", "absl_status", "absl_strings", "absl_synchronization"]))
    os.replace(tmp, exe)
    return exe


def build_json(san="asan"):
    """All of the library, with the stand-in for protobuf's internal JSON
    headers (shim/), and json.cc."""
    srcs = sorted(p for p in _walk(os.path.join(REPO, "src"), (".cc",))
                  if os.path.dirname(p) == os.path.join(REPO, "src"))
    heads = _walk(os.path.join(REPO, "src"), (".h",))
    shim = os.path.join(VERIF, "shim")
    shimf = _walk(shim, (".h", ".cc"))
    harn = [os.path.join(HARN, x) for x in ("json.cc", "common.h", "v.proto")]
    pr = os.path.join(BUILD, "protos")
    protos(pr)
    # What does not depend on /repo is built once.
    key0 = _hash_files(shimf + harn[2:], "shim1" + san)
    d0 = os.path.join(BUILD, "shim-%s-%s" % (san, key0))
    os.makedirs(d0, exist_ok=True)
    if not os.path.exists(os.path.join(d0, "v.pb.cc")):
        tmp = os.path.join(d0, "tmp%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        _run(["protoc", "-I" + HARN, "--cpp_out=" + tmp, os.path.join(HARN, "v.proto")])
        os.replace(os.path.join(tmp, "v.pb.h"), os.path.join(d0, "v.pb.h"))
        os.replace(os.path.join(tmp, "v.pb.cc"), os.path.join(d0, "v.pb.cc"))
        os.rmdir(tmp)
    sysf = _pkg("--cflags", ["protobuf", "absl_status", "absl_strings"])
    inc = ["-I" + os.path.join(shim, "include"), "-I" + shim, "-I" + os.path.join(REPO, "src/include"),
           "-I" + REPO, "-I" + os.path.join(pr, "gen"), "-I" + HARN, "-I" + d0] + SAN[san] + sysf
    own = SAN[san] + sysf
    jobs = [(os.path.join(shim, "shim.cc"), os.path.join(d0, "shim.o"), inc),
            (os.path.join(shim, "bridge.cc"), os.path.join(d0, "bridge.o"), ["-I" + shim] + own),
            (os.path.join(d0, "v.pb.cc"), os.path.join(d0, "v.pb.o"), ["-I" + d0] + own)]
    for s in ("http", "annotations"):
        jobs.append((os.path.join(pr, "gen/google/api/%s.pb.cc" % s), os.path.join(d0, s + ".pb.o"),
                     ["-I" + os.path.join(pr, "gen")] + own))
    key = _hash_files(srcs + heads + harn, "json1" + san + key0)
    d = os.path.join(BUILD, "json-%s-%s" % (san, key))
    exe = os.path.join(d, "json")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    jobs.append((os.path.join(HARN, "json.cc"), os.path.join(d, "json.o"), inc))
    for s in srcs:
        jobs.append((s, os.path.join(d, os.path.basename(s) + ".o"), inc))
    _compile(jobs)
    tmp = exe + ".tmp%d" % os.getpid()
    _run([CXX, "-pthread"] + SAN[san] + ["-o", tmp] + [j[1] for j in jobs] +
         _pkg("--libs", ["protobuf", "absl_status", "absl_statusor", "absl_strings", "absl_str_format",
                         "absl_synchronization"]))
    os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------ executing
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66")


class Crash(Exception):
    def __init__(self, session, rc, err):
        self.session, self.rc, self.err = session, rc, err


def _exec_batch(exe, sessions, limit):
    data = "".join(json.dumps(s) + "\n" for s in sessions)
    try:
        p = subprocess.run([exe, str(limit)], input=data, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=ENV, timeout=700)
    except subprocess.TimeoutExpired:
        raise ToolError("harness batch timed out")
    out = {}
    for line in p.stdout.split("\n"):
        if line:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            out[r["id"]] = r["obs"]
    if p.returncode == 3:
        raise ToolError("harness: " + p.stderr[-2000:])
    return p.returncode, out, p.stderr


def execute(exe, sessions, limit=20, jobs=NCPU):
    """Runs every session on the real code; {id: observation}. Raises Crash if
    a session kills the process, or never ends, and does so again on its own."""
    by = {s["id"]: s for s in sessions}
    assert len(by) == len(sessions)
    n = max(1, min(jobs, len(sessions) // 20 or 1))
    shards = [sessions[i::n] for i in range(n)]
    res, died, errs, fell = {}, set(), "", {}
    with cf.ThreadPoolExecutor(n) as ex:
        for sh, (rc, out, err) in zip(shards, ex.map(lambda sh: _exec_batch(exe, sh, limit), shards)):
            res.update(out)
            left = [s["id"] for s in sh if s["id"] not in out]
            if rc == 66 and left:
                died.add(left[0])
                errs += err
            elif left and rc not in (-9, -14):
                fell[left[0]] = sh
    for s in sessions:
        if s["id"] not in res:
            # A race may not show again; its report is proof enough.
            if "ThreadSanitizer: data race" in errs and s["id"] in died:
                raise Crash(s, 66, errs[-6000:])
            rc, out, err = _exec_batch(exe, [s], limit)
            if s["id"] in out:
                if s["id"] in fell:
                    # Fine alone, but not behind the others: does that repeat?
                    sh = fell[s["id"]]
                    rc3, out3, err3 = _exec_batch(exe, sh[:sh.index(s) + 1], limit)
                    if s["id"] not in out3 and rc3 not in (-9, -14):
                        raise Crash({"behind": sh[max(0, sh.index(s) - 20):sh.index(s)], **s}, rc3, err3[-3000:])
                res.update(out)
                continue
            rc2, out2, _ = _exec_batch(exe, [s], limit)
            if s["id"] in out2:
                res.update(out2)
                continue
            raise Crash(s, rc, err[-3000:])
    return res


# ------------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=NCPU, heap="4g", timeout=600, extra=(), stack="64m"):
    """Runs TLC; returns its output. Raises ToolError on anything but success
    or a violated property."""
    work = os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), random.getrandbits(40)))
    os.makedirs(work, exist_ok=True)
    cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + work, "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC",
           "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else 4), "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", work, "-noGenerateSpecTE", "-deadlock",
           "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(work, "out.txt")
    try:
        with open(out, "w") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        text = open(out).read()
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return p.returncode, text


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Design:
    def __init__(self, module, cfg, states, transitions, lines):
        self.module, self.cfg = module, cfg
        self.states, self.transitions, self.lines = states, transitions, lines


def design(module, cfg, timeout=800, heap="8g", workers=NCPU, extra=()):
    """Checks a specification exhaustively; returns its exported lines. A
    violated invariant here is a defect of the specification, not of the code:
    the specification does not depend on /repo."""
    rc, text = tlc(module, cfg, timeout=timeout, heap=heap, workers=workers, extra=extra)
    m = None
    for m in STATES.finditer(text):
        pass
    if rc != 0 or m is None or "No error has been found" not in text:
        body = "\n".join(x for x in text.split("\n") if not x.startswith('"'))
        raise ToolError("the specification %s/%s does not check (rc %d):\n%s"
                        % (module, cfg, rc, body[-4000:]))
    lines = []
    # In an order that does not depend on how TLC's threads took turns.
    for x in sorted(text.split("\n")):
        if x.startswith('"{') or x.startswith('"['):
            lines.append(json.loads(json.loads(x)))
    m0 = re.search(r"Finished computing initial states: (\d+) ", text)
    return Design(module, cfg, int(m.group(2)), int(m.group(1)) - int(m0.group(1) if m0 else 1), lines)


def _validate_shard(module, cfg, events, idx, timeout, env):
    d = os.path.join(BUILD, "traces")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d-%d.ndjson" % (module, os.getpid(), idx, random.getrandbits(30)))
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    try:
        rc, text = tlc(module, cfg, env=dict(env or {}, TRACE=path), workers=1, heap="3g",
                       timeout=timeout, stack="512m")
    finally:
        os.remove(path)
    m = re.search(r'<<"CONSUMED", (-?\d+)>>', text)
    if m is None:
        raise ToolError("trace validation by %s gave no result (rc %d):\n%s" % (module, rc, text[-4000:]))
    return int(m.group(1)), text


def validate(module, sessions_events, cfg="Trace.cfg", timeout=800, jobs=NCPU, env=None):
    """sessions_events: one list of events per session. Every shard of sessions
    is validated by a TLC of its own. Returns (events consumed, rejected), where
    rejected is a list of (session index, event index)."""
    n = len(sessions_events)
    if n == 0:
        return 0, []
    # Balance by size.
    order = sorted(range(n), key=lambda i: -len(json.dumps(sessions_events[i])) if n < 400 else 0)
    k = max(1, min(jobs, n))
    shards = [order[i::k] for i in range(k)]

    def one(a):
        i, ids = a
        ev = [e for s in ids for e in sessions_events[s]]
        c, text = _validate_shard(module, cfg, ev, i, timeout, env)
        if c >= len(ev):
            return c, None
        pos = c
        for s in ids:
            if pos < len(sessions_events[s]):
                return c, (s, pos)
            pos -= len(sessions_events[s])
        raise ToolError("trace position out of range")
    total, rejected = 0, []
    with cf.ThreadPoolExecutor(k) as ex:
        for c, rej in ex.map(one, list(enumerate(shards))):
            total += c
            if rej is not None:
                rejected.append(rej)
    return total, rejected


# ------------------------------------------------------------------ coverings
def cover(edges, is_init, rng=None, walks=0, maxlen=60):
    """edges: [{"f": state, "t": state, "a": action}]. Paths (lists of actions)
    from initial states that go through every edge, and some random walks."""
    key = lambda s: json.dumps(s, sort_keys=True)
    adj, nodes, uniq = {}, {}, set()
    for e in edges:
        f, t = key(e["f"]), key(e["t"])
        u = (f, t, json.dumps(e["a"], sort_keys=True))
        if u in uniq:
            continue
        uniq.add(u)
        nodes[f] = e["f"]
        nodes.setdefault(t, e["t"])
        adj.setdefault(f, []).append([t, e["a"], False])
    inits = [n for n, s in nodes.items() if is_init(s)]
    assert inits
    parent = {n: None for n in inits}
    todo = list(inits)
    for n in todo:
        for e in adj.get(n, []):
            if e[0] not in parent:
                parent[e[0]] = (n, e)
                todo.append(e[0])
    paths = []
    for n in reversed(todo):        # from the far end, so that paths are long
        for e in adj.get(n, []):
            if e[2]:
                continue
            path, x = [], n
            while parent[x] is not None:
                path.append(parent[x][1])
                x = parent[x][0]
            path.reverse()
            path.append(e)
            x = e[0]
            while len(path) < maxlen:
                free = [y for y in adj.get(x, []) if not y[2] and y is not e and y not in path[-8:]]
                if not free:
                    break
                y = free[0]
                path.append(y)
                y[2] = True
                x = y[0]
            for y in path:
                y[2] = True
            paths.append([y[1] for y in path])
    for _ in range(walks):
        x, path = rng.choice(inits), []
        while adj.get(x) and len(path) < maxlen:
            y = rng.choice(adj[x])
            path.append(y[1])
            x = y[0]
        paths.append(path)
    return paths


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "evaluations": 0, "distinct_nontrivial": 0, "designs": {}, "replayed": {},
                    "validated": {}, "samples": []}
        self.assumptions = []
        self.violations = []
        self.rules = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def design(self, module, cfg, **kw):
        d = design(module, cfg, **kw)
        self.cov["states"] += d.states
        self.cov["transitions"] += d.transitions
        self.cov["designs"]["%s/%s" % (module, os.path.basename(cfg))] = {
            "distinct_states": d.states, "transitions": d.transitions,
            "exported": len(d.lines)}
        self.log("design", module, cfg, d.states, "states", len(d.lines), "exported")
        return d

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            t = json.dumps(s)
            self.cov["samples"].append(s if len(t) < 2500 else t[:2500])

    def violate(self, what, detail):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "detail": detail}, f, indent=1)
        self.violations.append(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("  " + what[:1500], flush=True)

    # Executes sessions and has TLC validate what was recorded.
    #   events(session, obs) -> list of events for the trace specification
    def conform(self, name, exe, sessions, module, events, cfg="Trace.cfg", nontrivial=None,
                limit=20, timeout=800, env=None, flaky=False):
        try:
            obs = execute(exe, sessions, limit)
        except Crash as c:
            self.violate("%s: the code crashes, or does not come back (rc %s)" % (name, c.rc),
                         {"session": c.session, "stderr": c.err})
            return
        evs = [events(s, obs[s["id"]]) for s in sessions]
        consumed, rejected = validate(module, evs, cfg, timeout, env=env)
        for idx, pos in rejected[:3]:
            s = sessions[idx]
            # A rejection counts only if it repeats: run the session again, on
            # its own, and validate it again.
            try:
                again = events(s, execute(exe, [s], limit)[s["id"]])
            except Crash as c:
                self.violate("%s: crash on re-execution" % name, {"session": s, "stderr": c.err})
                continue
            c2, r2 = validate(module, [again], cfg, timeout, env=env)
            if not r2 and flaky:
                # Threads ran: what was recorded is proof enough.
                again, r2 = evs[idx], [(0, pos)]
            if not r2:
                # Not deterministic: that is a violation in itself only if it
                # shows up again.
                seen = False
                for _ in range(5):
                    again = events(s, execute(exe, [s], limit)[s["id"]])
                    c2, r2 = validate(module, [again], cfg, timeout, env=env)
                    if r2:
                        seen = True
                        break
                if not seen:
                    # Alone, the session is in order. Among all the others, as
                    # before, in one process?
                    again = events(s, execute(exe, sessions, limit)[s["id"]])
                    c2, r2 = validate(module, [again], cfg, timeout, env=env)
                    if not r2:
                        raise ToolError("%s: a rejection did not repeat: %s" % (name, json.dumps(s)[:1500]))
                    name += " (only behind other sessions in one process)"
            p = r2[0][1]
            self.violate("%s: event %d of a recorded session is not a behaviour of %s: %s"
                         % (name, p, module, json.dumps(again[p])[:900]),
                         {"session": s, "event": p, "trace": again})
        self.cov["traces_validated_against_impl"] += len(sessions) - len(rejected)
        self.cov["evaluations"] += consumed
        nt = sum(1 for s, e in zip(sessions, evs) if nontrivial(s, e)) if nontrivial else len(sessions)
        distinct = len({hashlib.md5(json.dumps({k: v for k, v in s.items() if k != "id"},
                                               sort_keys=True).encode()).digest()
                        for s, e in zip(sessions, evs) if nontrivial is None or nontrivial(s, e)})
        self.cov["distinct_nontrivial"] += distinct
        self.cov["validated"][name] = {"sessions": len(sessions), "events": consumed,
                                       "nontrivial": nt, "distinct_nontrivial": distinct}
        for e in evs[:1]:
            self.sample({"suite": name, "trace": e[:4]})
        self.log("conform", name, len(sessions), "sessions", consumed, "events", nt, "nontrivial")
        return obs

    # Executes sessions whose observations the specification has predicted.
    #   expected(session) -> the predicted observation, compared with
    #   project(observation)
    def replay(self, name, exe, sessions, expected, project=lambda o: o, limit=20,
               with_session=False):
        proj = project if with_session else (lambda s, o: project(o))
        try:
            obs = execute(exe, sessions, limit)
        except Crash as c:
            self.violate("%s: the code crashes, or does not come back (rc %s)" % (name, c.rc),
                         {"session": c.session, "stderr": c.err})
            return
        bad, rerun = 0, None
        for s in sessions:
            want, got = expected(s), proj(s, obs[s["id"]])
            if want != got:
                again = proj(s, execute(exe, [s], limit)[s["id"]])
                if again == want:
                    # Alone, it is in order. Among all the others, as before?
                    if rerun is None:
                        rerun = execute(exe, sessions, limit)
                    if proj(s, rerun[s["id"]]) == want:
                        raise ToolError("%s: a mismatch did not repeat" % name)
                    name += " (only behind other sessions in one process)" if "only behind" not in name else ""
                bad += 1
                if bad <= 3:
                    self.violate("%s: the code departs from a behaviour of the specification: "
                                 "expected %s, got %s" % (name, json.dumps(want)[:400], json.dumps(got)[:400]),
                                 {"session": s, "expected": want, "observed": got})
        self.cov["evaluations"] += len(sessions)
        self.cov["traces_validated_against_impl"] += len(sessions) - bad
        self.cov["distinct_nontrivial"] += len(sessions)
        self.cov["replayed"][name] = len(sessions)
        if sessions:
            self.sample({"suite": name, "session": sessions[len(sessions) // 2],
                         "expected": expected(sessions[len(sessions) // 2])})
        self.log("replay", name, len(sessions), "behaviours", bad, "departures")
        return obs

    def finish(self):
        self.cov["rule"] = "; ".join(self.rules) or "see DESIGN.md"
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, "." + self.pid + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        self.log("violations:", len(self.violations))
        return 1 if self.violations else 0


def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out
