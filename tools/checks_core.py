"""Checks of the parts of the library the official build covers."""
import itertools
import re

import gen
import vlib
from gen import b


def flat_events(s, obs):
    e = {k: v for k, v in s.items() if k not in ("id", "k")}
    e["obs"] = obs
    return [e]


# ---------------------------------------------------------------- R01 grammar
def check_R01(c):
    exe = vlib.build_core()
    n = c.pick(5, 6)
    cfg = write_cfg("MC_HttpTemplate", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Export = TRUE\n"
                    "INVARIANTS Agree WellFormed Exported\nCHECK_DEADLOCK FALSE\n" % n)
    d = c.design("MC_HttpTemplate", cfg)
    good = {bytes(x["t"]): x["obs"] for x in d.lines}
    none = {"ok": False, "segs": [], "verb": [], "vars": []}
    alpha = [47, 42, 123, 125, 61, 46, 58, 97]
    sessions = []
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            sessions.append({"id": len(sessions), "k": "tmpl", "t": list(t)})
    assert len(sessions) == d.states
    c.replay("all templates over 8 bytes up to length %d" % n, exe, sessions,
             lambda s: good.get(bytes(s["t"]), none))
    r = c.rng
    sessions = []
    for i in range(c.pick(6000, 60000)):
        k = r.random()
        t = gen.template(r)
        if k < 0.35:
            t = gen.mutate(r, t)
        elif k < 0.4:
            t = gen.rbytes(r, 0, 12)
        elif k < 0.41:
            t = gen.template(r, nseg=r.choice([50, 200]))
        sessions.append({"id": i, "k": "tmpl", "t": t})
    c.conform("random templates and near misses", exe, sessions, "Trace_HttpTemplate", flat_events,
              nontrivial=lambda s, e: e[0]["obs"]["ok"])
    sessions = []
    for i in range(c.pick(150, 1500)):
        t = gen.template(r, words=["a", "b" * r.choice([1, 1, 300])], nseg=r.choice([6, 7, 8, 12, 16, 33, 64, 130, 260, 300]),
                         pvar=r.choice([0.05, 0.3, 0.6]), pwild=r.choice([0, 0.02, 0.3]))
        sessions.append({"id": i, "k": "tmpl", "t": gen.mutate(r, t) if r.random() < 0.3 else t})
    c.conform("long templates", exe, sessions, "Trace_HttpTemplate", flat_events,
              nontrivial=lambda s, e: e[0]["obs"]["ok"])
    sessions = []
    for i in range(c.pick(250, 2500)):
        with small_parts(PLAINPARTS):
            s = routing_session(r, i, r.choice([1, 2, 4]), PLAIN, ["", "v"], looks=8, noise=0.1, similar=0.3)
            ops, k = [], 0
            for o in s["ops"]:
                if o["a"] == "reg" and r.random() < 0.6:     # a near miss in front of the real one
                    k += 1
                    ops.append(dict(o, t=gen.mutate(r, o["t"]), id=2000 + k))
                ops.append(o)
            s["ops"] = ops
        sessions.append(s)
    c.conform("tables with rejected templates", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "out"},
              nontrivial=hits)
    c.rules.append("every byte string over / * { } = . : a up to a length (expected outcome from the "
                   "specification), and random templates, mutated templates and noise over all bytes, parsed "
                   "by the code and judged by Trace_HttpTemplate; nontrivial: accepted by the code")


# --------------------------------------------------------------- R05 decoding
def check_R05(c):
    exe = vlib.build_core()
    n = c.pick(4, 5)
    cfg = write_cfg("MC_Percent", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Export = TRUE\n"
                    "INVARIANTS ScanAgrees Reported Layered Exported\nCHECK_DEADLOCK FALSE\n" % n)
    d = c.design("MC_Percent", cfg)
    sessions, want = [], {}
    for x in d.lines:
        for k in range(6):
            i = len(sessions)
            sessions.append({"id": i, "k": "pct", "s": x["s"], "spec": k // 2, "plus": k % 2})
            want[i] = x["o"][k]
    c.replay("all strings over 9 bytes up to length %d in 6 modes" % n, exe, sessions,
             lambda s: want[s["id"]], lambda o: o["out"])
    r = c.rng
    sessions = []

    def add(s):
        for spec in (0, 1, 2):
            for plus in (0, 1):
                sessions.append({"id": len(sessions), "k": "pct", "s": list(s), "spec": spec, "plus": plus})
    for x in range(256):
        add(b("%%%02x" % x))
        add(b("%%%02X" % x))
        add([x])
        add(b("%") + [x] + b("1"))
        add(b("%4") + [x])
    for x in range(256):     # each byte behind and in front of an escape
        add(b("%41") + [x] + b("%%%02X" % x))
    toks = ["%", "%2", "%25", "25", "2f", "%2F", "+", "%2B", "41", "5"]   # escapes of escapes
    for k in range(2, c.pick(3, 4) + 1):
        for t in itertools.product(toks, repeat=k):
            add(b("".join(t)))
    for _ in range(c.pick(400, 6000)):
        k = r.random()
        if k < 0.5:
            s = gen.part(r)
        elif k < 0.9:
            s = []
            for _ in range(r.randint(1, 12)):
                s += r.choice([b("%"), b("%%"), b("%2"), b("%25"), b("%2F"), b("%2f"), b("+"), b("%2B"), b("41"),
                               [r.randrange(256)], b("%%%02X" % r.randrange(256)), b("%3a"), b("%Ff")])
        else:
            s = gen.rbytes(r, 100, 900)
        add(s)
    c.conform("every escape, every byte, random strings", exe, sessions, "Trace_Percent", flat_events,
              nontrivial=lambda s, e: e[0]["obs"]["esc1"])
    c.rules.append("every string over % + / 2 4 1 f F g up to a length in all modes; every escape %00..%ff in "
                   "both cases, every byte on its own and inside an escape; random strings; nontrivial: holds "
                   "a well-formed escape")


# ------------------------------------------------------------------- routing
def reg(m, t, i, body=(), sys=(), ov=0):
    return {"a": "reg", "m": b(m), "t": list(t), "b": list(body), "sys": [list(x) for x in sys],
            "id": i, "ov": ov}


def opt(o, v):
    return {"a": "opt", "o": o, "v": v}


def look(m, p, q=(), v=0):
    return {"a": "look", "m": b(m), "p": list(p), "q": list(q), "v": v}


BUILD = {"a": "build"}


def pm_events(s, obs):
    out = [{"a": "start"}]
    for op, o in zip(s["ops"], obs):
        e = dict(op)
        if e["a"] == "opt":
            e["o1"] = e.pop("o")
        e["o"] = o
        out.append(e)
    return out


def hits(s, e):
    return any(x["a"] == "look" and x["o"]["r"] != 0 for x in e)


def misses_and_hits(s, e):
    return hits(s, e) and any(x["a"] == "look" and x["o"]["r"] == 0 for x in e)


def mc_paths(c, cfg, name, exe, orders, fail=False):
    """Replays every table of MC_PathMatcher with every request."""
    d = c.design("MC_PathMatcher", cfg)
    head = next(x for x in d.lines if "keys" in x)
    keys, reqs = head["keys"], head["reqs"]
    sessions, want = [], {}
    for x in d.lines:
        if "h" not in x:
            continue
        for perm in orders(x["h"]):
            ops = [reg(keys[i - 1]["m"], keys[i - 1]["t"], i) for i in perm] + [BUILD]
            if fail:
                ops = [opt("fail", 1)] + ops
            ops += [look(r["m"], r["p"], v=1) for r in reqs]
            i = len(sessions)
            sessions.append({"id": i, "k": "pm", "ops": ops})
            seen, rets = set(), []
            for q in perm:
                rets.append(not (fail and q in seen))
                seen.add(q)
            want[i] = [rets, x["w"]]
    c.replay(name, exe, sessions, lambda s: want[s["id"]],
             lambda o: [[x["r"] for x in o[(1 if fail else 0):] if isinstance(x["r"], bool)][:-1],
                        [x["r"] for x in o if not isinstance(x["r"], bool)]])


PLAIN = ["a", "b", "c", "ab", "v1", "shelves", "x.y"]
PLAINPARTS = ["a", "b", "c", "x", "", "foo", "v1", "shelves", "x.y", "ab"]


class small_parts:
    """Makes the generators draw request segments from a small alphabet."""
    def __init__(self, parts):
        self.parts = parts

    def __enter__(self):
        self.old, self.oldpart = gen.PARTS, gen.part
        gen.PARTS = self.parts
        gen.part = lambda r: b(r.choice(self.parts))

    def __exit__(self, *a):
        gen.PARTS, gen.part = self.old, self.oldpart


def routing_session(r, i, n, words, verbs, dups=0.0, looks=25, noise=0.3, opts=("unreg",), pvar=0.3,
                    pwild=0.4, methods=("GET", "GET", "POST", "*", "GETverb", "", "get"), variants=(0,),
                    sys=False, queries=False, similar=0.4):
    ts, ops = [], []
    for o in opts:
        if o == "spec":
            ops.append(opt("spec", r.randrange(3)))
        elif r.random() < 0.5:
            ops.append(opt(o, r.randrange(2)))
    regs = []
    for k in range(n):
        if regs and r.random() < dups:
            # the same flat template, possibly written with other variables
            m, t = r.choice(regs)
            if r.random() < 0.4:
                segs, verb = gen.segs_of(t)
                t = [47] + [x for j, g in enumerate(segs) for x in ([47] if j else []) + b(g)]
                t += b(":" + verb) if verb else []
            if r.random() < 0.3:
                m = r.choice(methods)
        elif regs and r.random() < similar:
            # one segment of an earlier template changed
            m, t = r.choice(regs)
            segs, verb = gen.segs_of(t)
            if segs:
                j = r.randrange(len(segs))
                x = r.random()
                if x < 0.3:
                    segs[j] = r.choice(["*", "**", "a", r.choice(words)])
                elif x < 0.6:
                    segs.insert(j, r.choice(["*", "a", r.choice(words), "**"]))
                elif x < 0.8 and len(segs) > 1:
                    del segs[j]
                else:
                    verb = r.choice(verbs) or ""
            t = [47] + [x for j, g in enumerate(segs) for x in ([47] if j else []) + b(g)]
            t += b(":" + verb) if verb else []
            if r.random() < 0.5:
                m = r.choice(methods)
        else:
            m, t = r.choice(methods), gen.template(r, words, verbs=verbs, pvar=pvar, pwild=pwild,
                                                   nseg=r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]))
        regs.append((m, t))
        sp = [b(x) for x in r.sample(["api_key", "x", "alt", "book.id", "%41", ""], r.randint(0, 3))] \
            if sys else []
        ops.append(reg(m, t, k + 1, body=b(r.choice(["", "*", "body", "a.b"])), sys=sp, ov=r.randrange(2)))
        if r.random() < 0.05:
            bad = gen.mutate(r, t)
            ops.append(reg(m, bad, 1000 + k))
    ops.append(BUILD)
    vs = [v for v in verbs if v]
    for _ in range(looks):
        m, t = r.choice(regs)
        if m == "*" or r.random() < 0.2:
            m = r.choice(["GET", "POST", "PUT", "*", "GETverb", ""])
        p = gen.request_for(r, t, verbs=vs, noise=noise)
        if not p or p[0] != 47:
            p = [47] + p
        ops.append(look(m, p, gen.query(r, [b("api_key"), b("x"), b("book.id")]) if queries else [],
                        r.choice(variants)))
    if r.random() < 0.3:
        ops.append(look("GET", [], [], 0))
    return {"id": i, "k": "pm", "ops": ops}


def wide_session(r, i, dups=0.0, opts=("unreg",)):
    """A table of many siblings: literals of one node, methods of one template,
    verbs of one path, or templates all over."""
    n = r.choice([10, 17, 26, 33, 40, 70, 130])
    kind = r.choice(["literals", "literals", "methods", "verbs", "mixed"])
    at = r.choice(["/", "/p/", "/*/", "/{x}/"])
    ops = [opt(o, int(r.random() < 0.6)) for o in opts if r.random() < 0.7]
    regs = []
    for k in range(n):
        w = "w%d" % k if r.random() < 0.9 else "".join(r.choice("ab") for _ in range(r.choice([1, 2, 40])))
        lit = kind == "literals" or kind == "mixed" and r.random() < 0.6
        m = "M%d" % (k if kind == "methods" else k % 3 if kind == "mixed" else 0)
        t = at + (w if lit else "w0") + r.choice(["", "", "/c", "/*"])
        if kind == "verbs" or kind == "mixed" and r.random() < 0.3:
            t += ":v%d" % r.choice([k, k, 0])
        if regs and r.random() < dups:
            m, t = r.choice(regs)
            if r.random() < 0.4:
                t = t.replace("/{x}/", "/*/") if "{" in t else t.replace("/*/", "/{y}/")
        regs.append((m, t))
        ops.append(reg(m, b(t), k + 1))
    for t in ("/*/*", "/w0", "/*", at + "*", "/**"):
        if r.random() < 0.3:
            ops.insert(r.randint(0, len(ops)) if r.random() < 0.5 and not opts else len(ops), reg("M0", b(t), 1000 + len(ops)))
    ops.append(BUILD)
    for _ in range(20):
        m, t = r.choice(regs)
        t = t.replace("{x}", "p").replace("{y}", "q")
        p = "".join(r.choice(["*", "zz", "w1"]) if x == "*" else x for x in t)
        k = r.random()
        if k < 0.1:
            m = "M%d" % r.randrange(n + 2)
        elif k < 0.2:
            p += r.choice("05/:")
        elif k < 0.25:
            p = p[:-1]
        ops.append(look(m, b(p)))
    return {"id": i, "k": "pm", "ops": ops}


def long_session(r, i, opts=("spec", "unreg", "plus"), verbs=("", "", "v"), sizes=None, queries=False):
    """Templates of many segments, and paths of as many and more."""
    n = r.choice(sizes or [6, 7, 8, 8, 9, 10, 12, 17, 33, 65, 127, 130, 200, 256, 300])
    words = r.choice([["a"], ["a", "b"], PLAIN, gen.WORDS if n < 40 else PLAIN,
                      ["a", "x" * r.choice([31, 64, 255, 256, 300])]])
    long_verb = "v" * r.choice([1, 1, 40, 300])
    verbs = [v and long_verb for v in verbs]
    ops = [opt(o, r.randrange(3) if o == "spec" else r.randrange(2)) for o in opts if r.random() < 0.5]
    ts = []
    for k in range(r.choice([1, 1, 2, 3])):
        if ts and r.random() < 0.7:      # one segment of an earlier one changed
            segs, verb = gen.segs_of(r.choice(ts))
            j = r.randrange(len(segs))
            if segs[j] != "**":
                segs[j] = r.choice(["b", "*" if "**" not in segs[:j] else "b"])
            t = b("/" + "/".join(segs)) + (b(":" + verb) if verb else [])
        else:
            t = gen.template(r, words, verbs=verbs, pvar=r.choice([0.05, 0.3, 0.7]), pwild=r.choice([0, 0.02, 0.3]),
                             nseg=n)
            t = [113 if x == 63 else x for x in t]      # no path has a '?'
        ts.append(t)
        ops.append(reg(r.choice(["GET", "GET", "*", "M" * 300]), t, k + 1))
    ops.append(BUILD)
    old = gen.part
    if n > 60:
        gen.part = lambda r: b(r.choice(["a", "b", "", "%2F", "x%20", "*"]))
    for _ in range(8 if n < 60 else 3):
        m, t = r.choice([(o["m"], o["t"]) for o in ops if o["a"] == "reg"])
        segs, verb = gen.segs_of(t)
        if "**" in segs and r.random() < 0.4:
            gen.part = lambda r: b(r.choice(["a", "b", "", "%2F", "x%20", "*"]))
            j = segs.index("**")
            segs[j:j + 1] = ["*"] * r.choice([2, 8, 60, 260])
            t = b("/" + "/".join(segs)) + (b(":" + verb) if verb else [])
        p = gen.request_for(r, t, verbs=[long_verb, long_verb[1:]], noise=0.1)
        ops.append(look("".join(map(chr, m)), p if p[:1] == [47] else [47] + p, gen.query(r) if queries else []))
    gen.part = old
    return {"id": i, "k": "pm", "ops": ops}


# ------------------------------------------------------------------ R02 routes
def check_R02(c):
    exe = vlib.build_core()
    r = c.rng

    def shuffled(h):
        h = list(h)
        r.shuffle(h)
        return [h]
    mc_paths(c, "MC_PathMatcher_segs.cfg", "tables of up to 3 templates, all requests up to 4 segments",
             exe, shuffled)
    mc_paths(c, "MC_PathMatcher_keys.cfg", "tables over methods and verbs", exe, shuffled)
    if c.thorough:
        cfg = write_cfg("MC_PathMatcher", open(vlib.SPEC + "/MC_PathMatcher_segs.cfg").read()
                        .replace("MaxSegs = 3  MaxParts = 4  MaxReg = 3", "MaxSegs = 2  MaxParts = 3  MaxReg = 4")
                        .replace("Lits = {97}", "Lits = {97, 98}").replace("{97, 99, 42}", "{97, 98, 99}"))
        mc_paths(c, cfg, "tables of up to 4 templates of 2 segments", exe, shuffled)
    sessions = []
    for i in range(c.pick(500, 6000)):
        k = r.random()
        n = r.choice([1, 2, 3, 5, 8, 14]) if k < 0.95 else r.choice([30, 60])
        words = r.choice([["a"], ["a", "b"], ["a", "b", "*a", "GET"], gen.WORDS])
        words = [w for w in words if not w.startswith("*")]
        verbs = r.choice([["", "", "v", "w"], [""], ["", "verb", "v:w"[:1], "*", "**", "GET"]])
        if r.random() < 0.6:
            with small_parts(r.choice([["a", "b", "c"], ["a", "*", "**", "b"], PLAINPARTS])):
                sessions.append(routing_session(r, i, n, words, verbs))
        else:
            sessions.append(routing_session(r, i, n, words, verbs))
    c.conform("random tables and requests", exe, sessions, "Trace_PathMatcher", pm_events,
              env={"ASPECT": "route"}, nontrivial=misses_and_hits)
    sessions = [long_session(r, i) for i in range(c.pick(150, 1500))]
    c.conform("long templates and paths", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "route"},
              nontrivial=hits)
    c.conform("wide tables", exe, [wide_session(r, i) for i in range(c.pick(80, 800))], "Trace_PathMatcher", pm_events,
              env={"ASPECT": "route"}, nontrivial=misses_and_hits)
    c.rules.append("every table of up to 3 templates over {a * **}, registered in random order, with every request "
                   "of up to 4 segments, and every table over 2 methods and 2 verbs (expected answers from the "
                   "specification); random overlapping tables; nontrivial: some lookup finds a method and some "
                   "finds none")


# -------------------------------------------------------------- R03 duplicates
def check_R03(c):
    exe = vlib.build_core()
    r = c.rng

    def orders(h):
        ps = sorted(set(itertools.permutations(h)))
        return ps if c.thorough else r.sample(ps, min(2, len(ps)))
    mc_paths(c, "MC_PathMatcher_keys.cfg", "tables with duplicates, in several orders", exe, orders)
    mc_paths(c, "MC_PathMatcher_keys.cfg", "the same, failing on duplicates", exe,
             lambda h: [r.sample(list(h), len(h))], fail=True)
    mc_paths(c, "MC_PathMatcher_segs.cfg", "tables without duplicates, in several orders", exe, orders)
    sessions = []
    for i in range(c.pick(300, 4000)):
        n = r.choice([2, 3, 4, 6, 10])
        with small_parts(PLAINPARTS):
            s = routing_session(r, len(sessions), n, r.choice([["a"], ["a", "b"], PLAIN]),
                                r.choice([[""], ["", "v"]]), dups=0.5, looks=14, noise=0.15,
                                opts=("fail", "unreg"), similar=0.2)
        # Switching failing on and off between registrations.
        if r.random() < 0.4:
            k = r.randrange(len(s["ops"]))
            if s["ops"].index(BUILD) > k:
                s["ops"].insert(k, opt("fail", r.randrange(2)))
        sessions.append(s)
        # The same registrations in another order, the same lookups.
        j = s["ops"].index(BUILD)
        regs = [o for o in s["ops"][:j] if o["a"] == "reg"]
        opts = [o for o in s["ops"][:j] if o["a"] == "opt"]
        r.shuffle(regs)
        sessions.append({"id": len(sessions), "k": "pm", "ops": opts + regs + s["ops"][j:]})
    for asp in ("reg", "route"):
        c.conform("random tables with duplicates (%s)" % asp, exe, sessions, "Trace_PathMatcher",
                  pm_events, env={"ASPECT": asp}, nontrivial=misses_and_hits)
    W = [wide_session(r, i, 0.3, ("unreg", "fail")) for i in range(c.pick(60, 600))]
    for asp in ("reg", "route"):
        c.conform("wide tables with duplicates (%s)" % asp, exe, W, "Trace_PathMatcher", pm_events, env={"ASPECT": asp},
                  nontrivial=misses_and_hits)
    c.rules.append("every table over 2 methods and 2 verbs with repetitions, in several registration orders, with and "
                   "without failing on duplicates, with every request; random tables half of which are duplicates, "
                   "each also with its registrations shuffled")


# ---------------------------------------------------------------- R04 bindings
def check_R04(c):
    exe = vlib.build_core()
    d = c.design("MC_Bindings", write_cfg(
        "MC_Bindings", "SPECIFICATION MCSpec\nCONSTANTS MaxSegs = %d MaxReps = 3 Export = TRUE\n"
        "INVARIANTS ByPosition Exported\nCHECK_DEADLOCK FALSE\n" % c.pick(4, 5)))
    sessions = [{"id": i, "k": "pm", "ops": [opt("spec", x["mode"]), reg("G", x["t"], 1), BUILD,
                                             look("G", x["p"])]} for i, x in enumerate(d.lines)]
    c.replay("every placement of up to 2 variables in templates of up to %d segments" % c.pick(4, 5),
             exe, sessions, lambda s: [1, d.lines[s["id"]]["b"]], lambda o: [o[3]["r"], o[3]["b"]])
    r = c.rng
    sessions = []
    for i in range(c.pick(700, 8000)):
        sessions.append(routing_session(r, i, r.choice([1, 1, 2, 4]), r.choice([["a"], gen.WORDS]),
                                        r.choice([[""], ["", "v"]]), looks=20, noise=0.08, opts=("spec", "unreg", "plus"),
                                        pvar=0.7, pwild=0.6, variants=(0, 0, 3), similar=0.1, queries=True))
    c.conform("random templates with variables, random requests", exe, sessions, "Trace_PathMatcher",
              pm_events, env={"ASPECT": "path"},
              nontrivial=lambda s, e: any(x["a"] == "look" and x["o"]["b"] for x in e))
    sessions = [long_session(r, i) for i in range(c.pick(250, 2500))]
    c.conform("long templates and paths", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "path"},
              nontrivial=lambda s, e: any(x["a"] == "look" and x["o"]["b"] for x in e))
    c.rules.append("every template of up to 4 segments over {a * **} with every placement of one or two variables, in "
                   "every decoding mode, with escaped segments; random templates and requests; nontrivial: some lookup "
                   "gives bindings")


# ------------------------------------------------------------------- R06 query
def long_names(r, i):
    """Names of many parts, and system parameters of any length, of which the
    query string has near misses."""
    def word(lo, hi):
        n = r.randint(lo, hi)
        return [r.choice(b("abcxyz_$-019")) for _ in range(n)]
    sys = [word(1, r.choice([4, 20, 40, 90])) for _ in range(r.choice([0, 1, 2, 3, 20]))]
    ops = [opt("plus", r.randrange(2)), reg("G", b("/{v}"), 1, sys=sys), BUILD]
    for _ in range(6):
        q = []
        for _ in range(r.choice([1, 2, 4, 8])):
            k = r.random()
            if sys and k < 0.6:
                n = list(r.choice(sys))
                k = r.random()
                if k < 0.3:
                    n += word(1, 3)
                elif k < 0.5:
                    n = n[:r.randrange(len(n) + 1)]
                elif k < 0.7:
                    n[r.randrange(len(n))] = 122
                elif k < 0.8:
                    n = word(1, 3) + n
                elif k < 0.85:
                    n += [46] + word(1, 4)
            else:
                n = []
                for j in range(r.choice([1, 2, 5, 9, 17, 33])):
                    n += ([46] if j else []) + word(0 if r.random() < 0.1 else 1, r.choice([2, 5, 30]))
            q += ([38] if q else []) + n + ([61] if r.random() < 0.9 else []) + word(0, r.choice([2, 40]))
        ops.append(look("G", b("/a"), q))
    return {"id": i, "k": "pm", "ops": ops}


def check_R06(c):
    exe = vlib.build_core()
    d = c.design("MC_Query", write_cfg(
        "MC_Query", "SPECIFICATION MCSpec\nCONSTANTS MaxLen = %d Export = TRUE\nINVARIANTS Agree Exported\n"
        "CHECK_DEADLOCK FALSE\n" % c.pick(5, 6)))
    sessions, want = [], []
    for k in range(0, len(d.lines), 40):
        for plus in (False, True):
            xs = [x for x in d.lines[k:k + 40] if x["plus"] == plus]
            if xs:
                sessions.append({"id": len(sessions), "k": "pm", "ops":
                                 [opt("plus", int(plus)), reg("G", b("/{v}"), 1, sys=[b("b")]), BUILD] +
                                 [look("G", b("/a"), x["q"]) for x in xs]})
                want.append([x["b"] for x in xs])
    c.replay("all query strings over 6 bytes up to length %d" % c.pick(5, 6), exe, sessions,
             lambda s: want[s["id"]], lambda o: [x["b"][1:] for x in o[3:]])
    r = c.rng
    sessions = []
    for i in range(c.pick(700, 8000)):
        s = routing_session(r, i, r.choice([1, 1, 2, 3]), ["a", "b"], [""], looks=20, noise=0.02,
                            opts=("plus", "spec"), pvar=0.3, pwild=0.3, sys=True, queries=True,
                            variants=(0, 0, 0, 3), similar=0)
        sessions.append(s)
    c.conform("random query strings", exe, sessions, "Trace_PathMatcher", pm_events,
              env={"ASPECT": "query"},
              nontrivial=lambda s, e: any(x["a"] == "look" and x["q"] and x["o"]["r"] for x in e))
    # Long ones: many parameters, long values.
    sessions = []
    for i in range(c.pick(20, 100)):
        q = []
        for _ in range(r.choice([60, 150])):
            q += ([38] if q else []) + gen.query(r, [b("x")])
        q += b("&x=") + [c2 for c2 in gen.rbytes(r, 300, 900) if c2 != 38]
        sessions.append({"id": i, "k": "pm", "ops": [opt("plus", r.randrange(2)),
                                                     reg("G", b("/a"), 1, sys=[b("x")] if i % 2 else []), BUILD,
                                                     look("G", b("/a"), q[:3000])]})
    c.conform("long query strings", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "query"},
              nontrivial=hits)
    c.conform("long names", exe, [long_names(r, i) for i in range(c.pick(60, 600))], "Trace_PathMatcher", pm_events,
              env={"ASPECT": "query"}, nontrivial=hits)
    c.rules.append("every query string over a b = & . + up to a length, with a system parameter, with and without '+' "
                   "as space; random query strings and system parameters; nontrivial: the lookup succeeds and has a query")


# ------------------------------------------------------------------- R07 verbs
def many_verbs(r, i):
    """A table in which many verbs, of any length, are registered."""
    verbs = []
    for k in range(r.choice([5, 12, 20, 40, 80])):
        v = "".join(r.choice("abv") for _ in range(r.choice([1, 2, 3, 12, 30])))
        verbs.append(v if r.random() < 0.7 else "v%d" % k)
    ops = [opt("unreg", r.randrange(2))] if r.random() < 0.6 else []
    for k, v in enumerate(verbs):
        ops.append(reg("GET", b("/%s:%s" % (r.choice(["a", "*", "{x}", "**", "b/*"]), v)), k + 1))
    if r.random() < 0.5:
        ops.append(reg("GET", b(r.choice(["/**", "/*", "/a"])), len(verbs) + 1))
    ops.append(BUILD)
    for _ in range(14):
        v = r.choice(verbs)
        k = r.random()
        if k < 0.15:
            v += r.choice("abv")
        elif k < 0.3:
            v = v[:-1]
        elif k < 0.4:
            v += ":" + r.choice(verbs)
        ops.append(look("GET", b("/" + r.choice(["a", "q", "b/z", "a/b/c"]) + ":" + v)))
    return {"id": i, "k": "pm", "ops": ops}


def check_R07(c):
    exe = vlib.build_core()
    d = c.design("MC_Request", write_cfg(
        "MC_Request", "SPECIFICATION MCSpec\nCONSTANTS MaxLen = %d Export = TRUE\n"
        "INVARIANTS NothingLost VerbIsOne VerbNotMissed NoTrailing Exported Header\nCHECK_DEADLOCK FALSE\n" % c.pick(6, 7)))
    regs = {}
    for x in d.lines:
        if "regs" in x:
            regs[x["n"]] = x["regs"]
    groups = {}
    for x in d.lines:
        if "p" in x:
            groups.setdefault((x["n"], x["u"]), []).append(x)
    sessions, want = [], []
    for (n, u), xs in sorted(groups.items()):
        for k in range(0, len(xs), 60):
            sessions.append({"id": len(sessions), "k": "pm", "ops":
                             [opt("unreg", int(u))] + [reg("G", t, i + 1) for i, t in enumerate(regs[n])] + [BUILD] +
                             [look("G", x["p"]) for x in xs[k:k + 60]]})
            # The output list is only replaced by a lookup that succeeds.
            w, last = [], []
            for x in xs[k:k + 60]:
                if x["o"]["r"]:
                    last = x["o"]["b"]
                w.append([x["o"]["r"], last])
            want.append(w)
    c.replay("all paths over / : ? a b up to length %d, 3 verb tables, both options" % c.pick(6, 7),
             exe, sessions, lambda s: want[s["id"]], lambda o: [[x["r"], x["b"]] for x in o if "b" in x])
    r = c.rng
    sessions = []
    alpha = ["a", "b", ":", ":v", "v", "a:v", "::", "?", "", "w", "v:w", "%3Av", "x:"]
    for i in range(c.pick(500, 6000)):
        with small_parts(["a", "b", "a:v", ":", "v", "x:w", "", ":v", "a:b:v"]):
            s = routing_session(r, i, r.choice([1, 2, 3, 5]), ["a", "b"],
                                r.choice([[""], ["", "v"], ["v", "w"], ["", "v", "w", "vw", "a"]]), looks=15,
                                noise=0.3, opts=("unreg",), pvar=0.5, pwild=0.6, variants=(0,), similar=0.3)
            for _ in range(8):
                p = b("/") + [x for _ in range(r.randint(0, 6))
                              for x in b(r.choice(alpha)) + ([47] if r.random() < 0.5 else [])]
                s["ops"].append(look(r.choice(["GET", "POST"]), p))
        sessions.append(s)
    c.conform("random tables with verbs, random paths", exe, sessions, "Trace_PathMatcher", pm_events,
              env={"ASPECT": "verb"}, nontrivial=hits)
    sessions = [long_session(r, i, opts=("unreg",), verbs=("", "v", "v")) for i in range(c.pick(80, 800))]
    c.conform("long paths and verbs", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "verb"},
              nontrivial=hits)
    c.conform("many verbs", exe, [many_verbs(r, i) for i in range(c.pick(60, 600))], "Trace_PathMatcher", pm_events,
              env={"ASPECT": "verb"}, nontrivial=hits)
    c.rules.append("every path over / : ? a b up to a length against three sets of registered verbs with and without "
                   "matching unregistered ones; random tables and paths; nontrivial: some lookup finds a method")


# ------------------------------------------------------------------ R08 rules
def rule(r, depth, words, bad=0.05):
    k = r.choice(["get", "put", "post", "delete", "patch", "custom", "none"] if depth else
                 ["get", "put", "post", "delete", "patch", "custom", "custom", "get", "none"])
    t = gen.template(r, words, verbs=["", "", "v"], nseg=r.choice([0, 1, 1, 2, 3]))
    if r.random() < bad:
        t = r.choice([[], b("a"), b("/a//"), b("/**/*"), gen.mutate(r, t)])
    add = [rule(r, depth + 1, words, bad) for _ in range(r.choice([0, 0, 1, 2, 3]) if depth < 3 else 0)]
    if depth == 0 and r.random() < 0.06:        # many, or one in the other
        if r.random() < 0.5:
            add += [rule(r, 3, words, bad) for _ in range(r.choice([9, 17, 40]))]
        else:
            for _ in range(r.choice([6, 12, 20])):
                add = [dict(rule(r, 3, words, bad), add=add)]
    return {"k": k, "m": b(r.choice(["HEAD", "GET", "*", "OPTIONS", ""])), "t": t,
            "b": b(r.choice(["", "*", "body", "a.b"])), "add": add}


def flat_rules(x):
    m = {"get": "GET", "put": "PUT", "post": "POST", "delete": "DELETE", "patch": "PATCH"}.get(x["k"])
    if x["k"] == "custom":
        m = "".join(map(chr, x["m"]))
    if m is not None:
        yield m, x["t"]
    for a in x["add"]:
        yield from flat_rules(a)


def check_R08(c):
    exe = vlib.build_core()
    d = c.design("MC_HttpRule", "MC_HttpRule.cfg")
    sessions, want = [], []
    looks = next(x for x in d.lines if "looks" in x)["looks"]
    for x in d.lines:
        if "rule" not in x:
            continue
        sessions.append({"id": len(sessions), "k": "pm", "ops":
                         [opt("fail", int(x["fail"])),
                          {"a": "rule", "rule": x["rule"], "sys": [], "id": 1, "ov": len(sessions) % 2}, BUILD] +
                         [look(q["m"], q["p"]) for q in looks]})
        want.append([x["ret"], x["w"]])
    c.replay("all rules of up to 3 patterns", exe, sessions, lambda s: want[s["id"]],
             lambda o: [o[1]["r"], [x["r"] for x in o[3:]]])
    r = c.rng
    sessions = []
    for i in range(c.pick(500, 5000)):
        with small_parts(PLAINPARTS):
            ops = [opt("fail", r.randrange(2))] if r.random() < 0.5 else []
            pats = []
            words = r.choice([PLAIN, ["a", "b"], ["s%d" % k for k in range(40)]])
            for k in range(r.choice([1, 1, 2, 3])):
                x = rule(r, 0, words, r.choice([0, 0, 0.05, 0.2]))
                sp = [b(y) for y in r.sample(["api_key", "alt"], r.randint(0, 2))]
                ops.append({"a": "rule", "rule": x, "sys": sp, "id": k + 1, "ov": r.randrange(2)})
                pats += list(flat_rules(x))
            ops.append(BUILD)
            for m, t in pats[:14]:
                p = gen.request_for(r, t, noise=0.05) if t else b("/")
                if not p or p[0] != 47:
                    p = [47] + p
                q = b(r.choice(["", "api_key=1&x=2", "alt=3"]))
                ops.append(look(r.choice([m, m, m, "GET", "PUT"]) if m != "*" else r.choice(["GET", "PUT", "HEAD"]), p, q))
        sessions.append({"id": i, "k": "pm", "ops": ops})
    c.conform("random nested rules", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "out"},
              nontrivial=hits)
    c.rules.append("every rule of up to 3 patterns nested in every way, over 4 kinds of pattern and valid, invalid and "
                   "duplicate templates; random nested rules over all pattern kinds; nontrivial: some lookup finds the method")


# ----------------------------------------------------------------- R09 purity
def check_R09(c):
    exe = vlib.build_core()
    tsan = vlib.build_core("tsan")
    d = c.design("MC_Lookup", "MC_Lookup.cfg")
    head = next(x for x in d.lines if "regs" in x)
    sessions, want = [], []
    for x in d.lines:
        if "steps" in x:
            sessions.append({"id": len(sessions), "k": "pm", "ops":
                             [reg("G", g["t"], i + 1, body=g["b"]) for i, g in enumerate(head["regs"])] + [BUILD] +
                             [look("G", head["reqs"][st["q"] - 1]["p"], head["reqs"][st["q"] - 1]["q"], st["v"])
                              for st in x["steps"]]})
            want.append([st["o"] for st in x["steps"]])
    n = len(head["regs"]) + 1
    c.replay("every history of lookups with every choice of output arguments", exe, sessions,
             lambda s: want[s["id"]], lambda o: o[n:])
    r = c.rng
    sessions = []
    for i in range(c.pick(500, 5000)):
        s = routing_session(r, i, r.choice([1, 2, 4, 8]), r.choice([["a", "b"], PLAIN]),
                            ["", "v"], looks=10, noise=0.4, opts=("unreg", "plus", "spec"),
                            pvar=0.6, variants=(0,), sys=True, queries=True, dups=0.1)
        j = s["ops"].index(BUILD) + 1
        ls = s["ops"][j:]
        # every request several times, in different orders, with different output arguments
        again = []
        for _ in range(3):
            for o in ls:
                again.append(dict(o, v=r.choice([0, 0, 0, 1, 2, 3, 4])))
        for o in again:      # the two-argument form has no query
            if o["v"] == 1 and r.random() < 0.5:
                o["q"] = []
        r.shuffle(again)
        s["ops"] = s["ops"][:j] + again
        sessions.append(s)
    c.conform("repeated lookups", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "pure"},
              nontrivial=misses_and_hits)
    sessions = []
    for i in range(c.pick(4, 16)):
        s = routing_session(r, i, r.choice([4, 8, 30]), r.choice([["a", "b"], PLAIN]), ["", "v"],
                            looks=r.choice([20, 60, 300]), noise=0.3, opts=("unreg", "plus", "spec"), pvar=0.6,
                            variants=(0,), sys=True, queries=True)
        j = s["ops"].index(BUILD) + 1
        ls = s["ops"][j:]
        s["ops"] = s["ops"][:j] + [dict(r.choice(ls), v=r.choice([0, 0, 0, 1, 2, 3, 4])) for _ in range(1500)]
        sessions.append(s)
    c.conform("long histories", exe, sessions, "Trace_PathMatcher", pm_events, env={"ASPECT": "pure"},
              nontrivial=misses_and_hits)

    def conc(seed_n, threads, rounds):
        out = []
        for i in range(seed_n):
            s = routing_session(r, i, r.choice([2, 4, 8, 16]), r.choice([["a", "b"], PLAIN, gen.WORDS]),
                                ["", "v"], looks=r.choice([4, 12, 30]), noise=0.3, opts=("unreg", "plus", "spec"),
                                pvar=0.6, variants=(0,), sys=True, queries=True)
            j = s["ops"].index(BUILD) + 1
            ls = s["ops"][j:]
            reqs, seen = [], set()
            for o in ls:
                k = repr((o["m"], o["p"], o["q"]))
                if k not in seen:
                    seen.add(k)
                    reqs.append({"m": o["m"], "p": o["p"], "q": o["q"]})
            s["ops"] = s["ops"][:j] + [{"a": "conc", "reqs": reqs, "threads": threads, "rounds": rounds}] + ls
            out.append(s)
        return out

    def conc_events(s, obs):
        return pm_events(s, obs)
    nt = lambda s, e: any(x["a"] == "conc" and any(y and y[0]["r"] for y in x["o"]["res"]) for x in e)
    c.conform("concurrent lookups, thread sanitizer", tsan, conc(c.pick(40, 400), 4, c.pick(12, 40)),
              "Trace_PathMatcher", conc_events, env={"ASPECT": "pure"}, nontrivial=nt, limit=60, flaky=True)
    c.conform("concurrent lookups", exe, conc(c.pick(30, 300), 8, c.pick(20, 100)), "Trace_PathMatcher", conc_events,
              env={"ASPECT": "pure"}, nontrivial=nt, limit=60, flaky=True)
    c.rules.append("every history of up to 3 lookups with every combination of output arguments; random tables with "
                   "every request looked up several times in random order; the same by 4 threads under ThreadSanitizer "
                   "and by 8 under AddressSanitizer; nontrivial: some lookup succeeds and some fails")


# ------------------------------------------------ R11 several beside each other
def altered(r, s):
    """Another matcher with much the same routes: what one remembers of a
    request is wrong for the other."""
    j = s["ops"].index(BUILD)
    head, tail = s["ops"][:j], s["ops"][j + 1:]
    regs = [dict(o) for o in head if o["a"] == "reg"]
    opts = [opt(o["o"], r.randrange(3) if o["o"] == "spec" else 1 - o["v"]) if r.random() < 0.6 else o
            for o in head if o["a"] == "opt"]
    for o in regs:
        x = r.random()
        if x < 0.3:
            o["id"] += 500
        elif x < 0.5:
            o["b"] = b(r.choice(["", "*", "other"]))
        elif x < 0.6:
            o["m"] = b(r.choice(["GET", "POST", "*"]))
        elif x < 0.8:
            segs, verb = gen.segs_of(o["t"])
            if segs and "**" not in segs:
                segs[r.randrange(len(segs))] = r.choice(["*", "a"])
            o["t"] = b("/" + "/".join(segs)) + (b(":" + verb) if verb else [])
    regs = [o for o in regs if r.random() > 0.2] or regs
    ids = set()
    for o in regs:
        while o["id"] in ids:
            o["id"] += 1000
        ids.add(o["id"])
    r.shuffle(regs)
    tail = [dict(o) for o in tail]
    r.shuffle(tail)
    return {"k": "pm", "ops": opts + regs + [BUILD] + tail}


def several(r, i, threads=0, rounds=0, kinds=("pm", "pm", "rd", "rd", "ms", "tmpls", "pcts")):
    """Some sessions to run beside each other."""
    subs = []
    first = r.choice(kinds)
    for _ in range(r.choice([2, 2, 3, 4])):
        k = first if r.random() < 0.7 else r.choice(kinds)
        like = [s for s in subs if s["k"] == k]
        if k == "pm":
            if like and r.random() < 0.8:
                s = altered(r, r.choice(like))
            else:
                s = routing_session(r, 0, r.choice([1, 2, 4]), r.choice([["a"], ["a", "b"]]), ["", "v"], looks=8,
                                    opts=("unreg", "plus", "spec"), pvar=0.6, sys=True, queries=True)
        elif k == "rd":
            if like and r.random() < 0.3:
                s = r.choice(like)
            else:
                s = reader_session(r, 0, False, r.random() < 0.4)
        elif k == "ms":
            s = random_ms(r, r.choice([5, 15, 40]))
        elif k == "tmpls":
            ts = [gen.template(r) for _ in range(4)]
            s = {"k": k, "ops": [{"t": gen.mutate(r, t) if r.random() < 0.3 else t} for t in ts]}
        else:
            s = {"k": k, "ops": [{"s": gen.part(r) + r.choice([[], b("%41%2F+")]), "spec": r.randrange(3),
                                  "plus": r.randrange(2)} for _ in range(4)]}
        subs.append({"k": s["k"], "ops": s["ops"]})
    n = [len(s["ops"]) for s in subs]
    sched = [j for j in range(len(subs)) for _ in range(n[j])]
    x = r.random()
    if x < 0.6:
        r.shuffle(sched)
    elif x < 0.8:       # one call each in turn
        sched = [j for k in range(max(n)) for j in range(len(subs)) if k < n[j]]
    else:               # one within the other
        k = r.randint(0, n[0])
        sched = [0] * k + [j for j in sched if j] + [0] * (n[0] - k)
    return {"id": i, "k": "multi", "threads": threads, "rounds": rounds, "subs": subs,
            "sched": [] if threads else sched}


def sub_events(kind, events):
    """The traces of all sessions of a kind, each by itself."""
    def f(s, obs):
        out = []
        for sub, outcomes in zip(s["subs"], obs):
            if sub["k"] == kind:
                for o in outcomes:
                    out += events(sub, o)
        return out
    return f


def each(s, obs):
    return [dict(op, obs=o) for op, o in zip(s["ops"], obs)]


BESIDE = [("pm", "Trace_PathMatcher", pm_events, {"ASPECT": "out"}, "Trace.cfg"),
          ("rd", "Trace_MessageReader", lambda s, o: rd_filtered(s, o), {"ASPECT": "all"}, "Trace.cfg"),
          ("ms", "Trace_MessageStream", lambda s, o: ms_events(s, o), {}, "Trace_MessageStream.cfg"),
          ("tmpls", "Trace_HttpTemplate", each, {}, "Trace.cfg"),
          ("pcts", "Trace_Percent", each, {}, "Trace.cfg")]


def check_R11(c):
    exe = vlib.build_core()
    tsan = vlib.build_core("tsan")
    d = c.design("MC_Instances", "MC_Instances.cfg")
    paths = vlib.cover(d.lines, lambda s: s["s"][0] == s["s"][9] == [0, 0] and not s["s"][1] and
                       not s["s"][10] and not s["s"][5] and not s["s"][14],
                       c.rng, c.pick(2000, 30000))
    sessions, want = [], []
    for p in paths:
        subs, w = [{"k": "rd", "ops": []}, {"k": "rd", "ops": []}], [[], []]
        for a in p:
            op = {"a": a["a"]}
            if "b" in a:
                op["b"] = a["b"]
            if a["a"] == "read":
                op["n"] = [-1, 0]
            subs[a["i"]]["ops"].append(op)
            x = {"fin": a["fin"], "code": a["code"], "cons": a["cons"]}
            if a["a"] == "pollf":
                x["got"] = a["o"]["got"]
                if x["got"]:
                    x["hdr"], x["size"] = a["o"]["hdr"], a["o"]["size"]
            if a["a"] == "read":
                x["b"] = a["o"]["b"]
            w[a["i"]].append(x)
        sessions.append({"id": len(sessions), "k": "multi", "threads": 0, "rounds": 0, "subs": subs,
                         "sched": [a["i"] for a in p]})
        want.append([[x] for x in w])
    c.replay("every transition of two readers beside each other", exe, sessions, lambda s: want[s["id"]],
             lambda s, o: [[[{k: x.get(k) for k in y} for x, y in zip(one[0], w[0])]]
                           for one, w in zip(o, want[s["id"]])], with_session=True)
    r = c.rng

    def run(name, sessions, exe, **kw):
        for kind, module, ev, env, cfg in BESIDE:
            mine = [s for s in sessions if any(x["k"] == kind for x in s["subs"])]
            c.conform("%s (%s)" % (name, kind), exe, mine, module, sub_events(kind, ev), env=env, cfg=cfg,
                      nontrivial=lambda s, e: sum(x["k"] == kind for x in s["subs"]) > 1, **kw)
    run("interleaved", [several(r, i) for i in range(c.pick(700, 8000))], exe)
    run("on threads", [several(r, i, 1, c.pick(10, 30)) for i in range(c.pick(150, 1500))], exe, flaky=True, limit=60)
    run("on threads, thread sanitizer", [several(r, i, 1, c.pick(4, 10)) for i in range(c.pick(120, 1200))], tsan,
        flaky=True, limit=60)
    c.rules.append("every transition of two readers beside each other; matchers (with nearly the same routes), readers, "
                   "stream views, parsers and decoders, two to four of them, interleaved call by call or on a thread each; "
                   "nontrivial: at least two of the kind whose traces are validated")


# -------------------------------------------------------------- R10 the trie
def trie_events(s, obs):
    return [{"a": "start"}] + [dict(op, o=o) for op, o in zip(s["ops"], obs)]


def check_R10(c):
    exe = vlib.build_core(main="trie")
    d = c.design("MC_TrieNode", write_cfg("MC_TrieNode", open(vlib.SPEC + "/MC_TrieNode.cfg").read()
                                          .replace("MaxIns = 2", "MaxIns = %d" % c.pick(2, 3))))
    reqs = next(x for x in d.lines if "reqs" in x)["reqs"]
    sessions, want = [], []
    for x in d.lines:
        if "h" not in x:
            continue
        looks = [{"a": "look", "n": i + 1, "p": q["p"], "m": q["m"], "v": q["v"]}
                 for i in range(len(x["w"])) for q in reqs]
        sessions.append({"id": len(sessions), "k": "trie", "ops": x["h"] + looks})
        want.append([[o["r"] for o in x["h"]], [w for ws in x["w"] for w in ws]])
    c.replay("every history of up to %d insertions and a clone, every lookup" % c.pick(2, 3), exe, sessions,
             lambda s: want[s["id"]],
             lambda o: [[x["r"] for x in o if "r" in x], [-x["d"] if x["dup"] else x["d"] for x in o if "d" in x]])
    r = c.rng
    sessions = []
    for i in range(c.pick(600, 6000)):
        words = r.choice([["a"], ["a", "b"], ["a", "b", "c", "longer-segment", "%2F"]])

        def path():
            out, wild = [], False
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 7])):
                k = r.random()
                if not wild and k < 0.4:
                    g = r.choice(["*", "/.", "/.", "**"])
                    wild = g == "**"
                    out.append(g)
                else:
                    out.append(r.choice(words))
            return out
        ops, live, known, n = [], [1], [], 1
        for j in range(r.choice([2, 4, 8, 20])):
            k = r.random()
            t = r.choice(live)
            if k < 0.12 and n < 6:
                n += 1
                live.append(n)
                ops.append({"a": "clone", "n": t})
            elif k < 0.17 and len(live) > 1:
                live.remove(t)
                ops.append({"a": "drop", "n": t})
            else:
                p, m, v = path(), r.choice(["GET", "GET", "POST", "*"]), r.choice(["", "", "v"])
                if known and r.random() < 0.4:
                    p, m, v = r.choice(known)
                known.append((p, m, v))
                ops.append({"a": "ins", "n": t, "p": [b(g) for g in p], "m": b(m), "v": b(v), "d": j + 1,
                            "mark": r.randrange(2)})
            for _ in range(r.choice([0, 0, 1])):
                ops.append(("L", r.choice(live)))
        ops += [("L", r.choice(live)) for _ in range(20)]
        for j, o in enumerate(ops):
            if not isinstance(o, tuple):
                continue
            p, m, v = r.choice(known) if known else ([], "GET", "")
            parts = []
            for g in p:
                if g == "**":
                    parts += [r.choice(words + ["x", "*", "**", ""]) for _ in range(r.choice([0, 1, 2, 5]))]
                elif g in ("*", "/."):
                    parts.append(r.choice(words + ["x", "*", "**", ""]))
                else:
                    parts.append(g)
            if r.random() < 0.15 and parts:
                del parts[r.randrange(len(parts))]
            ops[j] = {"a": "look", "n": o[1], "p": [b(g) for g in parts],
                      "m": b(m if m != "*" and r.random() < 0.8 else r.choice(["GET", "PUT"])),
                      "v": b(v if r.random() < 0.9 else "w")}
        sessions.append({"id": i, "k": "trie", "ops": ops})
    c.conform("random tries, clones and lookups", exe, sessions, "Trace_TrieNode", trie_events,
              nontrivial=lambda s, e: any(x["a"] == "clone" for x in e) and
              any(x["a"] == "look" and x["o"]["d"] for x in e))
    c.rules.append("every history of up to 2 insertions over literals, the single parameter, * and **, with at most one "
                   "clone at any point, and every short request against every trie; random tries that are cloned, "
                   "extended and dropped; nontrivial: something is cloned and some lookup succeeds")


# ------------------------------------------------------------- frame reading
def wide(n):
    return [n >> 24, n & 0xFFFFFF]


def rd_events(s, obs):
    return [{"a": "start"}] + [dict(op, o=o) for op, o in zip(s["ops"], obs)]


def rd_replay(c, exe, aspect):
    """Every edge of the specification's graph, and random walks through it."""
    d = c.design("MC_MessageReader", write_cfg(
        "MC_MessageReader", open(vlib.SPEC + "/MC_MessageReader.cfg").read() if not c.thorough else
        open(vlib.SPEC + "/MC_MessageReader.cfg").read().replace("MaxFrames = 2", "MaxFrames = 3")
        .replace("{0, 1, 2}", "{0, 2}")))
    paths = vlib.cover(d.lines, lambda s: s["s"][0] == [0, 0] and not s["s"][1] and s["s"][4] is False and
                       s["s"][5] == 0 and s["s"][8] == [], c.rng, c.pick(1500, 20000))
    sessions, want = [], []
    for p in paths:
        ops, w, broken = [], [], False
        for a in p:
            op = {"a": a["a"]}
            if a["a"] == "poll":
                op["a"] = c.rng.choice(["poll", "pollf"])
            if "b" in a:
                op["b"] = a["b"]
            if a["a"] in ("read", "break"):
                op["n"] = [0, a["n"]]
            ops.append(op)
            x = {}
            if aspect == "frames":
                x["fin"] = a["fin"]
                if a["a"] == "poll":
                    x["got"] = a["o"]["got"]
                    if op["a"] == "pollf" and a["o"]["got"]:
                        x["hdr"], x["size"] = a["o"]["hdr"], a["o"]["size"]
                if a["a"] == "read":
                    x["b"], x["eof"] = a["o"]["b"], a["o"]["eof"]
            elif aspect == "errors":
                x["fin"], x["code"], x["err"] = a["fin"], a["code"], a["err"]
                if a["a"] == "poll":
                    x["got"] = a["o"]["got"]
            else:
                x["cons"], x["ovr"] = a["cons"], False
                broken = broken or a["a"] == "break"
                if broken and a["fin"]:     # what a failed attempt has taken is not specified
                    x["cons"] = [-1, 0]
            w.append(x)
        sessions.append({"id": len(sessions), "k": "rd", "ops": ops})
        want.append(w)

    # Compared field by field; a position that is not settled is not compared.
    def norm(s, o):
        out = []
        for x, w in zip(o, want[s["id"]]):
            y = {k: x.get(k) for k in w}
            if "err" in w:
                t = bytes(x["msg"])
                y["err"] = {"w": "header" if b"header" in t else "flag" if b"flag" in t else "body" if t else "",
                            "n": [list(n) for n in re.findall(rb"\d+", t)]}
            if y.get("cons") == [-1, 0] or w.get("cons") == [-1, 0]:
                y["cons"] = w.get("cons")
            out.append(y)
        return out
    c.replay("every transition of the reader over all streams of %d small frames" % c.pick(2, 3), exe, sessions,
             lambda s: want[s["id"]], norm, with_session=True)


def frame(flag, size, body=None):
    h = [flag, (size >> 24) & 255, (size >> 16) & 255, (size >> 8) & 255, size & 255]
    return h


def reader_session(r, i, big, faults, breaks=0.0):
    """A random stream of frames, random chunking, random polls and reads."""
    wire = []       # (kind, bytes or n)
    frames = r.choice([0, 1, 1, 2, 3, 5, 9])
    sizes = [0, 1, 2, 3, 5, 17, 255, 256, 257]
    bigs = [65535, 65536, 70000, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 77]
    for k in range(frames):
        n = r.choice(sizes if not big or r.random() < 0.6 else bigs)
        if r.random() < 0.15:
            n = r.choice([r.randint(0, 140), r.randint(0, 5000), r.randint(0, 5000), 1 << r.randint(2, 16)])
        flag = 0
        if faults and r.random() < 0.12:
            flag = r.choice([1, 1, 2, 128, 255])
        wire.append(("b", frame(flag, n)))
        if n > 512 or r.random() < 0.2:
            wire.append(("p", n))
        else:
            wire.append(("b", [r.randrange(256) for _ in range(n)]))
    if faults and r.random() < 0.6:
        k = r.random()
        if k < 0.4:      # cut in a header
            wire.append(("b", frame(0, r.choice(sizes))[:r.randint(1, 4)]))
        else:
            n = r.choice([1, 2, 9, 300, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1] if k < 0.9 else bigs)
            have = r.choice([0, 1, n - 1, n // 2])
            have = min(have, 3000)
            wire.append(("b", frame(0, n)))
            if have:
                wire.append(("p", have) if have > 64 else ("b", [r.randrange(256) for _ in range(have)]))
    # Chunks.
    chunks = []
    style = r.choice(["bytes", "frames", "random", "random", "one", "merge"])
    for kind, x in wire:
        if kind == "p":
            n = x
            while n > 0:
                k = n if style in ("frames", "one") or r.random() < 0.3 else r.randint(1, n)
                chunks.append({"a": "pat", "n": wide(k)})
                n -= k
                if r.random() < 0.5:
                    break
            if n:
                chunks.append({"a": "pat", "n": wide(n)})
        else:
            p = 0
            while p < len(x):
                k = {"bytes": 1, "frames": len(x), "one": len(x)}.get(style, r.randint(1, 7))
                if style == "bytes" and len(x) > 40:
                    k = 9
                if style == "merge" and chunks and chunks[-1]["a"] == "feed" and r.random() < 0.7:
                    chunks[-1]["b"] = chunks[-1]["b"] + x[p:p + k]
                else:
                    chunks.append({"a": "feed", "b": x[p:p + k]})
                p += k
    for _ in range(r.choice([0, 0, 1, 3])):
        chunks.insert(r.randint(0, len(chunks)), {"a": "feed", "b": []})
    ops = []
    lazy = r.random()
    for ch in chunks:
        ops.append(ch)
        if r.random() > lazy:
            ops.append({"a": "P"})
    if r.random() < 0.15:
        ops.append({"a": "P"})
    else:
        ops.insert(len(ops) if r.random() < 0.6 else r.randint(max(0, len(ops) - 2), len(ops)), {"a": "close"})
        # nothing may arrive behind the close
        j = next(k for k, o in enumerate(ops) if o["a"] == "close")
        ops = ops[:j + 1] + [o for o in ops[j + 1:] if o["a"] == "P"]
    ops += [{"a": "P"}] * (frames + 2)
    if r.random() < breaks:
        feeds = [k for k, o in enumerate(ops) if o["a"] == "feed" and o["b"]]
        if feeds:
            k = r.choice(feeds)
            n = sum(len(o["b"]) if o["a"] == "feed" else o["n"][0] * (1 << 24) + o["n"][1] for o in ops[:k + 1]
                    if o["a"] in ("feed", "pat"))
            ops.insert(k + 1, {"a": "break", "n": wide(max(0, n - r.choice([0, 0, 1, 2, 4, 5, 6, 9, 300])))})
    # A "P" is a poll and reading whatever it gives: in a second pass, since
    # whether it gives something is for the code to say; the harness skips
    # reads of a message there is not.
    out = []
    for o in ops:
        if o["a"] != "P":
            out.append(o)
            continue
        for _ in range(r.choice([1, 1, 1, 2])):
            out.append({"a": r.choice(["poll", "pollf"])})
            k = r.random()
            parts = []
            if k < 0.3:
                parts = [wide(r.choice([1, 2, 3, 100, 400])) for _ in range(r.randint(1, 3))]
            out += [{"a": "read", "n": n, "if": 1} for n in parts]
            # What is left of it: reading beyond the end, so that it is closed.
            out.append({"a": "read", "n": [-1, 0], "if": 1})
    return {"id": i, "k": "rd", "ops": out}


def rd_filtered(s, obs):
    """Events of a session; conditional reads that did not happen are left out."""
    ev = [{"a": "start"}]
    for op, o in zip(s["ops"], obs):
        if "skip" in o:
            continue
        e = {k: v for k, v in op.items() if k != "if"}
        e["o"] = o
        ev.append(e)
    return ev


def huge_sessions(r, sizes):
    out = []
    for n in sizes:
        ops = [{"a": "feed", "b": frame(0, n)[:3]}, {"a": "pollf"}, {"a": "feed", "b": frame(0, n)[3:]},
               {"a": "pollf"}, {"a": "pat", "n": wide(n // 2)}, {"a": "poll"}, {"a": "pat", "n": wide(n - n // 2 - 1)},
               {"a": "poll"}, {"a": "feed", "b": [65] + frame(0, 1) + [66]}, {"a": "pollf"},
               {"a": "read", "n": [-1, 0], "if": 1}, {"a": "pollf"}, {"a": "read", "n": [-1, 0], "if": 1},
               {"a": "close"}, {"a": "poll"}]
        out.append({"id": len(out), "k": "rd", "ops": ops})
        ops = [{"a": "feed", "b": frame(0, n)}, {"a": "pat", "n": wide(n - 1)}, {"a": "poll"}, {"a": "close"},
               {"a": "poll"}, {"a": "poll"}]
        out.append({"id": len(out), "k": "rd", "ops": ops})
    return out


def got_one(s, e):
    return any(x["a"] in ("poll", "pollf") and x["o"]["got"] for x in e)


def reader_check(c, aspect, faults, nontrivial):
    exe = vlib.build_core()
    rd_replay(c, exe, aspect)
    r = c.rng
    sessions = [reader_session(r, i, False, r.random() < faults, 0.12) for i in range(c.pick(700, 8000))]
    c.conform("random streams, chunkings and polls", exe, sessions, "Trace_MessageReader", rd_filtered,
              env={"ASPECT": aspect}, nontrivial=nontrivial)
    sessions = [reader_session(r, i, True, r.random() < faults, 0.1) for i in range(c.pick(60, 600))]
    c.conform("large messages", exe, sessions, "Trace_MessageReader", rd_filtered, env={"ASPECT": aspect},
              nontrivial=nontrivial, limit=60)
    sessions = []
    for i in range(c.pick(6, 24)):
        wire, n = [], r.choice([300, 700])
        for _ in range(n):
            k = r.choice([0, 0, 1, 1, 2, 3, 9])
            wire += frame(0, k) + [r.randrange(256) for _ in range(k)]
        if r.random() < faults:
            wire += r.choice([[0], [0, 0, 0, 0], [1, 0, 0, 0, 0], [0, 0, 0, 0, 2, 7]])
        ops, p = [], 0
        cuts = sorted(r.randrange(len(wire)) for _ in range(12)) + [len(wire)]
        for j, x in enumerate(cuts):
            ops.append({"a": "feed", "b": wire[p:x]})
            p = x
            if x == len(wire):
                ops.append({"a": "close"})
            for _ in range(n + 2 if x == len(wire) else r.choice([0, n // 12, n // 12 + 3, n])):
                ops += [{"a": r.choice(["poll", "pollf"])}, {"a": "read", "n": [-1, 0], "if": 1}]
        sessions.append({"id": i, "k": "rd", "ops": ops})
    c.conform("hundreds of frames", exe, sessions, "Trace_MessageReader", rd_filtered, env={"ASPECT": aspect},
              nontrivial=nontrivial)
    sizes = [(1 << 24) + 5, (1 << 31) - 1, 1 << 31] + c.pick([], [(1 << 32) - 1, (1 << 31) + (1 << 25) + 3, 1 << 28])
    c.conform("messages around 2^31 and more", exe, huge_sessions(r, sizes), "Trace_MessageReader", rd_filtered,
              env={"ASPECT": aspect}, limit=300)


def check_S01(c):
    reader_check(c, "frames", 0.15, got_one)
    c.rules.append("every transition of the specification's graph over all streams of two small frames, with all "
                   "chunkings; random streams and chunkings with messages up to 16 MB; messages of 2^31 bytes and more; "
                   "nontrivial: a message is yielded")


def check_S02(c):
    reader_check(c, "lazy", 0.3, got_one)
    c.rules.append("as S01, observing what is taken from the source and whether more is asked for than there is")


def check_S03(c):
    reader_check(c, "errors", 0.85, lambda s, e: any(x.get("o", {}).get("code") for x in e))
    c.rules.append("as S01, with most streams truncated in a header or body or with a flag set; nontrivial: ends in an error")


# ----------------------------------------------------- stream over messages
def ms_events(s, obs):
    return [{"a": "start"}] + [dict(op, o=o) for op, o in zip(s["ops"], obs)]


def random_ms(r, n, closing=True, big=()):
    ops, closed, seed = [], False, 0
    for _ in range(n):
        k = r.random()
        if k < 0.3 and not closed:
            n = r.choice([0, 0, 1, 1, 2, 3, 10, 250, 300, 5000, r.randint(0, 5000)] + list(big) * 2)
            ops.append({"a": "push", "s": seed % 251, "n": n})
            seed += n
        elif k < 0.33 and not closed and len(ops) > 3 and closing:
            ops.append({"a": "close"})
            closed = True
        elif k < 0.65:
            ops.append({"a": "next"})
        elif k < 0.85:
            ops.append({"a": "backr", "x": r.choice([0, 1, 2, 3, 5, 999] + [70001] * len(big))})
        elif k < 0.95:
            ops.append({"a": "avail"})
        else:
            ops.append({"a": "fin"})
    if not closed and r.random() < 0.7:
        ops.append({"a": "close"})
    ops += [{"a": "avail"}, {"a": "next"}] * 4 + [{"a": "fin"}]
    return {"k": "ms", "ops": ops}


def check_S04(c):
    exe = vlib.build_core()
    d = c.design("MC_MessageStream", "MC_MessageStream.cfg")
    paths = vlib.cover(d.lines, lambda s: s["init"], c.rng, c.pick(3000, 40000), maxlen=40)
    sessions = []
    for p in paths:
        sessions.append({"id": len(sessions), "k": "ms", "ops": p})
    c.conform("every transition over messages of 0 to 2 bytes", exe, sessions, "Trace_MessageStream", ms_events,
              cfg="Trace_MessageStream.cfg")
    r = c.rng
    sessions = [dict(random_ms(r, r.choice([5, 15, 40, 80]) if i % 100 else 1500, i % 100), id=i)
                for i in range(c.pick(800, 10000))]
    c.conform("random messages and calls", exe, sessions, "Trace_MessageStream", ms_events,
              cfg="Trace_MessageStream.cfg", nontrivial=lambda s, e: sum(x["o"].get("n", 0) > 0 for x in e if x["a"] == "next") > 1)
    big = [65535, 65536, 70000, 1 << 20, (1 << 24) + 5]
    sessions = [dict(random_ms(r, r.choice([8, 20]), True, big), id=i) for i in range(c.pick(40, 400))]
    c.conform("large messages", exe, sessions, "Trace_MessageStream", ms_events, cfg="Trace_MessageStream.cfg", limit=60)
    c.rules.append("every transition over up to 3 messages of 0 to 2 bytes; random messages up to 5000 bytes and of up to 16 MB and random "
                   "next, back-up and query calls; nontrivial: more than one call gives bytes")


def write_cfg(name, text):
    import hashlib
    import os
    d = os.path.join(vlib.BUILD, "cfg")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.cfg" % (name, hashlib.md5(text.encode()).hexdigest()[:8]))
    tmp = p + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, p)
    return p
