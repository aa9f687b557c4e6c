"""Checks of the JSON half: translation of requests and responses, field paths,
and everything end to end."""
import base64
import json

import gen
import genjson as g
import vlib
from checks_core import sub_events, write_cfg
from genjson import b

ASSUME = ("protobuf's internal JSON converters (google/protobuf/util/converter), which this protobuf no longer has as "
          "public headers, are stood in for by /verif/shim; the repository's own code is compiled unchanged against them")


# ------------------------------------------------------------------ requests
def rq_events(s, obs):
    return ([{"a": "start", **{k: s[k] for k in ("type", "bp", "binds", "rej", "ci", "str", "del")}}]
            + [dict(op, o=o) for op, o in zip(s["ops"], obs)])


def got(s, e):
    return sum(1 for x in e[1:] if x["o"].get("got"))


def failed(s, e):
    return e[-1]["o"]["code"] != 0


BPS = ["", "*", "m", "n", "sub_msg", "subMsg", "m.m", "m.n", "n.m", "rm", "rs", "rn", "s", "i32", "d", "ri", "re", "b",
       "y", "e", "m.s", "n.r", "m.n.a", "long_name", "m.longName", "u64", "m.rm", "n.m.n.m"]


def field(bp, t="M"):
    """Type and repeatedness of what the body stands for."""
    rep = False
    for x in bp.split("."):
        if x not in ("", "*"):
            f = [f for f in g.fields(t) if f[2] == x or g.mkschema.camel(f[2]) == x][0]
            t, rep = f[1], f[0]
    return t, rep


def body(r, bp, str_, p=None, n=None, depth=2):
    """A JSON body for a body field path, as a value."""
    t, rep = field(bp)
    p = p or {}
    if str_:
        return [g.value(r, t, rep, depth, p) for _ in range(r.choice([0, 1, 2, 3, 4]) if n is None else n)]
    return g.value(r, t, rep, depth, p)


def some_binds(r, n, bad=0.0, only=None):
    out = []
    for _ in range(n):
        names, _, _, v = g.binding(r, "M", 2, bad, only)
        out.append(g.bind(r, names, v))
    return out


def conform(c, name, sessions, nontrivial, exe=None):
    for i, s in enumerate(sessions):
        s["id"] = i
    return c.conform(name, exe or vlib.build_json(), sessions, "Trace_Request", rq_events, nontrivial=nontrivial)


def check_T01(c):
    r = c.rng
    S = []
    for i in range(c.pick(1500, 20000)):
        bp = r.choice(BPS)
        S.append(g.request(r, i, bp=bp, str_=1, body=g.text(r, body(r, bp, 1, {"null": 0.02})),
                           style="bytes" if r.random() < 0.25 else None))
    # Long streams, and elements that come one by one and are asked for at once.
    for i in range(c.pick(60, 600)):
        bp = r.choice(["", "*", "s", "ri", "n", "d", "rs"])
        t, rep = field(bp)
        n = r.choice([10, 30, 80])
        els = [b(g.text(r, g.value(r, t, rep, 1, {}))) for _ in range(n)]
        ops = [{"a": "feed", "b": b("[")}]
        for k, x in enumerate(els):
            ops += [{"a": "feed", "b": x + (b(",") if k + 1 < n else b("]"))}, {"a": "poll"}]
            if r.random() < 0.1:
                ops.append({"a": "poll"})
        s = g.request(r, 0, bp=bp, str_=1, body="[]")
        s["ops"] = ops + [{"a": "close"}, {"a": "poll"}]
        S.append(s)
    conform(c, "streams of elements of every kind", S, lambda s, e: got(s, e) > 1)
    c.rules.append("random JSON arrays of up to 80 elements (objects, lists, scalars) for 28 body field paths, with random "
                   "chunking and polling; nontrivial: more than one message")


def big_events(s, obs):
    return [{"a": "start", "str": s["str"], "del": s["del"]}] + [dict(op, o=o) for op, o in zip(s["ops"], obs)]


def check_T02(c):
    r = c.rng
    exe = vlib.build_json()
    S = []
    for i in range(c.pick(700, 8000)):
        bp = r.choice(BPS)
        st = int(r.random() < 0.6)
        S.append(g.request(r, i, bp=bp, str_=st, binds=some_binds(r, r.choice([0, 0, 1, 2]), only=lambda p: p[2]),
                           body=g.text(r, body(r, bp, st))))
    conform(c, "small messages, with and without delimiters", S, lambda s, e: got(s, e) > 0 and s["del"])
    S = []
    sizes = [0, 1, 2, 120, 125, 126, 127, 128, 251, 252, 253, 254, 255, 256, 16379, 16380, 16381, 16384, 65529, 65530, 65531,
             65532, 65533, 65534, 65535, 65536, 65537, 100000]
    huge = [16777205, 16777210, 16777211, 16777212, 16777216, 16777217]

    def big(ns, st):
        ops = []
        if st:
            ops.append({"a": "feed", "b": b("[")})
        for k, n in enumerate(ns):
            ops.append({"a": "feed", "b": b('{"s":"')})
            left = n
            while left:
                q = left if r.random() < 0.5 else r.randint(1, left)
                ops.append({"a": "fill", "n": q})
                left -= q
                if r.random() < 0.3:
                    ops.append({"a": "poll"})
            ops.append({"a": "feed", "b": b('"}' + ("," if st and k + 1 < len(ns) else "]" if st else ""))})
            ops += [{"a": "poll"}] * r.choice([0, 1, 2])
        ops += [{"a": "close"}] + [{"a": "poll"}] * (len(ns) + 1)
        return {"id": len(S), "k": "rq", "pool": r.randint(0, 1), "type": "M", "bp": b(r.choice(["", "*"])), "binds": [],
                "rej": 0, "ci": 0, "str": st, "del": int(r.random() < 0.85), "ops": ops}
    for n in sizes:
        S.append(big([n], 0))
        S.append(big([n, r.choice(sizes), r.choice(sizes)], 1))
    for _ in range(c.pick(20, 200)):
        S.append(big([r.randint(0, 200000) for _ in range(r.randint(1, 4))], 1))
    for n in c.pick(huge[:1] + huge[4:5], huge):
        S.append(big([n, 3], 1))
    c.conform("large messages", exe, S, "Trace_Big", big_events, nontrivial=lambda s, e: s["del"], limit=60)
    c.rules.append("random requests, unary and streaming, with and without delimiters; messages of every size around the "
                   "boundaries of the header's bytes, up to 2^24 and more; nontrivial: with delimiters")


def check_T03(c):
    r = c.rng
    S = []
    for i in range(c.pick(1800, 25000)):
        bp = r.choice(BPS)
        if bp and r.random() < 0.05:
            bp = r.choice([bp + ".", "." + bp, bp.replace(".", "..")]) if bp != "*" else bp
        st = int(r.random() < 0.3)
        S.append(g.request(r, i, bp=bp, str_=st, body=g.text(r, body(r, bp, st, depth=3))))
    conform(c, "bodies of every kind at every path", S, lambda s, e: got(s, e) > 0 and s["bp"] not in ([], [42]))
    c.rules.append("random JSON values for 28 body field paths, at depths up to 4, also with needless dots; nontrivial: a "
                   "message comes out and the path is not empty")


def mc_weave(c, rej):
    k, n = c.pick((1, 2), (2, 2))
    cfg = write_cfg("MC_Weave", "SPECIFICATION MCSpec\nCONSTANTS MaxKids = %d MaxBinds = %d Export = TRUE\n"
                    "INVARIANTS EachField NothingElse Rejected OrderIdle Exported\nCHECK_DEADLOCK FALSE\n" % (k, n))
    d = c.design("MC_Weave", cfg)
    S = []
    for x in d.lines:
        if int(x["rej"]) not in rej:
            continue
        S.append(g.request(c.rng, 0, bp="", binds=x["b"], rej=int(x["rej"]), body="", polls=1))
        S[-1]["bp"] = x["bp"]
        S[-1]["ops"] = [{"a": "feed", "b": q} for q in g.cuts(c.rng, x["t"], c.rng.choice(["one", "few"]))] + \
                       [{"a": "close"}, {"a": "poll"}]
    return S


def check_T04(c):
    r = c.rng
    conform(c, "every small body with up to two bindings", mc_weave(c, (0,)), lambda s, e: got(s, e) > 0 and s["binds"])
    S = []
    for i in range(c.pick(1500, 20000)):
        bp = r.choice(["", "", "*", "*"] + BPS)
        st = int(r.random() < 0.15)
        bs = some_binds(r, r.choice([1, 1, 2, 3, 5, 8]))
        if r.random() < 0.05:
            bs.insert(r.randint(0, len(bs)), g.bind(r, [], r.choice(["", "x", "5"])))
        S.append(g.request(r, i, bp=bp, str_=st, binds=bs, body=g.text(r, body(r, bp, st))))
        if r.random() < 0.05:
            S[-1]["ops"] = [o for o in S[-1]["ops"] if o["a"] != "feed"]
    # Several bindings of few fields, in bodies that have these fields.
    for i in range(c.pick(700, 10000)):
        ps = r.sample([p for p in g.paths("M", 2) if g.kind(p[1]) != "message"], 2)
        bs = []
        for _ in range(r.randint(2, 6)):
            names, t, rep = r.choice(ps)
            bs.append(g.bind(r, names, g.scalar(r, g.kind(t), True)))
        v = {}
        for names, t, rep in ps:
            if r.random() < 0.6:
                place(r, v, "M", names, t, rep)
        S.append(g.request(r, i, binds=bs, body=g.text(r, v)))
    conform(c, "random bodies and bindings", S, lambda s, e: got(s, e) > 0 and len(s["binds"]) > 1)
    c.rules.append("every body with up to two members of a list and every pair of bindings of a list; random bodies with up "
                   "to 8 random bindings of all kinds of fields, at depths up to 3; nontrivial: a message comes out, with "
                   "bindings")


def place(r, v, t, names, ty, rep, val=None):
    """Puts a value at a path of a body, and something beside it."""
    for k, nm in enumerate(names):
        key = next((x for x in (nm, g.mkschema.camel(nm)) if x in v), None) or \
            (g.mkschema.camel(nm) if r.random() < 0.4 else nm)
        if k + 1 == len(names):
            v[key] = g.value(r, ty, rep, 1, {}) if val is None else val
        else:
            if not isinstance(v.get(key), dict):
                v[key] = {}
            v = v[key]


def check_T05(c):
    r = c.rng
    conform(c, "every small body with up to two bindings", mc_weave(c, (1,) if not c.thorough else (0, 1)),
            lambda s, e: s["binds"])
    S = []
    for i in range(c.pick(2600, 35000)):
        st = int(r.random() < 0.2)
        ps = [p for p in g.paths("M", 2) if g.kind(p[1]) != "message"]
        many = r.random() < 0.3
        if many:        # fields of few messages, in turns, that agree but for one at most
            at = r.sample(sorted({p[0][0] for p in ps if len(p[0]) > 1}), 2)
            ps = [p for p in ps if p[0][0] in at]
            ps = r.sample(ps, min(len(ps), r.choice([3, 4, 6])))
            odd = r.randrange(len(ps) + 1)
        else:
            ps = r.sample(ps, 2)
        v = {}
        bs = []
        for j, (names, t, rep) in enumerate(ps):
            k = g.kind(t)
            x = g.scalar(r, k) if r.random() < 0.9 else None
            if x is not None:
                place(r, v, "M", names, t, rep, [x] if rep else x)
            y = r.random()
            if many:
                y = r.choice([0.4, 0.9]) if j == odd else 0.5
            text = x.t if isinstance(x, g.Raw) else x
            if x is None or y < 0.45:
                w = g.scalar(r, k, True)
            elif y < 0.85:
                w = text
            elif k in g.INTS and isinstance(x, g.Raw):
                w = near(r, text)
            elif k == "double" and isinstance(x, g.Raw):
                whole, _, part = text.partition(".")
                w = whole + "." + (part + "0000000")[:6] + "1" if len(part) < 7 else text
                if part and r.random() < 0.6:
                    w = g.close(r, text)
                    if r.random() < 0.4 and w != text:
                        place(r, v, "M", names, t, rep, [g.Raw(w)] if rep else g.Raw(w))
                        w = text
            else:
                w = g.badscalar(r, k, True)
            if w is not None and r.random() < 0.9:
                bs.append(g.bind(r, names, w))
        if r.random() < 0.3:
            bs += some_binds(r, 1)
        data = g.text(r, [v] + [body(r, "", 0) for _ in range(r.choice([0, 1]))] if st else v)
        S.append(g.request(r, i, rej=int(r.random() < 0.75), str_=st, binds=bs, body=data))
    for x in ("0.5", "-0.25", "1.5", "2.25", "-2.125", "3.75", "-3.5"):
        for y in g.closes(x) + [x + "0", x + "000000", x[:-1]]:
            if y.endswith("."):
                y = y[:-1]
            for f in ("d", "fl") if len(y) < 9 else ("d",):
                if not any(names == [f] for names, _, _ in g.paths("M", 1)):
                    continue
                S.append(g.request(r, len(S), rej=1, binds=[g.bind(r, [f], y)], body=g.text(r, {f: g.Raw(x)})))
                if "." in y:
                    S.append(g.request(r, len(S), rej=1, binds=[g.bind(r, [f], x)], body=g.text(r, {f: g.Raw(y)})))
    conform(c, "bodies and bindings of the same fields", S, lambda s, e: s["rej"] and s["binds"] and
            (failed(s, e) or got(s, e) > 0))
    c.rules.append("every body with up to two members of a list and every pair of bindings of a list; random bodies that set "
                   "fields of every kind together with equal, different, nearly equal and inconvertible bindings; "
                   "nontrivial: with reporting on and some binding")


def near(r, t):
    try:
        n = int(t) + r.choice([1, -1])
    except ValueError:
        return t
    return str(n)


def check_T06(c):
    r = c.rng
    S = []
    for i in range(c.pick(1600, 22000)):
        bp = r.choice(["", "", "*", "n", "m", "rs", "s", "sub_msg", "rm", "e", "re"])
        ci, rej = r.randint(0, 1), r.randint(0, 1)
        bs = some_binds(r, r.choice([0, 1, 2, 3]))
        v = body(r, bp, 1, {"ci": ci if r.random() < 0.8 else 1}, n=r.choice([0, 1, 2, 3, 4, 6]))
        S.append(g.request(r, i, bp=bp, str_=1, binds=bs, rej=rej, ci=ci, body=g.text(r, v)))
    conform(c, "streams with bindings and options", S, lambda s, e: got(s, e) > 1 and s["binds"])
    c.rules.append("random streams of 0 to 6 elements with bindings, conflict reporting and case-insensitive enum values on "
                   "and off; nontrivial: more than one message, and bindings")


def check_T07(c):
    r = c.rng
    exe = vlib.build_json()
    n = c.pick(6, 7)
    cfg = write_cfg("MC_Json", open(vlib.SPEC + "/MC_Json.cfg").read().replace("MaxLen = 4", "MaxLen = %d" % n))
    c.design("MC_Json", cfg)
    cfg = write_cfg("MC_Translator", open(vlib.SPEC + "/MC_Translator.cfg").read()
                    .replace("Export = FALSE", "Export = TRUE").replace("MaxQueue = 2", "MaxQueue = %d" % c.pick(2, 3)))
    d = c.design("MC_Translator", cfg)
    confs = {x["no"]: x for x in d.lines if "no" in x}
    edges = [x for x in d.lines if "f" in x]
    S = []
    for no, x in sorted(confs.items()):
        es = [e for e in edges if e["f"]["n"] == no]
        init = lambda s: s["l"] == len(x["t"]) and not s["q"] and not s["c"] and s["s"] == [0, 0, -1, False, False]
        for p in vlib.cover(es, init, r, c.pick(30, 400), maxlen=30):
            k = x["c"]
            S.append({"id": 0, "k": "rq", "pool": r.randint(0, 1), "type": "M", "bp": k["bp"], "binds": k["binds"],
                      "rej": int(k["rej"]), "ci": 0, "str": int(k["str"]), "del": r.randint(0, 1),
                      "ops": p + [{"a": "close"}] * (p[-1:] != [{"a": "close"}] and {"a": "close"} not in p)
                      + [{"a": "poll"}] * 3})
    conform(c, "every transition over 15 bodies", S, lambda s, e: got(s, e) > 0, exe)
    # The same bodies, cut at every place, or in two places, or byte by byte.
    S = []
    for i in range(c.pick(60, 700)):
        bp = r.choice(BPS)
        st = int(r.random() < 0.5)
        p = {"bad": 0.03}
        data = b(g.text(r, body(r, bp, st, p, depth=1)))[:70]
        bs = some_binds(r, r.choice([0, 1, 2]))
        rej, ci = r.randint(0, 1), r.randint(0, 1)
        for k in range(0, len(data) + 1, 1 if c.thorough or len(data) < 24 else 3):
            s = g.request(r, 0, bp=bp, str_=st, binds=bs, rej=rej, ci=ci, body="[]", polls=4)
            s["ops"] = g.schedule(r, [x for x in (data[:k], data[k:]) if x], 4)
            S.append(s)
        s = dict(S[-1], ops=g.schedule(r, [[x] for x in data], 4))
        S.append(s)
    conform(c, "bodies cut everywhere", S, lambda s, e: got(s, e) > 0, exe)
    c.rules.append("every transition of the specification's graph over 15 bodies with all chunkings (up to two chunks waiting) "
                   "and all interleavings of polls; random bodies cut at every position and byte by byte; nontrivial: a "
                   "message comes out")


def check_T08(c):
    r = c.rng
    exe = vlib.build_json()
    # Every text over a few bytes, as a unary and as a streaming body.
    n = c.pick(5, 6)
    cfg = write_cfg("MC_Json", open(vlib.SPEC + "/MC_Json.cfg").read().replace("MaxLen = 4", "MaxLen = %d" % n)
                    .replace("Export = FALSE", "Export = TRUE"))
    d = c.design("MC_Json", cfg)
    S = []
    texts = [x["t"] for x in d.lines]
    for t in texts if len(texts) < c.pick(9000, 10**9) else r.sample(texts, 9000):
        for st, bp in ((0, "rm"), (1, "s")) if c.thorough else ((r.choice([0, 1]), r.choice(["rm", "s", "", "rs"])),):
            if g.contested(bytes(t).decode(), st if bp in ("rm", "rs") else 9):
                continue
            S.append(g.request(r, 0, bp=bp, str_=st, body="", polls=3))
            S[-1]["ops"] = [{"a": "feed", "b": t}] * bool(t) + [{"a": "poll"}, {"a": "close"}] + [{"a": "poll"}] * 3
    conform(c, "every text over a few bytes", S, lambda s, e: failed(s, e), exe)
    S = []
    for i in range(c.pick(2500, 35000)):
        bp = r.choice(BPS)
        st = int(r.random() < 0.5)
        p = {"bad": r.choice([0, 0.1, 0.3])}
        data = b(g.text(r, body(r, bp, st, p, n=r.choice([1, 2, 3, 4]))))
        if p["bad"] == 0:
            data = g.mutate(r, data, st)
        S.append(g.request(r, i, bp=bp, str_=st, body=data, binds=some_binds(r, r.choice([0, 0, 1]), 0.1)))
    # A streaming body that is no array; a unary one that is no message.
    for i in range(c.pick(200, 2000)):
        st = r.randint(0, 1)
        bp = r.choice(["", "*"])
        v = r.choice([g.junk(r, 2), {}, "s", g.Raw("5"), g.Raw("true"), [], [g.junk(r, 2)]])
        if isinstance(v, g.Raw) and v.t == "null":
            continue
        S.append(g.request(r, i, bp=bp, str_=st, body=g.text(r, v)))
    conform(c, "bodies with a defect", S, failed, exe)
    c.rules.append("every text over a few bytes up to a length; random bodies with broken syntax, values that do not fit, and "
                   "of the wrong kind, in random chunks; nontrivial: ends in an error")


def check_T09(c):
    r = c.rng
    S = []
    for i in range(c.pick(1800, 25000)):
        bp = r.choice(["", "", "*", "m", "n", "rm", "sub_msg", "m.n"])
        st = int(r.random() < 0.3)
        v = body(r, bp, st, {"unk": 0.7}, depth=3)
        if r.random() < 0.3:
            v = v if st or isinstance(v, list) else {"deep": deep(r, r.choice([5, 20, 40])), **v}
        S.append(g.request(r, i, bp=bp, str_=st, binds=some_binds(r, r.choice([0, 0, 1, 2])), rej=r.randint(0, 1),
                           body=g.text(r, v)))
    conform(c, "bodies with unknown fields", S, lambda s, e: got(s, e) > 0)
    c.rules.append("random bodies with unknown fields of every shape, at every depth, also named like known fields of other "
                   "messages, with and without bindings; nontrivial: a message comes out")


def deep(r, n):
    v = g.Raw("1")
    for _ in range(n):
        v = [v] if r.random() < 0.5 else {r.choice(["s", "m", "zz", "i32"]): v}
    return v


# --------------------------------------------------------------- field paths
def rp_events(s, obs):
    return [dict(types=s["types"], d=q["d"], p=q["p"], **o) for q, o in zip(s["paths"], obs)]


def check_T10(c):
    r = c.rng
    exe = vlib.build_json()
    cfg = write_cfg("MC_FieldPath", "SPECIFICATION MCSpec\nCONSTANTS MaxLen = %d Export = TRUE\nINVARIANTS Chain Compose "
                    "DotsIdle Exported Header\nCHECK_DEADLOCK FALSE\n" % c.pick(5, 6))
    d = c.design("MC_FieldPath", cfg)
    types = next(x["types"] for x in d.lines if "types" in x)
    lines = [x for x in d.lines if "p" in x]
    S, want = [], {}
    for k in range(0, len(lines), 500):
        part = lines[k:k + 500]
        S.append({"id": len(S), "k": "rp", "types": types, "threads": 0, "rounds": 0,
                  "paths": [{"d": 1, "p": x["p"]} for x in part]})
        want[S[-1]["id"]] = [{"res": [{"code": 0 if x["ok"] else 3, "kept": True, "f": x["f"]}], "overlap": 0} for x in part]
    c.replay("every path over 7 bytes", exe, S, lambda s: want[s["id"]])
    S = []
    for i in range(c.pick(700, 8000)):
        types = g.typegraph(r)
        paths = []
        for _ in range(8):
            p = g.pathto(r, types)
            if r.random() < 0.5:
                paths.append({"d": 0, "p": p})
            else:
                t = []
                for k, nm in enumerate(p):
                    t += [46] * (1 if k else 0) + nm + [46] * (r.random() < 0.05)
                paths.append({"d": 1, "p": ([46] if r.random() < 0.05 else []) + t})
        S.append({"id": i, "k": "rp", "types": types, "paths": paths, "threads": 0, "rounds": 0})
    ok = lambda s, e: any(x["res"][0]["code"] == 0 and len(x["res"][0]["f"]) > 1 for x in e)
    c.conform("random types and paths", exe, S, "Trace_FieldPath", rp_events, nontrivial=ok)
    T = []
    for i, s in enumerate(S[:c.pick(40, 400)]):
        T.append(dict(s, id=i, threads=c.pick(4, 8), rounds=c.pick(3, 10)))
    c.conform("by several threads at a time", exe, T, "Trace_FieldPath", rp_events, nontrivial=ok, flaky=True)
    exe = vlib.build_json("tsan")
    c.conform("by several threads at a time, watched for data races", exe, T[:c.pick(10, 200)], "Trace_FieldPath",
              rp_events, nontrivial=ok, flaky=True)
    c.rules.append("every path over 7 bytes up to a length in a type graph with cycles, a missing type and JSON names; random "
                   "type graphs and paths in both forms; the same by several threads, in the stand-in that notices calls at "
                   "the same time, and under the thread sanitizer; nontrivial: a path of at least two fields resolves")


# ----------------------------------------------------------------- responses
def rj_events(s, obs):
    keep = ("type", "str", "nd", "ws", "prim", "ei", "pn", "frames")
    return [{"a": "start", **{k: s[k] for k in keep}, "sizes": obs["sizes"]}] + \
           [dict(op, o=o) for op, o in zip(s["ops"], obs["ops"])]


def mc_response(c, exe, keep):
    cfg = write_cfg("MC_Response", open(vlib.SPEC + "/MC_Response.cfg").read().replace("Export = FALSE", "Export = TRUE")
                    .replace("MaxFrames = 2", "MaxFrames = %d" % c.pick(2, 3)))
    d = c.design("MC_Response", cfg)
    groups = {}
    for x in d.lines:
        groups.setdefault(json.dumps([x["f"]["c"], x["f"]["f"]]), []).append(x)
    S = []
    for k, es in sorted(groups.items()):
        (st, nd), frames = json.loads(k)
        if not keep(frames):
            continue
        fs = []
        for f in frames:
            if not f["good"]:
                fs.append({"k": "raw", "b": g.bad_message(c.rng, "M"), "fl": 0})
            elif f["fl"]:
                fs.append({"k": "raw", "b": [0], "fl": f["fl"]})
            else:
                fs.append({"k": "msg", "m": [{"f": 8, "v": [{"b": b("true"), "m": []}]}] if f["size"] else [], "fl": 0})
        init = lambda s: s["s"] == [0, False, 0, False, False]
        for p in vlib.cover(es, init, c.rng, c.pick(10, 100), maxlen=40):
            S.append({"id": len(S), "k": "rj", "pool": 0, "type": "M", "str": int(st), "dflt": 0, "nd": int(nd), "ws": 0,
                      "prim": 0, "ei": 0, "pn": 0, "frames": fs, "tail": [], "ops": p + [{"a": "poll"}] * 2})
    return S


def check_S05(c):
    r = c.rng
    exe = vlib.build_json()
    good = lambda s, e: any(x["o"].get("got") for x in e[1:])
    S = mc_response(c, exe, lambda fs: all(f["good"] and not f["fl"] for f in fs))
    c.conform("every transition over streams of two frames", exe, S, "Trace_Response", rj_events, nontrivial=good)
    S = [g.response(r, i, dflt=int(r.random() < 0.1)) for i in range(c.pick(1500, 20000))]
    for i in range(c.pick(20, 200)):    # long streams
        n = r.choice([30, 100])
        S.append(g.response(r, len(S), str_=1, type="N",
                            frames=[{"k": "msg", "m": g.message(r, "N", 0), "fl": 0} for _ in range(n)]))
    c.conform("random messages", exe, S, "Trace_Response", rj_events, nontrivial=good)
    S = []
    sizes = [0, 1, 100, 127, 128, 255, 256, 4000, 4090, 4096, 8192, 16384, 65535, 65536, 70000, 300000] + c.pick([], [20000000])
    for n in sizes:
        for st in (0, 1):
            ns = [n] + ([r.choice(sizes[:15]) for _ in range(r.choice([0, 1, 2]))] if st else [])
            s = g.response(r, len(S), str_=st, type="M", ws=0, prim=0, frames=[{"k": "fill", "n": k, "fl": 0} for k in ns])
            total = sum(ns) + 20 * len(ns)
            ops = []
            at = 0
            while at < total:
                k = r.choice([1, 5, 100, total // 3 + 1, total])
                ops += [{"a": "feed", "n": k}] + [{"a": "poll"}] * r.choice([0, 1, 1])
                at += k
                if len(ops) > 60:
                    ops.append({"a": "feed", "n": total})
                    break
            s["ops"] = ops + [{"a": "close"}] + [{"a": "poll"}] * (len(ns) + 2)
            S.append(s)
    c.conform("large messages", exe, S, "Trace_Response", rj_events, nontrivial=good, limit=60)
    c.rules.append("every transition over streams of up to two frames with all chunkings and cuts; random messages of all "
                   "kinds of fields with random print options, chunking and polling, unary, array and lines; large messages; "
                   "nontrivial: something is output")


def check_S06(c):
    r = c.rng
    exe = vlib.build_json()
    bad = lambda s, e: e[-1]["o"]["code"] != 0
    S = mc_response(c, exe, lambda fs: True)
    if not c.thorough:
        S = r.sample(S, min(len(S), 2500))
    c.conform("every transition over streams of two frames", exe, S, "Trace_Response", rj_events, nontrivial=bad)
    S = [g.response(r, i, defect=0.85) for i in range(c.pick(1800, 25000))]
    c.conform("random streams with a defect", exe, S, "Trace_Response", rj_events, nontrivial=bad)
    c.rules.append("every transition over streams of up to two frames, good and bad, cut off anywhere; random streams with a "
                   "bad message, a flag, a truncated header or body at random places; nontrivial: ends in an error")


# --------------------------------------------------------------- end to end
def e2e_events(s, obs):
    st = {"a": "start", "regs": s["regs"], "spec": s["spec"], "plus": s["plus"], "o": {"regs": obs["regs"]}}
    keep = ("type", "m", "p", "q", "body", "cuts", "str", "rej", "ci", "nd", "ws", "prim", "ei", "pn")
    return [st, {"a": "serve", **{k: s[k] for k in keep}, "o": {k: v for k, v in obs.items() if k != "regs"}}]


def check_T11(c):
    r = c.rng
    exe = vlib.build_json()
    S = [g.gateway(r, i, bad=r.choice([0, 0, 0, 0.1]), defect=0.05) for i in range(c.pick(2200, 30000))]
    c.conform("requests through templates, translation and back", exe, S, "Trace_Gateway", e2e_events,
              nontrivial=lambda s, e: len(e[1]["o"]["msgs"]) > 0)
    c.rules.append("random templates with variables of every kind, requests with encoded paths and queries, bodies, options and "
                   "chunkings; the frames fed back as a response; nontrivial: a message comes out")


# ------------------------------------------------- T12 several beside each other
def several(r, i, threads=0, rounds=0):
    subs = []
    first = r.choice(["rq", "rq", "rj"])
    for _ in range(r.choice([2, 2, 3, 4])):
        k = first if r.random() < 0.7 else r.choice(["rq", "rj"])
        like = [s for s in subs if s["k"] == k]
        if k == "rq":
            st = r.randint(0, 1)
            bp = r.choice(BPS[:12])
            bs = some_binds(r, r.choice([0, 1, 2]))
            ci, rej = r.randint(0, 1), r.randint(0, 1)
            if like and r.random() < 0.5:      # the same, with other options and bindings
                o = r.choice(like)
                s = dict(o, ci=ci, rej=rej, del_=0, binds=bs)
                s.pop("del_")
                s["del"] = r.randint(0, 1)
            else:
                text = g.text(r, body(r, bp, st, {"ci": ci, "bad": 0.03}, depth=1))
                s = g.request(r, 0, bp=bp, str_=st, binds=bs, rej=rej, ci=ci, body=text)
        else:
            s = g.response(r, 0, defect=0.2)
            s["ops"] = s["ops"][:60]
        subs.append(s)
    n = [len(s["ops"]) for s in subs]
    sched = [j for j in range(len(subs)) for _ in range(n[j])]
    if r.random() < 0.7:
        r.shuffle(sched)
    else:
        sched = [j for k in range(max(n)) for j in range(len(subs)) if k < n[j]]
    return {"id": i, "k": "multi", "threads": threads, "rounds": rounds, "subs": subs,
            "sched": [] if threads else sched}


def check_T12(c):
    r = c.rng
    exe = vlib.build_json()

    def run(name, S, exe, **kw):
        for kind, module, ev in (("rq", "Trace_Request", rq_events), ("rj", "Trace_Response", rj_events)):
            mine = [s for s in S if any(x["k"] == kind for x in s["subs"])]
            c.conform("%s (%s)" % (name, kind), exe, mine, module, sub_events(kind, ev),
                      nontrivial=lambda s, e: sum(x["k"] == kind for x in s["subs"]) > 1, **kw)
    run("interleaved, with shared types", [several(r, i) for i in range(c.pick(500, 8000))], exe)
    run("on threads, with shared types", [several(r, i, 1, c.pick(8, 30)) for i in range(c.pick(150, 2000))], exe,
        flaky=True, limit=60)
    run("on threads, thread sanitizer", [several(r, i, 1, c.pick(3, 8)) for i in range(c.pick(28, 600))], vlib.build_json("tsan"),
        flaky=True, limit=90)
    c.rules.append("two to four request and response translations with one TypeHelper, interleaved call by call or on a "
                   "thread each; nontrivial: at least two of the kind whose traces are validated")


# ------------------------------------------- T13 writers, event by event
def ow_events(s, obs):
    return ([{"a": "start", **{k: s[k] for k in ("ps", "binds", "wp", "ww", "rep")}}]
            + [dict(op, o=o) for op, o in zip(s["ops"], obs)])


def ev(e, n="", t="", v=""):
    return {"a": "ev", "e": e, "n": n if isinstance(n, list) else b(n), "t": t, "v": v if isinstance(v, list) else b(v)}


def as_binds(bs):
    return [{"p": [{"n": f["n"], "j": f["j"], "rep": bool(f["rep"])} for f in x["p"]], "v": x["v"]} for x in bs]


LEAVES = ["a", "b_c", "dd", "e", "list_of", "w", "long_field_name"]
MSGS = ["m", "n_n", "sub_msg"]
TEXTS = {"bool": ["true", "false"], "i32": ["0", "1", "-1", "7", "2147483647", "-2147483648"],
         "u32": ["0", "1", "7", "4294967295", "2147483648"],
         "i64": ["0", "1", "-7", "9223372036854775807", "-9223372036854775808", "4294967296", "1234567890123"],
         "u64": ["0", "1", "18446744073709551615", "9223372036854775808", "77"],
         "dbl": ["0", "1", "0.5", "-2.25", "1024.125", "1048576"], "flt": ["0", "1", "0.5", "-2.25", "16384.5"],
         "str": ["", "x", "7", "true", "a b", "\u00e9", "0.5", "1"], "byt": ["", "AAE=", "x", "eHl6", "xyz", "\0\1"], "nul": [""]}


def writers(r, i):
    """A session of writing documents, with bindings into fields it knows."""
    ww = int(r.random() < 0.8)
    wp = int(not ww or r.random() < 0.6)
    rep = int(r.random() < 0.5)

    def fld(n, repeated):
        j = r.choice([g.mkschema.camel(n), g.mkschema.camel(n), "J" + n])
        return {"n": b(n), "j": b(j if r.random() < 0.95 else ""), "rep": repeated}

    def schema(depth):
        sc = {n: (fld(n, r.random() < 0.3), r.choice([t for t in TEXTS if t != "nul"]), None)
              for n in r.sample(LEAVES, r.randint(1, 4))}
        if depth:
            sc.update({n: (fld(n, False), "", schema(depth - 1)) for n in r.sample(MSGS, r.choice([0, 1, 1, 2, 3]))})
        return sc
    sc = schema(r.choice([1, 2, 2, 3]))

    def spelt(f):
        n = f["j"] if f["j"] and r.random() < 0.4 else f["n"]
        return list(n)
    binds = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6]) if ww else 0):
        at, p = sc, []
        while True:
            n = r.choice(list(at))
            p.append(at[n][0])
            if at[n][2] is None:
                ty = at[n][1]
                w = r.choice(TEXTS[ty] if r.random() < 0.8 else TEXTS["str"])
                if ty in ("dbl", "flt") and w in TEXTS[ty] and r.random() < 0.4:
                    w = g.close(r, w, ty == "flt")
                binds.append({"p": p, "v": b(w)})
                break
            at = at[n][2]
    if binds and r.random() < 0.4:
        binds += r.choices(binds, k=r.choice([1, 2]))
    if ww and r.random() < 0.03:
        binds.append({"p": [], "v": b("x")})
    prefix, at = [], sc
    if wp:
        while r.random() < 0.6:
            ms = [n for n in at if at[n][2] is not None]
            if not ms:
                break
            n = r.choice(ms)
            prefix.append(r.choice([at[n][0]["n"], at[n][0]["n"], at[n][0]["j"] or at[n][0]["n"]]))
            at = at[n][2]
        if r.random() < 0.1:
            prefix.append(b("stray"))
            at = {}
    ps = b("").copy()
    for k, x in enumerate(prefix):
        ps += (b(".") if k else []) + x
    if r.random() < 0.1:
        ps = r.choice([b("."), b("..")]) + ps
    if r.random() < 0.1:
        ps = ps + r.choice([b("."), b("..")])
    if not wp:
        ps, prefix, at = [], [], sc

    def other():
        return r.choice(["", "zz", "m", "a", "other", "b_c", "e", "list_of"])

    def scalar(name, t=None):
        t = t if t and r.random() < 0.8 else r.choice(list(TEXTS))
        if r.random() < 0.08:
            t = "nul"
        return [ev("v", name, t, r.choice(TEXTS[t]))]

    def anything(name, depth):
        x = r.random()
        if depth and x < 0.25:
            return [ev("so", name)] + sum((anything(other(), depth - 1) for _ in range(r.choice([0, 1, 2]))), []) + [ev("eo")]
        if depth and x < 0.4:
            return [ev("sl", name)] + sum((anything("", depth - 1) for _ in range(r.choice([0, 1, 2, 3]))), []) + [ev("el")]
        return scalar(name)

    def obj(sch, depth):
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            x = r.random()
            if x < 0.12 or not sch:
                out += anything(other(), 2)
                continue
            f, t, kids = sch[r.choice(list(sch))]
            nm = spelt(f)
            if kids is not None:
                if r.random() < 0.85:
                    out += [ev("so", nm)] + (obj(kids, depth - 1) if depth else []) + [ev("eo")]
                else:
                    out += anything(nm, 1)
            elif r.random() < 0.3 if f["rep"] else r.random() < 0.05:
                out += [ev("sl", nm)] + sum((scalar("", t) for _ in range(r.choice([0, 1, 2]))), []) + [ev("el")]
            elif r.random() < 0.04:
                out += anything(nm, 1)
            else:
                out += scalar(nm, t)
        return out
    ops = []
    for _ in range(1 if ww else r.choice([1, 1, 2, 3])):
        top = r.choice(["", "", "", "top"])
        if r.random() < (0.85 if prefix or not ww else 1):
            ops += [ev("so", top)] + obj(at, 3) + [ev("eo")]
        else:
            ops += anything(top, 2)
    return {"id": i, "k": "ow", "ps": ps, "binds": as_binds(binds), "wp": wp, "ww": ww, "rep": rep, "ops": ops}


def check_T13(c):
    r = c.rng
    exe = vlib.build_json()
    cfg = write_cfg("MC_Writers", "SPECIFICATION MCSpec\nCONSTANTS MaxEv = %d MaxBinds = 2 Export = TRUE\nINVARIANTS Allowed "
                    "Balanced EachLeaf OpenedOnce NothingLeft BadIff Exported\nCHECK_DEADLOCK FALSE\n" % c.pick(5, 7))
    d = c.design("MC_Writers", cfg)
    S = []
    for x in d.lines:
        ps = sum(([46] * (k > 0) + n for k, n in enumerate(x["pre"])), [])
        ops = [{"a": "ev", **e} for e in x["inp"]]
        S.append({"id": len(S), "k": "ow", "ps": ps, "binds": as_binds(x["binds"]), "wp": int(bool(ps) or len(S) % 2),
                  "ww": 1, "rep": r.choice([0, 1, 1]), "ops": ops})
    some = lambda s, e: len(s["binds"]) + len(s["ps"]) > 0
    c.conform("every small document with up to two bindings", exe, S, "Trace_Writers", ow_events, nontrivial=some)
    S = []
    # Every kind of value: at the end of a path, in an object there; bound, and not.
    for t in TEXTS:
        for v in TEXTS[t]:
            for ps in ("", "p", "p.q"):
                for deep in (0, 1):
                    for bound in (0, 1, 2, 3):
                        if not deep and not ps:
                            continue
                        names = ps.split(".") if ps else []
                        if deep:
                            names = names + ["leaf_name"]
                        p = [{"n": b(n), "j": b(g.mkschema.camel(n)), "rep": bool(bound == 3 and k == len(names) - 1)}
                             for k, n in enumerate(names)]
                        same = v if bound == 1 or t == "nul" else r.choice([x for x in TEXTS[t] if x != v])
                        if t == "byt" and bound != 2:
                            same = base64.b64encode(v.encode()).decode().rstrip(r.choice(["", "="]))
                        bs = [{"p": p, "v": b(same)}] * (0 if not bound else r.choice([1, 2]))
                        val = ev("v", r.choice(["leaf_name", "leafName"]) if deep else "", t, v)
                        for rep in (0, 1):
                            S.append({"id": len(S), "k": "ow", "ps": b(ps), "binds": bs, "wp": 1, "ww": 1, "rep": rep,
                                      "ops": [ev("so"), val, ev("eo")] if deep else [val]})
    for t in ("dbl", "flt"):
        for x in ("0.5", "-0.25", "1", "1.5", "2.25", "-2.125", "-3.5"):
            for y in g.closes(x, t == "flt"):
                S.append({"id": len(S), "k": "ow", "ps": [], "binds": [{"p": [{"n": b("a"), "j": b("a"), "rep": False}], "v": b(y)}],
                          "wp": 0, "ww": 1, "rep": 1, "ops": [ev("so"), ev("v", "a", t, x), ev("eo")]})
    c.conform("every kind of value", exe, S, "Trace_Writers", ow_events, nontrivial=some)
    S = [writers(r, i) for i in range(c.pick(2500, 40000))]
    c.conform("random documents", exe, S, "Trace_Writers", ow_events, nontrivial=some)
    c.rules.append("every document of up to five (seven) events with up to two bindings through prefixes of up to two names; "
                   "every kind of value at every place, bound or not; random documents over random fields, written event by "
                   "event to a PrefixWriter, a RequestWeaver or both; nontrivial: has a prefix or a binding")


# --------------------------------- T14 documents told to a translator event by event
def ev_events(s, obs):
    return ([{"a": "start", **{k: s[k] for k in ("type", "bp", "binds", "rej", "ci", "str", "del")}}]
            + [dict(op, o=o) for op, o in zip(s["ops"], obs)])


def told(r, v, name, exact):
    """The events of a value. exact: only types whose values compare as text."""
    if isinstance(v, dict):
        return [ev("so", name)] + sum((told(r, x, k, exact) for k, x in v.items()), []) + [ev("eo")]
    if isinstance(v, (list, tuple)):
        return [ev("sl", name)] + sum((told(r, x, "", exact) for x in v), []) + [ev("el")]
    if isinstance(v, str):
        return [ev("v", name, "byt" if not exact and r.random() < 0.06 else "str", v)]
    t = v.t
    if t in ("true", "false"):
        return [ev("v", name, "bool", t)]
    if t == "null":
        return [ev("v", name, "nul")]
    ts = []
    if t.lstrip("-").isdigit():
        n = int(t)
        ts = [k for k, lo, hi in (("i32", -2**31, 2**31), ("u32", 0, 2**32), ("i64", -2**63, 2**63), ("u64", 0, 2**64))
              if lo <= n < hi]
        if not exact and abs(n) < 2**53:
            ts += ["dbl"] + ["flt"] * (abs(n) < 2**24)
    else:
        ts = ["dbl"] + ["flt"] * (not exact and t in g.REALS)
    return [ev("v", name, r.choice(ts or ["dbl"]), t)]


def telling(r, i, st=None, p=None):
    st = int(r.random() < 0.6) if st is None else st
    bp = r.choice(["", "", "*"] + BPS)
    bs = some_binds(r, r.choice([0, 0, 1, 2, 3]))
    rej = int(r.random() < 0.5)
    p = p or {"bad": r.choice([0, 0, 0.03]), "unk": r.choice([0, 0.08, 0.3]), "ci": r.choice([0, 0, 1])}
    exact = bool(rej and bs)
    if st:
        evs = [ev("sl")]
        for x in body(r, bp, 1, p):
            evs += told(r, x, "", exact)
        evs.append(ev("el"))
        x = r.random()
        if x < 0.04:        # no list at all
            evs = told(r, body(r, bp, 0, p), "", exact)
            evs = evs if evs[0]["e"] != "sl" else [ev("so")] + evs + [ev("eo")]
        elif x < 0.1:       # an object ends where there is none
            d, at = 0, []
            for k, e in enumerate(evs):
                if d == 1:
                    at.append(k)
                d += {"so": 1, "sl": 1, "eo": -1, "el": -1}.get(e["e"], 0)
            evs.insert(r.choice(at), ev("eo"))
        elif x < 0.12:
            evs.insert(0, ev(r.choice(["eo", "el"])))
    else:
        evs = told(r, body(r, bp, 0, p), "", exact)
    if r.random() < 0.05:
        evs = evs[:r.randint(0, len(evs))]
    ops = []
    eager = r.choice([0, 0.1, 0.5, 1])
    for e in evs:
        ops.append(e)
        while r.random() < eager and len(ops) < 400:
            ops.append({"a": "next"})
            if r.random() < 0.7:
                break
    n = sum(e["e"] == "eo" for e in evs) if st else 0
    ops += [{"a": "next"}] * min(8, 2 + n)
    return {"id": i, "k": "ev", "pool": r.randint(0, 1), "type": "M", "bp": b(bp), "binds": bs, "rej": rej,
            "ci": int(bool(p.get("ci")) or r.random() < 0.1), "str": st, "del": r.randint(0, 1), "ops": ops}


def check_T14(c):
    r = c.rng
    exe = vlib.build_json()
    cfg = write_cfg("MC_Events", "SPECIFICATION MCSpec\nCONSTANTS MaxOps = %d Which = {1,2,3,4,5,6} Export = TRUE\nINVARIANTS "
                    "InOrder Found Sound OnlyFirst Once Exported\nCHECK_DEADLOCK FALSE\n" % c.pick(5, 6))
    confs = [(0, "", 1, [(["s"], "b")]), (1, "*", 1, [(["s"], "b")]), (1, "s", 0, []), (0, "rs", 0, [(["s"], "b")]),
             (1, "rs", 0, [(["rs"], "b")]), (1, "n", 0, [(["n", "a"], "s")])]
    d = c.design("MC_Events", cfg)
    S, known = [], set()
    for x in d.lines:
        key = json.dumps(x)
        if key in known:
            continue
        known.add(key)
        st, bp, rej, bs = confs[x["k"] - 1]
        S.append({"id": len(S), "k": "ev", "pool": len(S) % 2, "type": "M", "bp": b(bp),
                  "binds": [{"p": [b(n) for n in ns], "v": b(v)} for ns, v in bs], "rej": rej, "ci": 0, "str": st,
                  "del": len(S) // 2 % 2, "ops": x["h"]})
    if len(S) > c.pick(14000, 80000):
        S = r.sample(S, c.pick(14000, 80000))
        for i, s in enumerate(S):
            s["id"] = i
    out = lambda s, e: sum(1 for x in e if x["a"] == "next" and x["o"]["got"]) > 0
    c.conform("every short sequence of events", exe, S, "Trace_Events", ev_events, nontrivial=lambda s, e: len(e) > 3)
    S = [telling(r, i) for i in range(c.pick(1500, 25000))]
    c.conform("random documents", exe, S, "Trace_Events", ev_events, nontrivial=out)
    c.rules.append("every sequence of up to five (six) events and polls for six configurations (a sample of them into the "
                   "code); random documents and lists of them, with values of every type, defects, misplaced ends and polls "
                   "anywhere; nontrivial: a message comes out")


# ----------------------------------------------------- T15 the catalog of types
def ty_events(s, obs):
    return ([{"a": "start", **{k: s[k] for k in ("types", "enums", "own")}}] +
            [dict(op, o=o) for op, o in zip(s["ops"], obs)])


PREFIX = "type.googleapis.com/"
OPTIONS = ["proto2.MessageOptions.map_entry", "proto2.MessageOptions.message_set_wire_format",
           "google.protobuf.MessageOptions.map_entry", "google.protobuf.MessageOptions.message_set_wire_format",
           "proto2.MessageOptions.deprecated", "proto2.MessageOptions.map_entr", "proto2.MessageOptions.map_entry2",
           "proto2.FieldOptions.map_entry", "map_entry", "", "xproto2.MessageOptions.map_entry", "deprecated"]


def catalog(r, i):
    def word():
        return ".".join("".join(r.choice("aabcXyz_9") for _ in range(r.choice([1, 1, 2, 3, 8, 30])))
                        for _ in range(r.choice([1, 1, 2, 3])))
    names = sorted({word() for _ in range(r.choice([0, 1, 2, 3, 6, 12, 40]))} | ({""} if r.random() < 0.1 else set()))
    types = [{"n": b(n), "o": [{"n": b(r.choice(OPTIONS) if r.random() < 0.9 else word()), "v": gen.rbytes(r, 0, 6)}
                               for _ in range(r.choice([0, 0, 1, 2, 4]))],
              "f": [b(word()) for _ in range(r.choice([0, 1, 2, 5]))]} for n in names if r.random() < 0.8]
    enums = [{"n": b(n), "v": [b(word()) for _ in range(r.choice([0, 1, 2, 5]))]} for n in sorted({*names, word()}) if r.random() < 0.5]
    r.shuffle(types)
    r.shuffle(enums)
    known = [bytes(x["n"]).decode() for x in types + enums] or ["a"]

    def url():
        n = r.choice(known) if r.random() < 0.9 else word()
        k = r.random()
        if k < 0.65:
            return PREFIX + n
        return r.choice([n, "/" + n, "http://" + PREFIX + n, PREFIX + "/" + n, PREFIX + n + ".", PREFIX + n[:-1], PREFIX[:-1] + n,
                         PREFIX + n + "x", "type.googleapis.com", PREFIX, "", PREFIX.upper() + n, "type.googleapi.com/" + n,
                         PREFIX + n.upper(), " " + PREFIX + n, PREFIX + "x" + n, PREFIX + n + "/", "xtype.googleapis.com/" + n])
    ops = [{"a": r.choice(["type", "type", "enum", "itype", "ienum", "tnull", "enull"]), "u": b(url())}
           for _ in range(r.choice([3, 10, 30]))]
    return {"id": i, "k": "ty", "types": types, "enums": enums, "own": int(r.random() < 0.25), "ops": ops + [{"a": "drop", "u": []}]}


def check_T15(c):
    r = c.rng
    exe = vlib.build_json()
    d = c.design("MC_Types", "MC_Types.cfg")
    S = [{"id": i, "k": "ty", "types": x["types"], "enums": x["enums"], "own": 0,
          "ops": [dict(y, a=y["a"] if k else "i" + y["a"]) for y in x["asked"] for k in (0, 1)] +
                 x["asked"] + [{"a": "drop", "u": []}]}
         for i, x in enumerate(d.lines)]
    if not c.thorough:
        S = r.sample(S, 6000)
    found = lambda s, e: any(x["a"] not in ("start", "drop") and x["o"]["code"] == 0 for x in e)
    c.conform("small catalogs, histories of lookups", exe, S, "Trace_Types", ty_events, nontrivial=found)
    c.conform("random catalogs", exe, [catalog(r, i) for i in range(c.pick(600, 8000))], "Trace_Types", ty_events,
              nontrivial=found)
    c.rules.append("every catalog of up to two message types and two enum types, with options under old and new names, and "
                   "every two lookups out of 20 (a sample of them into the code in the quick tier); random catalogs of up "
                   "to 40 types, urls that nearly match, helpers made from collections and from a resolver; nontrivial: "
                   "something is found")


CHECKS = {k[6:]: v for k, v in list(globals().items()) if k.startswith("check_")}
