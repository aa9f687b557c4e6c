"""Generators of JSON bodies, messages and sessions for the JSON harness. What
is generated is input only: what it denotes is for the specification to say."""
import decimal
import json
import re

import mkschema

MSGS, ENUMS = mkschema.parse()
SC = mkschema.SCALARS


def b(s):
    return list(s.encode()) if isinstance(s, str) else list(s)


def fields(t):
    return MSGS[t]


def kind(t):
    return t if t in SC else ("enum" if t in ENUMS else "message")


STRINGS = ["", "a", "x y", "zz", "5", "true", "a/b", "\u00e9", "\u20ac!", "q\"uote", "back\\", "tab\t", "nl\n", "{[,:]}",
           "null", "0", "-1", "a.b"]
INTS = {"int32": ["0", "1", "5", "-1", "2147483647", "-2147483648", "77"],
        "int64": ["0", "1", "5", "-1", "9223372036854775807", "-9223372036854775808", "4294967296", "9007199254740993"],
        "uint32": ["0", "1", "5", "4294967295", "77"],
        "uint64": ["0", "1", "5", "18446744073709551615", "9223372036854775808"]}
BADINTS = {"int32": ["2147483648", "-2147483649", "1.5", "99999999999"],
           "int64": ["9223372036854790000", "-9223372036854790000", "0.5"],
           "uint32": ["-1", "4294967296", "2.5"],
           "uint64": ["-1", "18446744073709570000", "-0.5"]}
REALS = ["0", "1", "-1", "0.5", "2.25", "-3.75", "1000", "2.50", "3.0", "-12.125"]
# Those that only a double tells apart.
DREALS = ["0.5000001", "0.5000002", "2.2500001", "16777216.5", "16777217.5", "-3.7500001", "123456789.125",
          "123456789.25", "0.0001220703125", "0.000122"]
B64 = ["", "YQ==", "YWI=", "YWJj", "-_8=", "+/8=", "YWJjZA", "AAAA", "/w=="]


class Raw:
    """JSON text as it is."""

    def __init__(self, t):
        self.t = t


def scalar(r, k, binding=False):
    """A good value of kind k: Raw, or a str for a JSON string (or a binding)."""
    def maybe(t, p=0.3):
        return t if binding or r.random() < p else Raw(t)
    if k == "string":
        return r.choice(STRINGS)
    if k in INTS:
        return maybe(r.choice(INTS[k]))
    if k in ("double", "float"):
        return maybe(r.choice(DREALS if k == "double" and r.random() < 0.2 else REALS))
    if k == "bool":
        return maybe(r.choice(["true", "false"]))
    if k == "bytes":
        return r.choice(B64)
    if k == "enum":
        x = r.choice(["ZERO", "ONE", "TWO", "SNAKE_CASE", "1", "2"])
        if x in "12":
            return maybe(x)
        return x
    raise ValueError(k)


def closes(t, single=False):
    """Real numbers so close to t that they are the same up to rounding, and
    some just not so close. Only for |t| < 4, where that is clear."""
    x = decimal.Decimal(t)
    if abs(x) >= 4:
        return [t]
    unit = decimal.Decimal(10) ** (-6 if single else -15)
    out = []
    for d in (1, 2, 10, 15, 20, 50, 100, 1000):
        away = d if x >= 0 else -d
        out += [format(x + y * unit, "f") for y in ([away, -away] if x % 1 else [away])]
    return out


def close(r, t, single=False):
    return r.choice(closes(t, single))


def badscalar(r, k, binding=False):
    if k in INTS:
        x = r.choice(BADINTS[k] + ["x", "", "true"])
        if x in ("x", ""):
            return x
        return x if binding or r.random() < 0.3 else Raw(x)
    if k in ("double", "float"):
        return r.choice(["x", "", "1.2.3"] if binding else ["x", "", Raw("true")])
    if k == "bool":
        return r.choice(["maybe", "ja"] if binding else ["maybe", Raw("1"), Raw("0")])
    if k == "bytes":
        return r.choice(["!", "a", "YQ=", "*=*="])
    if k == "enum":
        return r.choice(["THREE", "one", "snake-case", "", "7", "Two"])
    if k == "string":
        return "" if binding else r.choice([Raw("5"), Raw("true"), Raw("1.5"), {}])
    return "" if binding else r.choice([Raw("5"), "s", Raw("true")])


def value(r, t, rep, depth, p):
    """A JSON value for a field of type t. p: options."""
    k = kind(t)
    if rep:
        n = r.choice([0, 1, 1, 2, 3])
        if k == "message" and depth <= 0:
            n = 0
        if r.random() < 0.1 and n and k != "message":
            return value(r, t, False, depth, p)
        return [value(r, t, False, depth - 1, p) for _ in range(n)]
    if k == "message":
        return obj(r, t, depth - 1, p)
    if p.get("ci") and k == "enum" and r.random() < 0.6:
        return r.choice(["one", "Two", "snake-case", "SNAKE-CASE", "snake_case", "ZERO"])
    if r.random() < p.get("bad", 0):
        return badscalar(r, k)
    return scalar(r, k)


def junk(r, depth):
    """Any JSON value, for a field nobody knows."""
    k = r.random()
    if depth <= 0 or k < 0.5:
        return r.choice([Raw("1"), Raw("-2.5"), Raw("true"), Raw("null"), "s", "", {}, []])
    names = ["s", "m", "n", "i32", "rs", "zz", "a", "unknown"]
    if k < 0.75:
        return dict((r.choice(names), junk(r, depth - 1)) for _ in range(r.randint(0, 3)))
    return [junk(r, depth - 1) for _ in range(r.randint(0, 3))]


def obj(r, t, depth, p):
    fs = list(fields(t))
    r.shuffle(fs)
    n = r.choice([0, 1, 1, 2, 2, 3, 4]) if depth < 2 else r.choice([1, 2, 3, 4, 5])
    if p.get("only"):
        pass
    out = {}
    for rep, ty, name, _ in fs:
        if len(out) >= n:
            break
        if kind(ty) == "message" and depth <= 0:
            continue
        nm = mkschema.camel(name) if r.random() < 0.5 else name
        if r.random() < p.get("null", 0.04):
            out[nm] = Raw("null")
        else:
            out[nm] = value(r, ty, rep, depth, p)
    for _ in range(3):
        if r.random() < p.get("unk", 0.08):
            out[r.choice(["unknown", "zz", "S", "i33", "", "sub-msg", "m.s", "@x"])] = junk(r, 3)
    items = list(out.items())
    r.shuffle(items)
    return dict(items)


def quote(r, s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif ord(c) < 32:
            out += {"\n": "\\n", "\t": "\\t"}.get(c, "\\u%04x" % ord(c))
        elif c == "/" and r.random() < 0.5:
            out += "\\/"
        elif r.random() < 0.06:
            out += ("\\u%04x" if r.random() < 0.5 else "\\u%04X") % ord(c)
        else:
            out += c
    return out + '"'


def text(r, v, ws=0.1):
    def w():
        return r.choice([" ", "\n", "\t", "  ", "\r\n"]) if r.random() < ws else ""
    if isinstance(v, Raw):
        t = v.t
    elif isinstance(v, str):
        t = quote(r, v)
    elif isinstance(v, dict):
        t = "{" + w() + ",".join(w() + quote(r, k) + w() + ":" + text(r, x, ws) + w() for k, x in v.items()) + "}"
    elif isinstance(v, tuple):
        t = quote(r, v[0])
    else:
        t = "[" + w() + ",".join(text(r, x, ws) for x in v) + "]"
    return w() + t + w()


def paths(t, depth=2, rep=True):
    """All field paths through singular messages: [(names, type, repeated)]."""
    out = []
    for rp, ty, name, _ in fields(t):
        out.append(([name], ty, rp))
        if kind(ty) == "message" and not rp and depth > 0:
            out += [([name] + p, x, y) for p, x, y in paths(ty, depth - 1)]
    return out


def spell(r, names):
    return [mkschema.camel(n) if r.random() < 0.35 else n for n in names]


def binding(r, t, depth=2, bad=0.0, only=None):
    ps = [p for p in paths(t, depth) if kind(p[1]) != "message" or r.random() < 0.02]
    if only:
        ps = [p for p in ps if only(p)]
    names, ty, rep = r.choice(ps)
    v = badscalar(r, kind(ty), True) if r.random() < bad else \
        ("x" if kind(ty) == "message" else scalar(r, kind(ty), True))
    return names, ty, rep, v


def bind(r, names, v):
    return {"p": [b(n) for n in spell(r, names)], "v": b(v)}


def cuts(r, data, style=None):
    """data in chunks."""
    n = len(data)
    style = style or r.choice(["one", "bytes", "few", "few", "some"])
    if style == "one" or n <= 1:
        return [data] if n else []
    if style == "bytes" and n <= 60:
        return [[x] for x in data]
    k = r.randint(1, 4) if style != "some" else max(1, n // r.randint(3, 12))
    at = sorted(set([0, n] + [r.randint(0, n) for _ in range(k)]))
    return [data[i:j] for i, j in zip(at, at[1:])]


def schedule(r, chunks, polls):
    """Feeding and polling, interleaved; at the end enough polls to empty it."""
    ops = []
    mode = r.choice(["eager", "lazy", "mixed"])
    for c in chunks:
        if mode == "eager":
            ops += [{"a": "feed", "b": c}] + [{"a": "poll"}] * r.choice([1, 1, 2, 3])
        else:
            while mode == "mixed" and r.random() < 0.35:
                ops.append({"a": "poll"})
            ops.append({"a": "feed", "b": c})
    early = r.random() < 0.3
    if early:
        ops.append({"a": "close"})
    ops += [{"a": "poll"}] * r.randint(0, polls)
    if not early:
        ops.append({"a": "close"})
    ops += [{"a": "poll"}] * (polls + 2)
    return ops


def request(r, i, type_="M", bp="", binds=(), rej=0, ci=0, str_=0, del_=None, body="", style=None, polls=None, pool=None):
    data = b(body)
    return {"id": i, "k": "rq", "pool": r.randint(0, 1) if pool is None else pool, "type": type_, "bp": b(bp),
            "binds": list(binds), "rej": rej, "ci": ci, "str": str_,
            "del": r.randint(0, 1) if del_ is None else del_,
            "ops": schedule(r, cuts(r, data, style), polls if polls is not None else (4 if str_ else 1))}


# ------------------------------------------------------------------ messages
CANON = {"bool": ["true"], "enum": ["1", "2", "3"], "double": ["1", "-1", "0.5", "2.25", "-3.75", "-12.125", "1000"]}
CANON["float"] = CANON["double"]


def message(r, t, depth=2, p=None):
    """A message as the harness takes it: [{f: number, v: [{b, m}]}]."""
    out = []
    p = r.choice([0.05, 0.15, 0.3, 0.5]) if p is None else p

    def val(ty):
        k = kind(ty)
        if k == "message":
            return {"b": [], "m": message(r, ty, depth - 1)}
        if k == "string":
            return {"b": b(r.choice([s for s in STRINGS])), "m": []}
        if k == "bytes":
            return {"b": [r.randrange(256) for _ in range(r.randint(1, 7))], "m": []}
        return {"b": b(r.choice(CANON.get(k) or [x for x in INTS[k] if x != "0"])), "m": []}

    def zero(ty):
        return {"b": b({"bool": "false", "string": "", "bytes": ""}.get(kind(ty), "0")), "m": []}
    for rep, ty, name, num in sorted(fields(t), key=lambda f: f[3]):
        if r.random() >= p or (kind(ty) == "message" and depth <= 0):
            continue
        if rep:
            vs = [zero(ty) if r.random() < 0.1 and kind(ty) != "message" else val(ty) for _ in range(r.randint(1, 3))]
        else:
            vs = [val(ty)]
            if kind(ty) in ("string", "bytes") and not vs[0]["b"]:
                continue
        out.append({"f": num, "v": vs})
    return out


def bad_message(r, ty, depth=None):
    """A message that does not become JSON: nested deeper than protobuf's
    converter follows. (Bytes that are no message at all do not do: it reads
    them as an empty or shorter message, or does not stop.)"""
    def varint(n):
        return [n] if n < 128 else [n & 127 | 128] + varint(n >> 7)
    out = []
    for k in range(depth or r.choice([70, 100, 150])):
        out = varint(r.choice([11, 15]) << 3 | 2) + varint(len(out)) + out
    return out if ty == "M" else varint(3 << 3 | 2) + varint(len(out)) + out


def response(r, i, frames=None, str_=None, nd=None, defect=0.0, dflt=0, opts=True, **kw):
    """A session of a response translation. frames: list of frames."""
    str_ = int(r.random() < 0.7) if str_ is None else str_
    nd = int(r.random() < 0.4) if nd is None else nd
    t = r.choice(["M", "M", "N"])
    if frames is None:
        n = r.choice([0, 1, 1, 2, 3, 4]) if str_ else r.choice([1, 1, 1, 2])
        frames = [{"k": "msg", "m": message(r, t), "fl": 0} for _ in range(n)]
    tail, cut = [], 0
    if r.random() < defect:
        k = r.random()
        if k < 0.3:
            frames.insert(r.randint(0, len(frames)), {"k": "raw", "b": bad_message(r, t), "fl": 0})
        elif k < 0.5:
            frames.insert(r.randint(0, len(frames)),
                          {"k": r.choice(["msg"]), "m": message(r, t), "fl": r.choice([1, 2, 128, 255])})
        elif k < 0.75:
            tail = [r.choice([0, 1, 9]) for _ in range(r.randint(1, 4))]
        else:
            cut = r.randint(1, 6)
    s = {"id": i, "k": "rj", "pool": r.randint(0, 1), "type": t, "str": str_, "dflt": dflt, "nd": nd,
         "ws": 0, "prim": 0, "ei": 0, "pn": 0, "frames": frames, "tail": tail}
    if opts and not dflt:
        for o in ("ws", "prim", "ei", "pn"):
            s[o] = int(r.random() < 0.35)
    if dflt:
        s["nd"] = 0
    s.update(kw)
    ops = []
    total = 4000
    mode = r.choice(["one", "few", "bytes", "frames"])
    fed = 0
    while fed < total:
        if mode == "one":
            n = total
        elif mode == "bytes":
            n = 1 if fed < 40 else 400
        else:
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 20, 50, 200])
        ops.append({"a": "feed", "n": n})
        fed += n
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            ops.append({"a": "poll"})
    if cut:     # the end does not arrive
        keep = r.randint(1, 30)
        ops = [{"a": "feed", "n": 1}] * keep
        for _ in range(r.randint(0, 4)):
            ops.insert(r.randint(0, len(ops)), {"a": "poll"})
    if r.random() < 0.9 or defect:
        early = r.random() < 0.3 and not cut
        if early:
            ops = [o for o in ops if o["a"] == "feed"]
        ops.append({"a": "close"})
    ops += [{"a": "poll"}] * (len(frames) + 3)
    s["ops"] = ops
    return s


# --------------------------------------------------------------- end to end
def joined(names):
    return ".".join(names)


def gateway(r, i, bad=0.0, defect=0.0):
    """Templates, a request that uses one of them, and a body."""
    ty = "M"
    str_ = int(r.random() < 0.4)
    ci, rej = int(r.random() < 0.3), int(r.random() < 0.4)
    scal = [p for p in paths(ty, 2) if kind(p[1]) != "message"]
    sing = [p for p in scal if not p[2]]
    regs, want = [], None
    n = r.randint(1, 4)
    pick = r.randrange(n)
    for k in range(n):
        m = r.choice(["GET", "POST", "PUT", "*"])
        segs, path = ["v%d" % k], ["v%d" % k]
        binds = []
        for _ in range(r.choice([0, 1, 1, 2])):
            names, t, _ = r.choice(sing)
            val = scalar(r, kind(t), True)
            names = spell(r, names)
            if any(set([joined(names)]) & set([x]) for x in binds):
                continue
            if "/" in val and r.random() < 0.7:
                segs.append("{%s=**}" % joined(names))
                path.append(val)
                binds.append(joined(names))
                break
            segs.append(r.choice(["{%s}", "{%s=*}"]) % joined(names))
            path.append(val)
            binds.append(joined(names))
        bp = r.choice(["*", "*", "", "n", "sub_msg", "m", "rs", "rm", "s", "i64", "n.a", "d", "ri"])
        t = "/" + "/".join(segs)
        if r.random() < 0.15 and "**" not in t:
            t += ":act"
            verb = ":act"
        else:
            verb = ""
        regs.append({"id": k + 1, "m": b(m), "t": b(t), "b": b(bp)})
        if k == pick:
            want = (m, path, bp, verb)
    m, path, bp, verb = want

    def enc(v, whole=True):
        out = []
        for x in v.encode():
            c = chr(x)
            if c.isalnum() or c in "-_." or (c == "/" and not whole):
                out.append(x if r.random() < 0.9 else None)
                if out[-1] is None:
                    out[-1:] = b("%%%02X" % x)
            else:
                out += b(("%%%02X" if r.random() < 0.5 else "%%%02x") % x)
        return out
    p = []
    for j, g in enumerate(path):
        star = j > 0 and "/" in g
        p += [47] + (enc(g, not (star and r.random() < 0.5)))
    p += b(verb)
    q = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        names, t, _ = r.choice(scal)
        v = scalar(r, kind(t), True) if r.random() >= bad else badscalar(r, kind(t), True)
        nm = joined(spell(r, names))
        if r.random() < 0.03:
            nm += r.choice([".zz", "x", ".s"])
        q += ([38] if q else []) + b(nm) + [61] + enc(v)
    t, rep = ty, False
    for x in bp.split("."):
        if x in ("", "*"):
            continue
        f = [f for f in fields(t) if f[2] == x or mkschema.camel(f[2]) == x][0]
        t, rep = f[1], f[0]
    o = {"bad": bad, "ci": ci}

    def mk():
        return value(r, t, rep, 2, o)
    v = [mk() for _ in range(r.randint(0, 3))] if str_ else mk()
    body = b(text(r, v))
    if r.random() < defect and body:
        body = mutate(r, body, str_)
    if r.random() < 0.1 and not str_ and bp in ("", "*"):
        body = []
    s = {"id": i, "k": "e2e", "pool": r.randint(0, 1), "spec": r.randrange(3), "plus": r.randint(0, 1), "regs": regs,
         "type": ty, "m": b(m if m != "*" else "PATCH"), "p": p, "q": q, "body": body,
         "cuts": sorted(r.randint(0, len(body)) for _ in range(r.choice([0, 1, 2, 5]))),
         "step": r.choice([1, 2, 3, 7, 10000]), "str": str_, "rej": rej, "ci": ci}
    s["nd"] = int(r.random() < 0.3)
    for x in ("ws", "prim", "ei", "pn"):
        s[x] = int(r.random() < 0.3)
    if s["nd"]:
        s["ws"] = 0
    return s


def mutate(r, body, str_=0):
    """A text that is probably no JSON any more. Texts about which the JSON
    libraries of this world do not agree are left out: a comma behind the last
    member, names that occur twice, bytes that are no UTF-8."""
    while True:
        x = list(body)
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < 0.35 and x:
                del x[r.randrange(len(x))]
            elif k < 0.65:
                x.insert(r.randint(0, len(x)), ord(r.choice('{}[],:"0tnx ')))
            elif k < 0.85 and x:
                x = x[:r.randrange(len(x))]
            elif x:
                x += b(r.choice(["}", "]", "0", "{}", ",", "x"]))
        try:
            t = bytes(x).decode()
        except UnicodeDecodeError:
            continue
        if contested(t, str_):
            continue
        return x


def contested(t, free):
    """Whether JSON libraries do not agree about the text. free: how many lists
    may be in one another from the start."""
    return bool(re.search(r",\s*[}\]]", t)) or twice(t) or moot(t) or nested(t, free)


def nested(t, free):
    stack = ""
    for x in re.sub(r'"(?:[^"\\]|\\.)*("|$)', '""', t, flags=re.S):
        if x == "[" and stack[-1:] == "[" and len(stack) > free:
            return True
        if x in "[{":
            stack += x
        elif x in "]}":
            stack = stack[:-1]
    return False


def moot(t):
    """Whether the libraries do not agree about the text for another reason: a
    raw control character in a string, a number in a string that is written
    unusually."""
    for x in re.findall(r'"((?:[^"\\]|\\.)*)', t, re.S):
        if re.search(r"[\x00-\x1f]", x) or (re.search(r"\d", x) and re.match(r"^[\s\d.eE+\-]*$", x)
                                              and not re.match(r"^-?(0|[1-9]\d*)(\.\d+)?$", x)):
            return True
    return False


def twice(t):
    """Whether some object of a JSON text has a name twice; text that is none
    is looked at as if all objects in it were one."""
    class Twice(Exception):
        pass

    def hook(kv):
        ns = [mkschema.camel(k) for k, _ in kv]
        if len(set(ns)) < len(ns):
            raise Twice()
        return dict(kv)
    try:
        json.loads(t, object_pairs_hook=hook)
        return False
    except Twice:
        return True
    except ValueError:
        ns = re.findall(r'"([^"]*)"\s*:', t)
        return len(set(ns)) < len(ns)


# --------------------------------------------------------------- field paths
FNAMES = ["a", "b", "c", "aa", "ab", "foo_bar", "x_y", "z1"]


def typegraph(r):
    n = r.randint(1, 4)
    names = ["T%d" % k for k in range(n)]
    types = []
    for t in names:
        fs = []
        for nm in r.sample(FNAMES, r.randint(1, 6)):
            k = r.choice(["message", "message", "message", "string", "enum", "group"])
            target = r.choice(names + (["Gone"] if r.random() < 0.2 else [])) if k in ("message", "group") else ""
            j = mkschema.camel(nm)
            if r.random() < 0.2:
                j = "j" + nm
            fs.append({"n": b(nm), "j": b(j), "k": k, "t": target, "rep": int(r.random() < 0.2)})
        types.append({"n": t, "f": fs})
    return types


def pathto(r, types):
    """A path that mostly resolves: a list of names."""
    t, out = 0, []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        fs = types[t]["f"]
        f = r.choice([x for x in fs if x["k"] == "message"] or fs) if r.random() < 0.8 else r.choice(fs)
        nm = list(f["n"] if r.random() < 0.6 else f["j"])
        k = r.random()
        if k < 0.15:
            e = []
            for x in nm:
                e += b(r.choice(["%%%02X", "%%%02x"]) % x) if r.random() < 0.6 else [x]
            nm = e
        elif k < 0.2:
            nm = b(r.choice(["zz", "", "A", "%", "%6", "%2e", "a%2Eb", "%25%36%31", "a "]))
        out.append(nm)
        if f["k"] != "message" or not any(x["n"] == f["t"] for x in types):
            if r.random() < 0.7:
                break
        else:
            t = [k for k, x in enumerate(types) if x["n"] == f["t"]][0]
    return out
