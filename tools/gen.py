"""Random inputs. Wide on purpose: long and short, all byte values, near misses."""


def b(s):
    return list(s.encode("latin-1")) if isinstance(s, str) else list(s)


WORDS = ["a", "b", "c", "ab", "abc", "v1", "shelves", "books", "x.y", "A", "z-9", "_", "~", "%41", "%2F",
         "a=b", "a{b", "w*", "[x]", "@", "a b", "\xe9", "\xff", "%", "..", "."]
SPECIAL = "/*{}=.:?%+&"


def rbyte(r):
    k = r.random()
    if k < 0.3:
        return ord(r.choice(SPECIAL))
    if k < 0.8:
        return ord(r.choice("abcxyz019AF"))
    return r.randrange(256)


def rbytes(r, lo, hi):
    return [rbyte(r) for _ in range(r.randint(lo, hi))]


def literal(r, words=WORDS):
    k = r.random()
    if k < 0.75:
        return b(r.choice(words))
    n = r.choice([1, 2, 3, 8, 40, 300]) if k > 0.97 else r.randint(1, 5)
    out = []
    while len(out) < n:
        c = rbyte(r)
        if c in (47, 58, 125):
            continue
        if not out and c in (42, 123):
            continue
        out.append(c)
    return out


def ident(r):
    if r.random() < 0.85:
        return b(r.choice(["x", "y", "z", "id", "name", "book", "shelf_id", "aA1", "f"]))
    out = []
    n = r.choice([1, 2, 30])
    while len(out) < n:
        c = rbyte(r)
        if c not in (46, 125, 61):
            out.append(c)
    return out


def fieldpath(r):
    n = r.choice([1, 1, 1, 2, 3, 6]) if r.random() < 0.97 else r.choice([9, 17, 40])
    out = []
    for i in range(n):
        out += ([46] if i else []) + ident(r)
    return out


def template(r, words=WORDS, nseg=None, verbs=None, pvar=0.4, pwild=0.35, nvars=None):
    """A well-formed template as bytes."""
    n = nseg if nseg is not None else r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
    if n == 0:
        return [47]
    segs = []
    wild = False
    for _ in range(n):
        k = r.random()
        if not wild and k < pwild:
            if r.random() < 0.45:
                segs.append(b("**"))
                wild = True
            else:
                segs.append(b("*"))
        else:
            segs.append(literal(r, words))
    out = []
    i = 0
    while i < n:
        out.append(47)
        if r.random() < pvar:
            k = r.choice([1, 1, 1, 2, 3, n])
            k = min(k, n - i)
            body = []
            for j in range(k):
                body += ([47] if j else []) + segs[i + j]
            if k == 1 and segs[i] == [42] and r.random() < 0.6:
                out += [123] + fieldpath(r) + [125]
            else:
                out += [123] + fieldpath(r) + [61] + body + [125]
            i += k
        else:
            out += segs[i]
            i += 1
    if verbs is None:
        if r.random() < 0.25:
            out += [58] + literal(r, ["verb", "v", "cancel", "*", "{x", "a=b", "\xff", "watch"])
    elif verbs:
        v = r.choice(verbs)
        if v:
            out += [58] + b(v)
    return out


def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        if k == 0 and t:
            del t[r.randrange(len(t))]
        elif k == 1:
            t.insert(r.randint(0, len(t)), rbyte(r))
        elif k == 2 and t:
            t[r.randrange(len(t))] = rbyte(r)
        elif k == 3 and t:
            i, j = r.randrange(len(t)), r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 4 and len(t) > 1:
            i = r.randrange(len(t))
            j = r.randint(i, min(len(t), i + 4))
            t[r.randrange(len(t)):0] = t[i:j]
    return t


def segs_of(t):
    """The flat segments and the verb of a template generated above (not a
    judge: only used to build requests that are likely to match)."""
    s = "".join(map(chr, t))
    verb = ""
    depth = 0
    out, cur = [], ""
    i = 1
    while i < len(s):
        c = s[i]
        if depth == 0 and c == "{" and cur == "":
            depth = 1
            j = i + 1
            while j < len(s) and s[j] not in "=}":
                j += 1
            if j < len(s) and s[j] == "=":
                i = j
            else:
                cur = "*"
                i = j - 1
        elif depth == 1 and c == "}":
            depth = 0
        elif c == "/":
            out.append(cur)
            cur = ""
        elif c == ":" and depth == 0:
            verb = s[i + 1:]
            break
        else:
            cur += c
        i += 1
    if cur or out:
        out.append(cur)
    return out, verb


PARTS = ["a", "b", "c", "x", "", "foo", "*", "**", "%2F", "a%2Fb", "%41", "a%20b", "+", "a+b", "{x}", "a=b", ".", "%",
         "%zz", "v1", "%2f%3A%25", "\xff", "&", "a%2", "%2a", "x:y", "shelves", "%00", "~"]


def part(r):
    k = r.random()
    if k < 0.75:
        return b(r.choice(PARTS))
    n = r.choice([1, 3, 10, 10, 200]) if k > 0.98 else r.randint(0, 6)
    out = []
    for _ in range(n):
        if r.random() < 0.3:
            out += b("%%%02x" % r.randrange(256)) if r.random() < 0.5 else b("%%%02X" % r.randrange(256))
        else:
            c = rbyte(r)
            out.append(c if c not in (47, 63) else 97)
    return out


def request_for(r, t, verbs=(), noise=0.25):
    """A path that is likely to match template t."""
    segs, verb = segs_of(t)
    parts = []
    for s in segs:
        if s == "**":
            for _ in range(r.choice([0, 1, 1, 2, 3, 7])):
                parts.append(part(r))
        elif s == "*":
            parts.append(part(r))
        else:
            parts.append(b(s))
    if r.random() < noise and parts:
        k = r.randrange(4)
        i = r.randrange(len(parts))
        if k == 0:
            parts[i] = part(r)
        elif k == 1:
            del parts[i]
        elif k == 2:
            parts.insert(i, part(r))
        else:
            parts.append([])
    out = []
    for p in parts:
        out += [47] + p
    if not out:
        out = [47]
    if r.random() < 0.06:
        out += [47] * r.choice([1, 1, 2, 5])
    v = verb
    if r.random() < 0.25:
        v = r.choice(list(verbs) + ["", "verb", "nope"])
    if v:
        out += [58] + b(v)
    if r.random() < 0.08:
        out += [63] + rbytes(r, 0, 8)
    return out


def query(r, sys=()):
    if r.random() < 0.25:
        return []
    out = []
    for i in range(r.choice([1, 1, 2, 3, 5, 12])):
        if i:
            out.append(38)
        k = r.random()
        if k < 0.1:
            continue
        if k < 0.2:
            out += rbytes(r, 0, 6)
            continue
        if sys and r.random() < 0.3:
            out += list(r.choice(sys))
        else:
            n = r.choice([1, 1, 2, 4])
            name = []
            for j in range(n):
                name += ([46] if j else []) + (b(r.choice(["x", "y", "book", "id", "name", "api_key", "", "a+b", "%41"])))
            out += name
        if r.random() < 0.9:
            out.append(61)
            out += [c for c in part(r) if c != 38] if r.random() < 0.8 else rbytes(r, 0, 20)
    return out


METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "get", "*", "", "GETverb", "GET:verb", "LONGMETHODNAME"]
