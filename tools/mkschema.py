#!/usr/bin/env python3
"""Writes spec/Schema.tla, the table of the fields of harness/v.proto."""
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCALARS = "string int32 int64 uint32 uint64 double float bool bytes".split()


def parse():
    text = re.sub(r"//.*", "", open(os.path.join(V, "harness", "v.proto")).read())
    msgs, enums = {}, {}
    for kind, name, body in re.findall(r"(message|enum) (\w+) \{(.*?)\n\}", text, re.S):
        if kind == "enum":
            enums[name] = [(n, int(v)) for n, v in re.findall(r"(\w+) = (\d+);", body)]
        else:
            msgs[name] = [(bool(r), t, n, int(k)) for r, t, n, k in
                          re.findall(r"(repeated )?(\w+) (\w+) = (\d+);", body)]
    return msgs, enums


def camel(n):
    p = n.split("_")
    return p[0] + "".join(x.capitalize() for x in p[1:])


def tla(s):
    return "<<" + ",".join(str(x) for x in s.encode()) + ">>"


def main():
    msgs, enums = parse()
    out = ["------------------------------- MODULE Schema -------------------------------",
           "(* Written by tools/mkschema.py from harness/v.proto: the fields of the        *)",
           "(* messages, by type, in the order of their numbers. k: the kind of the field; *)",
           "(* t: the message type, if it is one; rep: repeated; n, j: its proto name and  *)",
           "(* its JSON name; num: its number.                                             *)",
           "EXTENDS Naturals, Sequences", ""]
    for name, fs in msgs.items():
        rows = []
        for rep, t, n, k in fs:
            kind = t if t in SCALARS else ("enum" if t in enums else "message")
            rows.append('  [n |-> %s, j |-> %s, k |-> "%s", t |-> "%s", rep |-> %s, num |-> %d]  \\* %s' %
                        (tla(n), tla(camel(n)), kind, t if kind == "message" else "",
                         "TRUE" if rep else "FALSE", k, n))
        rows = [r.replace("]  \\*", "],  \\*") for r in rows[:-1]] + rows[-1:]
        out.append("Fields%s == <<\n%s\n  >>" % (name, "\n".join(rows)))
    out.append("Fields(t) == CASE " + " [] ".join('t = "%s" -> Fields%s' % (m, m) for m in msgs))
    for name, vs in enums.items():
        out.append("Enum%s == <<%s>>" % (name, ", ".join("[n |-> %s, v |-> %s]" % (tla(n), tla(str(v)))
                                                         for n, v in vs)))
    out.append("=============================================================================")
    open(os.path.join(V, "spec", "Schema.tla"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
