#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the notes below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("The specification is checked exhaustively by TLC within the stated bounds; every behaviour it exports is "
        "replayed into the real code, and recorded random sessions are validated by TLC against the same "
        "specification. Assurance: exhaustive within the small bounds, sampled beyond. Trusted: TLC, the harness, "
        "the compiler. ")
TLA = "TLA+ specification checked by TLC; behaviours replayed into the code, recorded traces validated against the specification"
CLAIMED = {
    "R01": "HttpTemplate.tla: the parser against a declarative grammar over every string of 8 bytes up to length 5.",
    "R02": "PathMatcher.tla: trie search against a declarative most-specific-match rule, every table of up to 3 templates with every request of up to 4 segments.",
    "R03": "PathMatcher.tla: every table with repeated keys, several registration orders, with and without failing on duplicates.",
    "R04": "MC_Bindings.tla: every placement of up to two variables in templates of up to 4 segments, against an expansion oracle.",
    "R05": "Percent.tla: every string of 9 bytes up to length 4 in all modes; every escape and byte.",
    "R06": "MC_Query.tla: byte-wise scanner against a declarative reading, every query string of 6 bytes up to length 5.",
    "R07": "MC_Request.tla: every path over 5 bytes up to length 6 against three sets of verbs.",
    "R08": "MC_HttpRule.tla: every rule of up to 3 patterns nested in every way.",
    "R09": "MC_Lookup.tla: every history of up to 3 lookups with all output-argument choices; concurrent lookups under ThreadSanitizer and AddressSanitizer (schedules are sampled, not enumerated).",
    "R10": "TrieNode.tla: every history of up to two insertions and a clone with every short lookup; random tries, clones and drops.",
    "R11": "MC_Instances.tla: product of two readers in every interleaving; several matchers, readers, streams, templates and decoders at a time, interleaved and on threads under AddressSanitizer and ThreadSanitizer (schedules are sampled), each against its own specification.",
    "S01": "MessageReader.tla: all streams of two small frames under every chunking and poll interleaving; random streams; messages of 2^31 bytes and more.",
    "S02": "MessageReader.tla, observing consumption: as S01.",
    "S03": "MessageReader.tla, observing status: as S01, truncated everywhere, all flags.",
    "S04": "MessageStream.tla refined by MC_MessageStream.tla: every call sequence over up to 3 messages of 0 to 2 bytes.",
    "S05": "Response.tla: all streams of up to two frames with every feeding and polling; random messages of every field kind, all print options, long streams, messages up to 300000 bytes (thorough: 20 MB).",
    "S06": "Response.tla: as S05, with flags, truncation anywhere and messages that do not convert (nested too deep).",
    "T01": "Request.tla, Trace_Request: arrays of every element kind in every body field, random chunks and polls.",
    "T02": "Request.tla, Trace_Request: headers of messages of every varint and byte-length boundary up to 2^24 bytes and beyond.",
    "T03": "Weave.tla, Message.tla: body at paths of length 0 to 4, every kind of body.",
    "T04": "MC_Weave.tla: every body object over a small alphabet with every pair of bindings; random bodies and bindings.",
    "T05": "Weave.tla: pairs of body value and bound text of every type, equal, unequal, and at the limits of the types.",
    "T06": "Request.tla: streams of up to several messages with all option combinations.",
    "T07": "MC_Translator.tla: 15 bodies under every chunking (two chunks waiting) and poll interleaving; random bodies cut at every position.",
    "T08": "MC_Json.tla: parser against two other readings of the grammar on every text up to length 6; all short texts and mutated bodies into the code.",
    "T09": "Message.tla: bodies with unknown members of every shape at every place.",
    "T10": "FieldPath.tla: every type graph of up to three types and every path of up to three names; concurrent resolution under ThreadSanitizer (schedules are sampled).",
    "T11": "Gateway.tla: PathMatcher, FieldPath, Request, Weave and Response composed; random services, requests, options and chunkings.",
    "T12": "Request.tla and Response.tla: several translations over shared types, interleaved and on threads under ThreadSanitizer (schedules are sampled), each against its own specification.",
    "T13": "Writers.tla, MC_Writers: every document of up to five events (thorough: seven) with up to two bindings and prefixes of up to two names; every type of value at every place; random documents over random fields, event by event.",
    "T14": "Events.tla, MC_Events: every sequence of up to five (thorough: six) events and polls for six configurations; random documents and lists with values of every type, defects and polls anywhere.",
    "T15": "Types.tla, MC_Types: every catalog of up to two message and two enum types with old and new option names and every two lookups (quick: a sample of them replayed); random catalogs and near-miss urls.",
}
SHIM = (" The JSON half of the library needs internal protobuf headers that are not installed here; it is built against a "
        "stand-in (/verif/shim) over the installed protobuf, which is trusted as well (see DESIGN.md).")
NOT = {}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIMED:
            m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                                "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                                "evidence_file": "evidence/%s.json" % i, "technique": TLA,
                                "level": "model_checking", "level_note": BASE + CLAIMED[i] + (SHIM if i[0] == "T" or i in ("S05", "S06") else "")})
        else:
            m["not_applicable"].append({"property": i, "reason": NOT.get(i, "check not built yet")})
    m["notes"] = ("No hooks in /repo: the harnesses use the public interface only. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
