-------------------------------- MODULE Types --------------------------------
(* The catalog of types behind a TypeHelper (type_helper.cc). types: message *)
(* types [n, o, f]: name, options [n, v] and fields; enums: [n, v]. Names    *)
(* are distinct within each of the two.                                      *)
EXTENDS Bytes

(* "type.googleapis.com/"                                                    *)
UrlPrefix == <<116,121,112,101,46,103,111,111,103,108,101,97,112,105,115,46,99,111,109,47>>
UrlOf(name) == UrlPrefix \o name

(* Two options go by an older name in some service configurations:           *)
(* proto2.MessageOptions.map_entry and .message_set_wire_format stand for    *)
(* those of google.protobuf.MessageOptions.                                  *)
Proto2 == <<112,114,111,116,111,50,46>>
GoogleProtobuf == <<103,111,111,103,108,101,46,112,114,111,116,111,98,117,102,46>>
MessageOptions == <<77,101,115,115,97,103,101,79,112,116,105,111,110,115,46>>
MapEntry == <<109,97,112,95,101,110,116,114,121>>
MessageSet == <<109,101,115,115,97,103,101,95,115,101,116,95,119,105,114,101,95,102,111,114,109,97,116>>
Current(n) ==
  IF \E x \in {MapEntry, MessageSet} : n = Proto2 \o MessageOptions \o x
  THEN GoogleProtobuf \o SubSeq(n, Len(Proto2) + 1, Len(n))
  ELSE n
AsGiven(t) == [t EXCEPT !.o = [i \in 1..Len(t.o) |-> [t.o[i] EXCEPT !.n = Current(@)]]]

At(xs, url) == {i \in 1..Len(xs) : UrlOf(xs[i].n) = url}
(* What is found at a url: a singleton, or nothing.                          *)
TypeAt(types, url) == {AsGiven(types[i]) : i \in At(types, url)}
EnumAt(enums, url) == {enums[i] : i \in At(enums, url)}
=============================================================================
