------------------------------- MODULE Schema -------------------------------
(* Written by tools/mkschema.py from harness/v.proto: the fields of the        *)
(* messages, by type, in the order of their numbers. k: the kind of the field; *)
(* t: the message type, if it is one; rep: repeated; n, j: its proto name and  *)
(* its JSON name; num: its number.                                             *)
EXTENDS Naturals, Sequences

FieldsM == <<
  [n |-> <<115>>, j |-> <<115>>, k |-> "string", t |-> "", rep |-> FALSE, num |-> 1],  \* s
  [n |-> <<105,51,50>>, j |-> <<105,51,50>>, k |-> "int32", t |-> "", rep |-> FALSE, num |-> 2],  \* i32
  [n |-> <<105,54,52>>, j |-> <<105,54,52>>, k |-> "int64", t |-> "", rep |-> FALSE, num |-> 3],  \* i64
  [n |-> <<117,51,50>>, j |-> <<117,51,50>>, k |-> "uint32", t |-> "", rep |-> FALSE, num |-> 4],  \* u32
  [n |-> <<117,54,52>>, j |-> <<117,54,52>>, k |-> "uint64", t |-> "", rep |-> FALSE, num |-> 5],  \* u64
  [n |-> <<100>>, j |-> <<100>>, k |-> "double", t |-> "", rep |-> FALSE, num |-> 6],  \* d
  [n |-> <<102>>, j |-> <<102>>, k |-> "float", t |-> "", rep |-> FALSE, num |-> 7],  \* f
  [n |-> <<98>>, j |-> <<98>>, k |-> "bool", t |-> "", rep |-> FALSE, num |-> 8],  \* b
  [n |-> <<121>>, j |-> <<121>>, k |-> "bytes", t |-> "", rep |-> FALSE, num |-> 9],  \* y
  [n |-> <<101>>, j |-> <<101>>, k |-> "enum", t |-> "", rep |-> FALSE, num |-> 10],  \* e
  [n |-> <<109>>, j |-> <<109>>, k |-> "message", t |-> "M", rep |-> FALSE, num |-> 11],  \* m
  [n |-> <<110>>, j |-> <<110>>, k |-> "message", t |-> "N", rep |-> FALSE, num |-> 12],  \* n
  [n |-> <<114,115>>, j |-> <<114,115>>, k |-> "string", t |-> "", rep |-> TRUE, num |-> 13],  \* rs
  [n |-> <<114,105>>, j |-> <<114,105>>, k |-> "int64", t |-> "", rep |-> TRUE, num |-> 14],  \* ri
  [n |-> <<114,109>>, j |-> <<114,109>>, k |-> "message", t |-> "M", rep |-> TRUE, num |-> 15],  \* rm
  [n |-> <<108,111,110,103,95,110,97,109,101>>, j |-> <<108,111,110,103,78,97,109,101>>, k |-> "string", t |-> "", rep |-> FALSE, num |-> 16],  \* long_name
  [n |-> <<115,117,98,95,109,115,103>>, j |-> <<115,117,98,77,115,103>>, k |-> "message", t |-> "N", rep |-> FALSE, num |-> 17],  \* sub_msg
  [n |-> <<114,101>>, j |-> <<114,101>>, k |-> "enum", t |-> "", rep |-> TRUE, num |-> 18],  \* re
  [n |-> <<114,110>>, j |-> <<114,110>>, k |-> "message", t |-> "N", rep |-> TRUE, num |-> 19],  \* rn
  [n |-> <<114,98>>, j |-> <<114,98>>, k |-> "bool", t |-> "", rep |-> TRUE, num |-> 20]  \* rb
  >>
FieldsN == <<
  [n |-> <<97>>, j |-> <<97>>, k |-> "string", t |-> "", rep |-> FALSE, num |-> 1],  \* a
  [n |-> <<99>>, j |-> <<99>>, k |-> "int64", t |-> "", rep |-> FALSE, num |-> 2],  \* c
  [n |-> <<109>>, j |-> <<109>>, k |-> "message", t |-> "M", rep |-> FALSE, num |-> 3],  \* m
  [n |-> <<114>>, j |-> <<114>>, k |-> "string", t |-> "", rep |-> TRUE, num |-> 4],  \* r
  [n |-> <<108,111,110,103,95,110,97,109,101>>, j |-> <<108,111,110,103,78,97,109,101>>, k |-> "string", t |-> "", rep |-> FALSE, num |-> 5],  \* long_name
  [n |-> <<100>>, j |-> <<100>>, k |-> "double", t |-> "", rep |-> FALSE, num |-> 6]  \* d
  >>
Fields(t) == CASE t = "M" -> FieldsM [] t = "N" -> FieldsN
EnumE == <<[n |-> <<90,69,82,79>>, v |-> <<48>>], [n |-> <<79,78,69>>, v |-> <<49>>], [n |-> <<84,87,79>>, v |-> <<50>>], [n |-> <<83,78,65,75,69,95,67,65,83,69>>, v |-> <<51>>]>>
=============================================================================
