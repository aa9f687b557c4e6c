#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": m, "where": w} for a, m, w in (state or [])],
                          "mechanism": [{"name": a, "where": w} for a, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
HT = "src/http_template.cc"; PM = "src/include/grpc_transcoding/path_matcher.h"; PN = "src/path_matcher_node.cc"
PE = "src/include/grpc_transcoding/percent_encoding.h"; PU = "src/include/grpc_transcoding/path_matcher_utility.h"
MR = "src/message_reader.cc"; MS = "src/message_stream.cc"; RJ = "src/response_to_json_translator.cc"
RW = "src/request_weaver.cc"; PW = "src/prefix_writer.cc"; RS = "src/request_stream_translator.cc"
RM = "src/request_message_translator.cc"; JR = "src/json_request_translator.cc"; TH = "src/type_helper.cc"
SL = "src/status_error_listener.cc"

p("R01", "A URL template is accepted exactly if it is in the documented grammar",
  "A URL template is accepted if and only if it is a sentence of the documented HTTP template grammar (variables do not nest, only literal segments follow a \"**\", nothing is left over behind the verb, no segment, identifier or verb is empty). An accepted template yields exactly the segments in order, the custom verb, and for every variable its field path and the run of segments it stands for, counted from the start of the path, or from its end for what lies at or behind a \"**\". A rejected template can not be registered and leaves the routing table as it was.",
  ["inputs"], "every byte string as a template",
  "Unit tests parse some sixty hand-picked templates; the language is infinite, and a parser that accepts one wrong string or shifts one variable range passes them.",
  [HT, "src/include/grpc_transcoding/http_template.h"],
  [("recursive-descent parser", HT + " class Parser"), ("order of wildcards", HT + " ValidateParts"), ("variable ranges", HT + " PostProcessVariables")],
  [("segments, verb, variables", "the parsed template", HT)], ["HttpTemplate::Parse", "PathMatcherBuilder::Register return value"])
p("R02", "A request is routed to the most specific template that matches, if any",
  "A lookup returns a registered method whose template matches the whole request path and verb and whose HTTP method is the request's or the wildcard \"*\", and returns one whenever such a template is registered. Among the templates that match, segment by segment from the left a literal is preferred to \"*\" and \"*\" to \"**\", an exact end is preferred to a \"**\" that stands for nothing, behind the same \"**\" the longer constant suffix is preferred, and for the same template the exact HTTP method is preferred to \"*\". \"*\" stands for exactly one segment and \"**\" for any number (at least one where more segments follow it), whatever bytes the request segments hold.",
  ["inputs", "configurations"], "every set of registered templates, every HTTP method and path",
  "Precedence and backtracking depend on which templates are registered together; tests sample a few dozen sets and requests out of an unbounded product.",
  [PN, PM], [("depth-first trie search", PN + " LookupPath"), ("trie insertion", PN + " InsertTemplate"), ("method and verb key", PN + " GetResultForHttpMethod")],
  [("trie", "templates by segment", PN)], ["PathMatcher::Lookup"])
p("R03", "Duplicate registrations never resolve; registration order is irrelevant",
  "Once the same segments, HTTP method and custom verb have been registered more than once, no lookup resolves to any of these registrations, and requests they would win are answered with no method rather than with another template. A duplicate registration reports failure exactly when failing on duplicates has been switched on before it, and success otherwise. Apart from that, the order in which templates are registered does not change the answer to any lookup.",
  ["histories", "configurations"], "every sequence of registrations and option changes, every request afterwards",
  "Tests register two or three templates in one order; the property is about all orders and interleavings of distinct, duplicate and rejected registrations.",
  [PN, PM], [("duplicate marking", PN + " InsertTemplate"), ("registration result", PM + " InsertPathToNode"), ("refusal on lookup", PM + " Lookup")],
  [("is_multiple", "key registered more than once", PN)], ["PathMatcherBuilder::Register", "PathMatcher::Lookup"])
p("R04", "Path variables capture exactly the segments they stand for",
  "When a lookup resolves to a template, the bindings begin with one binding per variable of the template, in order, with the variable's field path and with the request segments the variable stands for, joined by \"/\". A variable that stands for one fixed segment is fully percent-decoded; one that stands for several segments or holds a \"**\" is decoded segment by segment in the configured mode. Nothing else of the path (verb, query string, trailing slashes) gets into a binding.",
  ["inputs", "configurations"], "every template with variables, every matching request path, every decoding mode",
  "Variables in front of, around and behind a \"**\" take positions from either end of a path of any length; tests use a handful of shapes and lengths.",
  [PM, HT], [("binding extraction", PM + " ExtractBindingsFromPath"), ("relative positions", HT + " PostProcessVariables")],
  [], ["variable_bindings output of PathMatcher::Lookup"])
p("R05", "Percent-decoding decodes exactly what the mode allows and nothing else",
  "Decoding replaces every well-formed escape (a '%' and two hex digits of either case) by the byte it denotes, except that the default mode keeps escapes of the RFC 6570 reserved characters and the slash-preserving mode keeps escapes of '/'; malformed escapes and all other bytes stay as they are, and the result is never decoded twice. '+' becomes a space only where that is asked for. A string is reported as escaped exactly if decoding replaces something in it.",
  ["inputs"], "every byte string in every mode",
  "The tests decode a few strings per mode; one wrongly classified byte out of 256, or an error at the end of the string, goes unnoticed.",
  [PE], [("escape recognition", PE + " GetEscapedChar"), ("reserved set", PE + " IsReservedChar"), ("scan", PE + " UrlUnescapeString")],
  [], ["UrlUnescapeString", "IsUrlEscapedString", "PathMatcher::Lookup bindings"])
p("R06", "Query parameters become bindings faithfully",
  "Behind the path variables, a successful lookup appends one binding per query parameter of the form name=value with a nonempty name, in the order of the query string: the field path is the name split at dots, undecoded, and the value is all that follows the first '=', fully percent-decoded, with '+' as space only if that option is set. Parameters whose name is one of the system parameters of the resolved method, and parameters without a name or without '=', are left out. Repeated names give repeated bindings.",
  ["inputs", "configurations"], "every query string, set of system parameters and option",
  "Query strings are arbitrary client input; tests use well-formed ones.",
  [PM], [("query extraction", PM + " ExtractBindingsFromQueryParameters")], [], ["variable_bindings output of PathMatcher::Lookup"])
p("R07", "The custom verb is split off the path exactly when it is one",
  "The part of the request path behind the last ':' is taken as custom verb if and only if that ':' lies behind the last '/' and the verb is registered in some template, or matching unregistered verbs is switched on; the verb must then equal the template's verb, and a request without a verb only matches templates without one. Otherwise the ':' is an ordinary byte of the last segment. The query string behind the first '?' is never part of the path, and trailing slashes are ignored while empty segments inside the path count as segments.",
  ["inputs", "configurations"], "every path and every set of registered verbs, with and without the option",
  "Where ':' '/' and '?' meet, correctness depends on positions and on the set of registered verbs; tests combine few of them.",
  [PM], [("request splitting", PM + " ExtractRequestParts"), ("registered verbs", PM + " Register")], [("custom_verbs", "verbs of registered templates", PM)], ["PathMatcher::Lookup"])
p("R08", "An HTTP rule registers exactly its patterns",
  "Registering an HTTP rule registers its own pattern under the HTTP method the pattern kind names (for a custom pattern, the given kind), with the rule's body field path and the given system parameters, and then every additional binding, recursively and in order, each with its own pattern and body, all for the same method. The result is true exactly if every registration succeeded, and nothing is registered behind the first failure. A rule without a pattern registers only its additional bindings.",
  ["inputs"], "every HTTP rule, of any nesting and any pattern kinds",
  "Tests register a few rules with at most one level of additional bindings.",
  [PU, PM], [("pattern dispatch and recursion", PU + " RegisterByHttpRule")], [], ["RegisterByHttpRule", "PathMatcher::Lookup"])
p("R09", "Lookups are pure: repeatable, thread-safe, silent on failure",
  "A built matcher answers the same request always in the same way, whatever other lookups have been made or run at the same time on other threads, without data races. A lookup that finds no method leaves the caller's binding list and body field path untouched; a successful one replaces the binding list and sets the body field path to the registered one. Both lookup functions agree on the method, and omitted output arguments change nothing.",
  ["schedules", "histories", "inputs"], "every interleaving of lookups on any number of threads, every history of lookups",
  "The tests are single-threaded, look each request up once and never compare the outputs of a failed lookup with what they were.",
  [PM, PN], [("immutable trie", PN + " LookupPath"), ("output assignment", PM + " Lookup")], [], ["PathMatcher::Lookup"])
p("R10", "A trie answers with what was inserted last, and its clones live on their own",
  "Inserting a path for an HTTP method into a routing trie reports whether it was not there yet for that method; if it was, the new datum replaces the old one and is marked as registered more than once exactly if that was asked for now or before. A lookup gives the datum of the most specific path that matches (a literal before the single parameter before \"*\" before \"**\"; the exact method before \"*\") with that mark, and nothing if none matches. A clone of a trie answers every lookup as the original did at that moment, and neither later insertions into one nor the destruction of one changes the other.",
  ["inputs", "histories"], "every history of insertions, clones and destructions, every lookup after each",
  "Tests never clone a trie, never insert without marking duplicates and never use the single parameter.",
  [PN, "src/include/grpc_transcoding/path_matcher_node.h"], [("insertion", PN + " InsertTemplate"), ("deep copy", PN + " Clone"), ("search", PN + " LookupPath")], [], ["PathMatcherNode::InsertPath", "PathMatcherNode::LookupPath", "PathMatcherNode::Clone"])
p("R11", "Matchers, readers and stream views do not influence one another",
  "Each path matcher, template, percent-decoding call, frame reader and message stream behaves as if it were the only one in the process: what it answers, consumes and reports depends on its own configuration, its own input and the calls made on it, and not on what other instances hold, have been asked before, or are being asked at the same time. This holds for every interleaving of calls on different instances in one thread, and for different instances used by different threads at a time, without data races.",
  ["histories", "schedules"], "every number of instances, every interleaving of calls on them, on one or on several threads",
  "Tests use one instance at a time, each on a fresh state; a buffer, cache or option that is shared between instances or between threads by mistake never shows.",
  [PM, PN, HT, PE, MR, MS], [("state kept in members only", "src/include/grpc_transcoding/message_reader.h"), ("state kept in members only", "src/message_stream.cc"), ("state kept in members only", PM)],
  [("members", "all state of an instance", "src/include/grpc_transcoding/message_reader.h")], ["PathMatcher::Lookup", "MessageReader::NextMessageAndGrpcFrame", "MessageStream::CreateInputStream", "HttpTemplate::Parse", "UrlUnescapeString"])
p("S01", "Every gRPC frame is extracted, whole and in order, however input arrives",
  "From a stream of length-prefixed gRPC frames the reader yields exactly the messages of the frames, in order, each with exactly its bytes (an empty message for an empty frame), and with the frame header and size where asked for. This holds for every division of the stream into chunks, every interleaving of arrivals and polls, and every message size a header can express. A poll that finds no complete message yields none and loses nothing; the reader is finished exactly when the input is finished and used up, or an error has occurred.",
  ["inputs", "schedules"], "every stream of frames, every chunking, every interleaving of feeding, polling and reading",
  "Tests use small messages, few chunkings and poll at convenient times.",
  [MR, "src/include/grpc_transcoding/message_reader.h"], [("delimiter and body availability", MR + " NextMessage"), ("size decoding", MR + " DelimiterToSize"), ("delimiter read", MR + " ReadStream")],
  [("have_current_message_size_", "header read, body not yet handed out", MR)], ["MessageReader::NextMessage", "NextMessageAndGrpcFrame", "Finished"])
p("S02", "The frame reader never consumes what it can not yet hand out",
  "The reader takes nothing from its input before a whole frame header is available, then takes exactly the five header bytes, and none of the body; the body is consumed only by whoever reads the returned message, which ends exactly at the end of the frame. It never takes a byte of the following frame, and it never asks the input for more than is available, so it never blocks or sees a premature end.",
  ["inputs", "schedules"], "every stream, chunking and interleaving of arrivals and polls",
  "Tests look at the messages that come out, not at how far the input has been consumed after each poll.",
  [MR], [("availability checks", MR + " NextMessage"), ("limited view", MR + " LimitingInputStream")], [], ["BytesAvailable of the input after each call"])
p("S03", "Truncated and unsupported frames are reported, once and for all",
  "If the input ends inside a frame header or inside a message body, or a header has a nonzero flag byte, the reader reports an internal error saying which, no message of that frame or a later one is ever yielded, and the reader stays finished with that error for good. All frames before the defect are yielded first. Input that is merely incomplete, with more still to come, is never an error, and complete input never is one either. If the source does not deliver the bytes of a header that it has announced, the reader is finished as well and yields nothing more.",
  ["inputs", "schedules", "fault_sequences"], "every truncation point and every flag byte, every chunking and poll pattern",
  "Tests truncate at a few points; the property speaks of every cut, flag value and moment of the end of input.",
  [MR], [("status", MR + " NextMessage")], [("status_", "sticky error", MR)], ["MessageReader::Status", "Finished"])
p("S04", "The byte-stream view of a message stream is its concatenation",
  "Read through the byte-stream interface, a message stream yields the concatenation of its messages, every byte once and in order, for every pattern of next and back-up calls within the interface's contract; backed-up bytes are yielded again and empty messages are skipped. A call reports end of data only if the source has finished and everything has been read; with nothing available yet it reports success with no bytes. The number of bytes available is positive exactly when some byte can be read at once, and is never more than can be read.",
  ["schedules", "histories"], "every sequence of messages, arrivals, next, back-up and size queries",
  "Tests follow two or three fixed call sequences; an off-by-one in back-up, or a lost message on a size query, needs a particular sequence.",
  [MS], [("position in the current message", MS + " Next, BackUp"), ("fetch on demand", MS + " ReadNextMessage")], [("message_, position_", "current message and how much of it is read", MS)], ["TranscoderInputStream of CreateInputStream"])
p("S05", "Responses are framed as one JSON document, array or line per message",
  "A unary response is exactly one JSON document. A streaming response is one JSON array, opened before the first message, with one comma between messages, closed exactly once when the input ends, and \"[]\" if there was no message; in newline-delimited mode it is each document followed by one newline and nothing else. This holds for every number of messages, chunking and poll pattern, and each output element is the JSON of the corresponding message, printed as the options ask (field names, enum values, default values, white space).",
  ["inputs", "schedules", "configurations"], "every sequence of messages, chunking, poll pattern and mode",
  "Tests translate a few fixed messages; the framing depends on the history of polls and on the end of input arriving at any moment.",
  [RJ], [("framing", RJ + " TranslateMessage"), ("end of stream", RJ + " NextMessage")], [("first_, finished_", "array opened; all done", RJ)], ["ResponseToJsonTranslator::NextMessage"])
p("S06", "A response error ends the translation for good",
  "If the response stream is malformed or truncated, or a message can not be translated to JSON, the translator reports a non-OK status, outputs nothing for that message or any later one, and in particular does not close the array, and stays finished with that status for good. Everything before the defect has been output. A response without defect never gives an error.",
  ["inputs", "fault_sequences", "schedules"], "every defect at every position of the stream, every chunking and poll pattern",
  "Tests feed one or two malformed streams and look at the first failing call only.",
  [RJ, MR], [("status propagation", RJ + " NextMessage")], [("status_", "error", RJ)], ["Status", "Finished", "NextMessage"])
p("T01", "A streaming request gives one message per array element, in order",
  "The JSON body of a streaming request must be an array; each of its elements becomes exactly one request message, in order, whatever the element is (object, array or scalar) as long as it can stand for the message at the body field. A message is available as soon as its element is complete, before the rest of the array has arrived. When the array is closed and all messages have been taken the request is finished, and nothing follows.",
  ["inputs", "schedules"], "every array, nesting, chunking and poll pattern",
  "Tests stream a few arrays of similar objects.",
  [RS, JR], [("depth counting", RS + " StartObject, EndObject, StartList, EndList, RenderData"), ("message queue", RS + " EndMessageTranslator")], [("depth_", "nesting depth", RS), ("messages_", "translated messages", RS)], ["JsonRequestTranslator::Output"])
p("T02", "Output frames carry the exact message size",
  "With delimiters switched on, every request message is preceded by a five-byte gRPC header with a zero flag and the big-endian length of exactly that message; with delimiters switched off, nothing precedes it. Reading the output back as a gRPC frame stream therefore gives the same messages. This holds for empty and for large messages and for every message of a stream.",
  ["inputs", "configurations"], "every message, size and mode",
  "Tests check the header of small messages, where the upper length bytes are all zero.",
  [RM], [("delimiter reservation and writing", RM + " WriteDelimiter, ReserveDelimiterSpace")], [], ["output messages"])
p("T03", "The body is put at the body field path, and nowhere else",
  "If the rule names a body field, the whole JSON body (object, array or scalar) becomes the value of that field, at the end of the dotted path, with every message on the way created once and closed again; with an empty path or \"*\" the body is the whole message. In a streaming request this applies to every element. Values inside the body are passed on unchanged and in order.",
  ["inputs", "configurations"], "every body and every field path of any length",
  "Tests use one or two paths and bodies.",
  [PW, RM], [("prefix opening and closing", PW + " StartPrefix, EndPrefix"), ("pipeline", RM + " RequestMessageTranslator")], [("non_actionable_depth_", "nesting depth", PW)], ["ObjectWriter events behind PrefixWriter", "output messages"])
p("T04", "Every URL binding ends up in the message at its field path, once",
  "Every variable binding is written to the field its path names, converted to the field's type, also if the body does not contain the messages on the way (they are then created) or already contains them (they are then extended). Values for a repeated field all arrive, those of the bindings in their order and those of the body in theirs; for a singular field that the body sets too, under its JSON name or its proto name, the body's value stands. The rest of the body passes unchanged, fields of the same name elsewhere in the message are not touched, and a binding without a field path changes nothing.",
  ["inputs", "configurations"], "every set of bindings, every body",
  "How bindings and body overlap (nesting, lists, repeated fields, equal names at different depths) multiplies; tests sample a few overlaps.",
  [RW], [("binding tree", RW + " Bind, WeaveTree"), ("matching", RW + " StartObject, CollisionCheck")], [("current_, non_actionable_depth_", "where in the binding tree the body stands", RW)], ["ObjectWriter events behind RequestWeaver", "output messages"])
p("T05", "Conflicts between URL and body are reported exactly when asked for",
  "If reporting of conflicts is switched on and the body sets a singular scalar field that a URL binding sets too, the request is rejected as an invalid argument if and only if the two values differ as values of the body's type (real numbers: by more than rounding), or the bound text can not be converted to it. Equal values, repeated fields, and requests with reporting switched off are never rejected for that reason. In a streaming request this holds for the message that carries the bindings.",
  ["inputs", "configurations"], "every pair of a body value and a bound text, of every type and magnitude",
  "Tests compare a few small values per type; equality over wide, negative or fractional values, and streaming requests, are not sampled.",
  [RW, RS], [("comparison", RW + " isEqual"), ("collision check", RW + " CollisionCheck"), ("options per message", RS + " StartMessageTranslator")], [], ["RequestWeaver status", "JsonRequestTranslator status"])
p("T06", "In a streaming request the bindings go into the first message only",
  "Of a streaming request, the first message gets every URL binding and no later message gets any; all other request options (body field path, conflict reporting, case-insensitive enum values) apply to every message alike. A stream without elements gives no message.",
  ["inputs", "histories"], "every number of messages and every set of bindings and options",
  "Tests look at streams of few messages with one option set at a time.",
  [RS], [("options per message", RS + " StartMessageTranslator")], [("request_info_", "bindings not yet used", RS)], ["output messages"])
p("T07", "Translating a request does not depend on chunking or polling",
  "For a well-formed body the messages, their bytes and the final status are the same for every division into chunks and every interleaving of arrivals and polls; for a malformed one the status is, and the messages handed out are a beginning of those in front of the defect. A poll without enough input yields nothing and loses nothing, no more input is taken than needed for the next message (so what follows the chunk in which a unary body ends is not looked at), and a body without a single byte counts as the empty object. Input that is not yet finished is never reported as an error unless no continuation can make it a well-formed request.",
  ["inputs", "schedules"], "every body, chunking and interleaving of arrivals and polls",
  "Tests cut bodies at a sample of positions and poll in one pattern.",
  [JR], [("on-demand translation", JR + " LazyRequestTranslator")], [("seen_input_, status_", "any input yet; error", JR)], ["JsonRequestTranslator::Output"])
p("T08", "Malformed requests are rejected as invalid argument, for good",
  "A body that is not valid JSON, a streaming body that is not an array, a body whose values do not fit the fields, or a non-streaming body that is not a message, ends in an invalid-argument status; the stream is then finished for good and no further message is handed out. Messages handed out before the defect was reached stand, and a well-formed request never gives an error.",
  ["inputs", "fault_sequences", "schedules"], "every malformed body, every position of the defect, every chunking",
  "Tests feed a few malformed bodies and check the status once.",
  [JR, RS, SL], [("status checks", JR + " CheckParsingStatus"), ("shape errors", RS + " StartObject, RenderData"), ("conversion errors", SL)], [("status_", "error", JR)], ["Status", "Finished", "NextMessage"])
p("T09", "Unknown fields in a request are ignored",
  "Fields of the JSON body that the message type does not have, with values of any shape and at any depth, do not make the translation fail and leave all other fields, messages and bindings as they would be without them.",
  ["inputs"], "every body, with unknown members of any shape at any place",
  "Tests add a single unknown scalar.",
  [RM], [("writer options", RM + " GetProtoWriterOptions")], [], ["output messages"])
p("T10", "A dotted field path resolves to exactly the fields it names",
  "A field path resolves, name by name from the given type, to the field with that proto name or JSON name, also if the name is percent-encoded; empty names in the dotted form are skipped. A name that is not found, a non-last field that is not a message, or a type that can not be found gives invalid argument and leaves the output untouched. Resolution gives the same result when called from several threads at a time, without data races on the type information.",
  ["inputs", "schedules"], "every type graph, every path, every interleaving of resolutions",
  "Tests resolve about a dozen paths on one thread.",
  [TH], [("resolution", TH + " ResolveFieldPath, FindField"), ("locking", TH + " LockedTypeInfo")], [], ["TypeHelper::ResolveFieldPath", "TypeHelper::Info"])
p("T11", "From HTTP request to JSON response nothing is lost, added or reordered",
  "For a request that is well formed, routing, binding, body placement and translation together give exactly the messages that the template, path, query and body denote, and translating the frames of such messages back gives the JSON documents they denote, as one stream. This holds for every combination of options and every chunking at each stage.",
  ["inputs", "configurations", "schedules"], "every route, request, and message stream, through all stages together",
  "Tests exercise the stages one by one; no test goes from an HTTP request through all of them.",
  [PM, JR, RM, RS, RW, PW, RJ, MR, MS, TH], [("composition", "src/include/grpc_transcoding/transcoder.h")], [], ["PathMatcher::Lookup", "JsonRequestTranslator::Output", "ResponseToJsonTranslator"])
p("T12", "Translations are independent of one another",
  "Each request translation and each response translation gives the output and the status that its own configuration, bindings and input denote, whatever other translations are in progress or have ended before, successfully or not, in the same thread or in others, and also if they share the type information. Using different translators from different threads at a time, over one shared type helper, is free of data races.",
  ["histories", "schedules"], "every number of translations, every interleaving of their inputs and polls, on one or on several threads",
  "Tests run one translation at a time, each with a type helper of its own.",
  [JR, RM, RS, RW, PW, RJ, TH], [("state kept in members only", JR), ("state kept in members only", RJ), ("shared type information under a lock", TH)],
  [("members", "all state of a translation", JR)], ["JsonRequestTranslator::Output", "ResponseToJsonTranslator::NextMessage"])
p("T13", "A written document is passed on whole, at its prefix, with bindings woven in",
  "Every event of a document that is written to a PrefixWriter comes out unchanged, with its type and value, inside one message for each name of the prefix, which are opened before and closed after the document, whether the document is an object, a list or a single value. A RequestWeaver passes every event on unchanged and adds each binding exactly once: as a string, in the message its path leads to, which is opened once, and before that message is closed; values for a repeated field that the document sets come in order, next to the document's or later. A binding for a singular field that the document sets to a value is dropped; if collisions are to be reported and the two differ, as values of the document's type, the status is invalid argument from then on, and it is OK otherwise. Fields go by their name or their JSON name; nothing is woven into lists or into fields no binding leads to.",
  ["inputs"], "every sequence of events that is a document, with values of every type, every prefix and every set of bindings",
  "Tests write a few documents with values of a few types and check one order of the output.",
  [RW, PW], [("weaving", RW + " CollisionCheck, WeaveTree"), ("prefix", PW + " StartPrefix, EndPrefix")],
  [("current_, non_actionable_depth_", "where the document is", RW), ("bindings, messages", "what is still to be woven in", RW)], ["events on the output ObjectWriter", "RequestWeaver::Status"])
p("T14", "Documents written to a translator event by event give the messages they denote",
  "A document that is written to a request message translator by any sequence of ObjectWriter events, with values of every type, gives, once it is complete, exactly one message, which is the one it denotes, and none before. A list written to a request stream translator gives one message for each element, in order, each as soon as its element is complete and at any time after that, and only the first with the bindings; it is finished when the list is closed and everything has been handed out. What is not a list, an end of an object where none is open, or an element that can not be a message, gives an invalid-argument status, by the end of the element, that stays; what comes after it is ignored. Asking for messages never changes what comes later.",
  ["inputs", "schedules"], "every sequence of events that is a document or a list of them, values of every type, polls anywhere, every configuration",
  "Tests write some dozen documents, mostly of strings, and ask for messages at the end.",
  [RM, RS], [("depth and elements", RS + " StartObject, EndObject, StartList, EndList, RenderData"), ("end of an element", RS + " EndMessageTranslator")],
  [("depth_, done_, status_", "where the list is; error", RS), ("messages_", "complete, not handed out", RS)], ["RequestMessageTranslator", "RequestStreamTranslator"])
p("T15", "A type helper answers with exactly the types it was given",
  "A TypeHelper made from collections of message and enum types (of any container) answers, through its resolver and through its type information alike, a lookup of type.googleapis.com/ followed by the name of one of them with exactly that type or enum: its name, its options and fields or values, in order, with the option names proto2.MessageOptions.map_entry and proto2.MessageOptions.message_set_wire_format, and no others, changed to those of google.protobuf.MessageOptions. Every other url, however similar, and a message looked up as an enum or the other way round, is answered with not found, and what the caller passed for the result stays as it was. A result may be left out. Answers do not depend on what was looked up before or on what the caller did with the result. A TypeHelper made from a resolver answers as that resolver does, and deletes it, once, when it is itself deleted.",
  ["inputs"], "every catalog of types and enums, every url, every history of lookups",
  "Tests look up two types and a map entry once each.",
  [TH, "src/include/grpc_transcoding/type_helper.h"], [("url and name", TH + " AddType, AddEnum, ResolveMessageType, ResolveEnumType"), ("old option names", TH + " ReplaceProto2WithGoogleProtobufInOptionNames")],
  [("type_map_, enum_map_", "the catalog", TH), ("type_resolver_", "owned", TH)], ["TypeHelper::Resolver", "TypeHelper::Info", "ResolveMessageType", "ResolveEnumType"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
