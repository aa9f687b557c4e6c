From 8e81f339ef90dcc912af4f0dddb645a89836192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 01/11] fix: match the HTTP method and the custom verb of a
 template separately

The trie stored templates under the concatenation of the HTTP method and the
custom verb, with a bare "*" as the fallback key. Hence a rule for the HTTP
method "*" that has a custom verb never matched any request, one that has no
custom verb matched requests that do have one (and bound its variables without
it), and distinct (method, verb) pairs whose concatenations are equal were taken
for duplicates of each other or answered for each other.
---
 src/include/grpc_transcoding/path_matcher.h      | 9 ++++++---
 src/include/grpc_transcoding/path_matcher_node.h | 8 ++++++++
 src/path_matcher_node.cc                         | 8 +++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..708965f 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -337,7 +337,8 @@ Method PathMatcher<Method>::Lookup(
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              HttpMethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -372,7 +373,8 @@ Method PathMatcher<Method>::Lookup(const std::string& http_method,
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              HttpMethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -425,7 +427,8 @@ bool PathMatcherBuilder<Method>::Register(
   method_data->body_field_path = body_field_path;
   method_data->system_query_parameter_names = system_query_parameter_names;
 
-  if (!InsertPathToNode(path_info, method_data.get(), http_method + ht->verb(),
+  if (!InsertPathToNode(path_info, method_data.get(),
+                        HttpMethodKey(http_method, ht->verb()),
                         root_ptr_.get())) {
     return false;
   }
diff --git a/src/include/grpc_transcoding/path_matcher_node.h b/src/include/grpc_transcoding/path_matcher_node.h
index 5571994..c4247f8 100644
--- a/src/include/grpc_transcoding/path_matcher_node.h
+++ b/src/include/grpc_transcoding/path_matcher_node.h
@@ -27,6 +27,14 @@ namespace transcoding {
 
 typedef std::string HttpMethod;
 
+// Returns the key under which a template with the given HTTP method and custom
+// verb (empty if there is none) is stored and looked up. A custom verb never
+// contains a ':', so different pairs never share a key.
+inline HttpMethod HttpMethodKey(const std::string& http_method,
+                                const std::string& verb) {
+  return http_method + ":" + verb;
+}
+
 struct PathMatcherLookupResult {
   PathMatcherLookupResult() : data(nullptr), is_multiple(false) {}
 
diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..462997b 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -240,8 +240,14 @@ bool PathMatcherNode::LookupPathFromChild(
 
 bool PathMatcherNode::GetResultForHttpMethod(
     HttpMethod key, PathMatcherLookupResult* result) const {
+  // The wildcard method stands for any HTTP method, but not for any custom verb:
+  // keep the verb part of the key.
+  const std::size_t verb_pos = key.find_last_of(':');
+  const HttpMethod wildcard_key =
+      verb_pos == HttpMethod::npos ? HttpMethod(HttpMethod_WILD_CARD)
+                                   : HttpMethod_WILD_CARD + key.substr(verb_pos);
   const PathMatcherLookupResult* found_p =
-      Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+      Find2KeysOrNull(result_map_, key, wildcard_key);
   if (found_p != nullptr) {
     *result = *found_p;
     return true;
-- 
2.43.0


From aa1ffe96f66d47ba4f762e55b2ce93c379572bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 02/11] fix: do not let a request segment "*" or "**" select a
 wildcard child

A request segment was looked up among the literal children of a node, which also
hold the wildcard children under the keys "*" and "**". A request whose segment
reads "**" was therefore routed to a "**" template ahead of a more specific "*"
template.
---
 src/path_matcher_node.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 462997b..4af9cb9 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -158,7 +158,11 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // A request part that reads "*" or "**" is a literal like any other, and must
+    // not select the children that stand for the wildcards.
+    if (*current != HttpTemplate::kWildCardPathPartKey &&
+        *current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0


From 9796aebb9ae88002298cdb51d817aa9fe75e61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 03/11] fix: bind a variable behind a "**" to the segments it
 stands for

The "**" of a template matches any number of segments, so what follows it has no
fixed position from the start of the path. Only the end of a variable that holds
the "**" itself was stored relative to the end of the path: a variable behind it,
as in "/**/{x=foo}", was bound to whichever segments happened to be at its
position in the template.
---
 src/http_template.cc                         | 11 ++++++++++-
 src/include/grpc_transcoding/http_template.h |  2 +-
 src/include/grpc_transcoding/path_matcher.h  | 10 +++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..1fe246d 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -326,8 +326,17 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    bool after_wildcard_path = false;
     for (auto &var : variables_) {
-      if (var.has_wildcard_path) {
+      // A variable behind the '**' has no fixed position from the start of the
+      // path either: store both its ends relative to the end.
+      for (int i = 0; i < var.start_segment && !after_wildcard_path; ++i) {
+        after_wildcard_path = segments_[i] == HttpTemplate::kWildCardPathKey;
+      }
+      if (after_wildcard_path) {
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+        var.end_segment = (var.end_segment - segments_.size() - 1);
+      } else if (var.has_wildcard_path) {
         // if the variable contains a '**', store the end_positon
         // relative to the end, such that -1 corresponds to the end
         // of the path. As we only support fixed path after '**',
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..ac63ff9 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,7 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. So can start_segment, for a variable behind a "**".
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 708965f..958569d 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -183,20 +183,24 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     // the end such that end_segment = -1 will match all subsequent segments.
     VariableBinding binding;
     binding.field_path = var.field_path;
+    // Calculate the absolute index of the starting segment in case it's negative.
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     // Calculate the absolute index of the ending segment in case it's negative.
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match by checking if it->second.has_wildcard_path is set.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From 35ecb7f945b3f62fccf0927e6afba4010bb86d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 04/11] fix: compare 64-bit bindings with the body as 64-bit
 values

The bound value was narrowed to 32 bits first, so that a binding could conflict
with an equal value in the body, and agree with a different one.
---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..04ebb2b 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From 2b0626bb2da083fb1bbe55cf65435d3513f4a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 05/11] fix: apply all request options to streaming requests

Collision reporting and case-insensitive enum values were ignored for them.
---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From 2064a463099d07a8e97a20886be83b28583db636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 06/11] fix: do not hand out a stale message at the end of a
 newline-delimited stream

NextMessage() returned true without setting the message.
---
 src/response_to_json_translator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..7fddf30 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,9 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      // Nothing follows the last line.
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From 7b06df509e25f04285aa1f84ee36bbf22619b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 07/11] fix: hand out no message behind a request translation
 error

After NextMessage() had reported the end of the stream with an error, another
call could still return a message.
---
 src/json_request_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 0b3276e..1e94877 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -63,6 +63,10 @@ class LazyRequestTranslator : public MessageStream {
 
   // MessageStream implementation
   bool NextMessage(std::string* message) {
+    if (!status_.ok()) {
+      // The end of the stream is permanent, also if it is an error.
+      return false;
+    }
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-- 
2.43.0


From 180202a464eadbc7829c40aa6a5359ea56d1bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 08/11] fix: compare double bindings with the body as doubles

They were narrowed to float, so that equal large values were in conflict and
different ones were not.
---
 src/request_weaver.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 04ebb2b..8a28e04 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -41,7 +41,13 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+bool AlmostEquals(float a, float b) {
+  return a == b || std::fabs(a - b) < 32 * FLT_EPSILON;
+}
+
+bool AlmostEquals(double a, double b) {
+  return a == b || std::fabs(a - b) < 32 * DBL_EPSILON;
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0


From 9d1b42e86b3949bc50542f4d689265530d2e98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 09/11] fix: recognize a bound field in the body by its JSON
 name too

If the body used the JSON name of a field with a variable binding, the binding
overrode the body's value, and no conflict was reported.
---
 src/request_weaver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 8a28e04..06e17c9 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -168,6 +168,13 @@ absl::Status isEqual(absl::string_view field_name,
   return absl::OkStatus();
 }
 
+// Whether the body means the given field by the given name: the original proto
+// field name or the JSON name.
+bool IsNameOf(const pb::Field* field, absl::string_view name) {
+  return name == field->name() ||
+         (!name.empty() && name == field->json_name());
+}
+
 }  // namespace
 
 RequestWeaver::RequestWeaver(std::vector<BindingInfo> bindings,
@@ -361,7 +368,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 
   for (auto it = current_.top()->bindings.begin();
        it != current_.top()->bindings.end();) {
-    if (name == it->first->name()) {
+    if (IsNameOf(it->first, name)) {
       if (it->first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
         pbconv::ObjectWriter::RenderDataPieceTo(
             pbconv::DataPiece(absl::string_view(it->second), true), name, ow_);
@@ -384,7 +391,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-    if (field_name == msg.first->name()) {
+    if (IsNameOf(msg.first, field_name)) {
       return &msg.second;
     }
   }
-- 
2.43.0


From 578141bce166bfae4159f3c2b58dacab5da7e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 10/11] fix: ignore a binding without a field path

The loop over the path ran past its end.
---
 src/request_weaver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 06e17c9..93a221e 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -335,7 +335,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   // Find or create the path from the root to the leaf message, where the value
   // should be injected.
-  for (size_t i = 0; i < field_path.size() - 1; ++i) {
+  for (size_t i = 0; i + 1 < field_path.size(); ++i) {
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-- 
2.43.0


From cddbabbda2ff7c3a59885b6ae06e3279a930665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 11/11] fix: deliver a message completed by the end of the
 input

A request body that is a single number is complete only when the input ends.
NextMessage() then returned false although the message was ready, and
Finished() stayed false as well.
---
 src/json_request_translator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 1e94877..83f1408 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -70,8 +70,9 @@ class LazyRequestTranslator : public MessageStream {
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-        // Error or no more input to translate.
-        return false;
+        // Error or no more input to translate. The end of the input may have
+        // completed a message.
+        return status_.ok() && translated_->NextMessage(message);
       }
     }
     return true;
-- 
2.43.0

