// Executor for the parts of the library the official build covers: URL
// templates, routing, percent decoding, frame reading and the byte-stream view
// of a message stream. Public interface only.
#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include <thread>
#include <unordered_set>

#include "common.h"
#include "google/api/http.pb.h"
#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "grpc_transcoding/percent_encoding.h"
#include "grpc_transcoding/transcoder_input_stream.h"

namespace t = google::grpc::transcoding;

namespace {

// ---------------------------------------------------------------- templates
J FieldPath(const std::vector<std::string>& p) {
  J a = J::array();
  for (auto& x : p) a.push_back(Bytes(x));
  return a;
}

J RunTemplate(const J& in) {
  J o;
  auto ht = t::HttpTemplate::Parse(Str(in.at("t")));
  o["ok"] = ht != nullptr;
  o["segs"] = J::array();
  o["verb"] = J::array();
  o["vars"] = J::array();
  if (ht) {
    for (auto& s : ht->segments()) o["segs"].push_back(Bytes(s));
    o["verb"] = Bytes(ht->verb());
    for (auto& v : ht->Variables()) {
      o["vars"].push_back({{"s", v.start_segment},
                           {"e", v.end_segment},
                           {"w", v.has_wildcard_path},
                           {"fp", FieldPath(v.field_path)}});
    }
  }
  return o;
}

// ----------------------------------------------------------------- decoding
t::UrlUnescapeSpec Spec(int v) {
  switch (v) {
    case 1:
      return t::UrlUnescapeSpec::kAllCharactersExceptSlash;
    case 2:
      return t::UrlUnescapeSpec::kAllCharacters;
    default:
      return t::UrlUnescapeSpec::kAllCharactersExceptReserved;
  }
}

J RunPercent(const J& in) {
  // The input is handed over in a heap block of its exact size, so that an
  // out-of-bounds read is seen by the address sanitizer.
  std::string s = Str(in.at("s"));
  std::unique_ptr<char[]> buf(new char[s.size()]);
  memcpy(buf.get(), s.data(), s.size());
  absl::string_view v(buf.get(), s.size());
  auto spec = Spec(in.at("spec").get<int>());
  bool plus = in.at("plus").get<int>() != 0;
  J o;
  o["out"] = Bytes(t::UrlUnescapeString(v, spec, plus));
  o["esc"] = t::IsUrlEscapedString(v, spec, plus);
  o["out1"] = Bytes(t::UrlUnescapeString(v));
  o["esc1"] = t::IsUrlEscapedString(v);
  return o;
}

// ------------------------------------------------------------------ routing
struct MethodInfo {
  int id;
};
using Method = MethodInfo*;

google::api::HttpRule Rule(const J& r) {
  google::api::HttpRule h;
  std::string k = r.at("k").get<std::string>();
  std::string p = Str(r.at("t"));
  if (k == "get") h.set_get(p);
  if (k == "put") h.set_put(p);
  if (k == "post") h.set_post(p);
  if (k == "delete") h.set_delete_(p);
  if (k == "patch") h.set_patch(p);
  if (k == "custom") {
    h.mutable_custom()->set_kind(Str(r.at("m")));
    h.mutable_custom()->set_path(p);
  }
  h.set_body(Str(r.at("b")));
  for (auto& a : r.at("add")) *h.add_additional_bindings() = Rule(a);
  return h;
}

J Bindings(const std::vector<t::VariableBinding>& bs) {
  J a = J::array();
  for (auto& b : bs) a.push_back({{"f", FieldPath(b.field_path)}, {"v", Bytes(b.value)}});
  return a;
}

struct Looked {
  int mid;
  std::vector<t::VariableBinding> b;
  std::string body;
};

bool Same(const Looked& x, const Looked& y) {
  if (x.mid != y.mid || x.body != y.body || x.b.size() != y.b.size()) return false;
  for (size_t i = 0; i < x.b.size(); ++i) {
    if (x.b[i].field_path != y.b[i].field_path || x.b[i].value != y.b[i].value) return false;
  }
  return true;
}

struct Routing : Stepper {
  explicit Routing(const J&) {}
  std::unique_ptr<t::PathMatcherBuilder<Method>> builder{new t::PathMatcherBuilder<Method>()};
  t::PathMatcherPtr<Method> matcher;
  std::map<int, std::unique_ptr<MethodInfo>> methods;
  Method method(int id) {
    auto& m = methods[id];
    if (!m) m.reset(new MethodInfo{id});
    return m.get();
  }
  // The output arguments persist over the lookups of a session: a lookup that
  // fails must leave them as they are.
  std::vector<t::VariableBinding> bindings;
  std::string body;
  J Step(const J& op) override;
};

J Routing::Step(const J& op) {
  std::string a = op.at("a").get<std::string>();
  J o = J::object();
  if (a == "opt") {
    std::string n = op.at("o").get<std::string>();
    int v = op.at("v").get<int>();
    if (n == "spec") builder->SetUrlUnescapeSpec(Spec(v));
    if (n == "plus") builder->SetQueryParamUnescapePlus(v != 0);
    if (n == "unreg") builder->SetMatchUnregisteredCustomVerb(v != 0);
    if (n == "fail") builder->SetFailRegistrationOnDuplicate(v != 0);
    o["r"] = true;
  } else if (a == "reg") {
    std::unordered_set<std::string> sys;
    for (auto& s : op.at("sys")) sys.insert(Str(s));
    if (sys.empty() && op.at("ov").get<int>() == 1) {
      o["r"] = builder->Register(Str(op.at("m")), Str(op.at("t")), Str(op.at("b")),
                                 method(op.at("id").get<int>()));
    } else {
      o["r"] = builder->Register(Str(op.at("m")), Str(op.at("t")), Str(op.at("b")), sys,
                                 method(op.at("id").get<int>()));
    }
  } else if (a == "rule") {
    std::unordered_set<std::string> sys;
    for (auto& s : op.at("sys")) sys.insert(Str(s));
    google::api::HttpRule r = Rule(op.at("rule"));
    Method m = method(op.at("id").get<int>());
    if (sys.empty() && op.at("ov").get<int>() == 1) {
      o["r"] = t::PathMatcherUtility::RegisterByHttpRule<Method>(*builder, r, m);
    } else {
      o["r"] = t::PathMatcherUtility::RegisterByHttpRule<Method>(*builder, r, sys, m);
    }
  } else if (a == "build") {
    matcher = builder->Build();
    builder.reset();
    o["r"] = matcher != nullptr;
  } else if (a == "look") {
    std::string m = Str(op.at("m")), p = Str(op.at("p")), q = Str(op.at("q"));
    int v = op.at("v").get<int>();
    Method r = nullptr;
    if (v == 0) r = matcher->Lookup(m, p, q, &bindings, &body);
    if (v == 1) r = matcher->Lookup(m, p);
    if (v == 2) r = matcher->Lookup(m, p, q, nullptr, &body);
    if (v == 3) r = matcher->Lookup(m, p, q, &bindings, nullptr);
    if (v == 4) r = matcher->Lookup(m, p, q, nullptr, nullptr);
    o["r"] = r == nullptr ? 0 : r->id;
    o["b"] = Bindings(bindings);
    o["body"] = Bytes(body);
  } else if (a == "conc") {
    // Every request of the list is looked up by several threads at a time,
    // each in an order of its own; the distinct outcomes per request are
    // reported.
    const J& reqs = op.at("reqs");
    int threads = op.at("threads").get<int>(), rounds = op.at("rounds").get<int>();
    size_t n = reqs.size();
    std::vector<std::array<std::string, 3>> rq;
    for (auto& r : reqs) rq.push_back({Str(r.at("m")), Str(r.at("p")), Str(r.at("q"))});
    std::vector<std::vector<std::vector<Looked>>> seen(threads,
                                                       std::vector<std::vector<Looked>>(n));
    std::atomic<int> go{0};
    std::vector<std::thread> ts;
    const auto* pm = matcher.get();
    for (int k = 0; k < threads; ++k) {
      ts.emplace_back([&, k] {
        ++go;
        while (go.load() < threads) {
        }
        for (int r = 0; r < rounds; ++r) {
          for (size_t i0 = 0; i0 < n; ++i0) {
            size_t i = (k % 2 == 0) ? (i0 + k) % n : n - 1 - (i0 + k) % n;
            Looked l;
            Method got;
            if ((r + k) % 3 == 2) {
              got = pm->Lookup(rq[i][0], rq[i][1]);
              Looked full;
              Method g2 = pm->Lookup(rq[i][0], rq[i][1], rq[i][2], &l.b, &l.body);
              if (g2 != got) l.body = "two-argument lookup differs";
            } else {
              got = pm->Lookup(rq[i][0], rq[i][1], rq[i][2], &l.b, &l.body);
            }
            l.mid = got ? got->id : 0;
            bool known = false;
            for (auto& x : seen[k][i]) known = known || Same(x, l);
            if (!known) seen[k][i].push_back(l);
          }
        }
      });
    }
    for (auto& th : ts) th.join();
    o["res"] = J::array();
    for (size_t i = 0; i < n; ++i) {
      std::vector<Looked> all;
      for (auto& s : seen) {
        for (auto& l : s[i]) {
          bool known = false;
          for (auto& x : all) known = known || Same(x, l);
          if (!known) all.push_back(l);
        }
      }
      J d = J::array();
      for (auto& l : all) {
        d.push_back({{"r", l.mid}, {"b", Bindings(l.b)}, {"body", Bytes(l.body)}});
      }
      o["res"].push_back(d);
    }
  }
  return o;
}

// ------------------------------------------------------------------- frames
const char* PatternBlock() {
  static std::string* block = [] {
    auto* b = new std::string();
    for (int i = 0; i < 65536 + 251; ++i) b->push_back(static_cast<char>(i % 251));
    return b;
  }();
  return block->data();
}

// A source whose content is a sequence of chunks, explicit or patterned; the
// byte at absolute position p of a patterned chunk is p % 251.
class Source : public t::TranscoderInputStream {
 public:
  void AddBytes(std::string s) {
    std::unique_ptr<char[]> p(new char[s.size()]);
    memcpy(p.get(), s.data(), s.size());
    chunks_.push_back({fed_, s.size(), std::move(p)});
    fed_ += s.size();
  }
  void AddPattern(uint64_t n) {
    while (n > 0) {
      uint64_t k = std::min<uint64_t>(n, 65536);
      chunks_.push_back({fed_, k, nullptr});
      fed_ += k;
      n -= k;
    }
  }
  void Close() { closed_ = true; }
  // Delivers nothing behind position p any more, whatever it tells of.
  void Break(uint64_t p) { limit_ = std::min(p, fed_); }

  bool Next(const void** data, int* size) override {
    ++next_calls_;
    if (cur_ < chunks_.size() && off_ == chunks_[cur_].len) {
      ++cur_;
      off_ = 0;
    }
    if (cur_ == chunks_.size()) {
      *size = 0;
      last_ = 0;
      overrun_ = true;
      return !closed_;
    }
    if (Consumed() >= limit_) {
      *size = 0;
      last_ = 0;
      return false;
    }
    *data = Ptr(chunks_[cur_], off_);
    uint64_t n = std::min(chunks_[cur_].len - off_, limit_ - Consumed());
    *size = static_cast<int>(n);
    last_ = *size;
    off_ += n;
    return true;
  }
  void BackUp(int count) override {
    if (count < 0 || count > last_) {
      bad_backup_ = true;
      return;
    }
    off_ -= count;
    last_ -= count;
  }
  bool Skip(int count) override {
    const void* d;
    int n;
    while (count > 0) {
      if (!Next(&d, &n)) return false;
      if (n == 0) return false;
      if (n > count) {
        BackUp(n - count);
        n = count;
      }
      count -= n;
    }
    return true;
  }
  int64_t ByteCount() const override { return static_cast<int64_t>(Consumed()); }
  int64_t BytesAvailable() const override { return static_cast<int64_t>(fed_ - Consumed()); }
  bool Finished() const override { return closed_; }

  uint64_t Consumed() const {
    return cur_ == chunks_.size() ? fed_ : chunks_[cur_].start + off_;
  }
  bool Matches(uint64_t pos, const char* data, uint64_t n) const {
    // Finds the chunk that holds pos, then compares piece by piece.
    size_t lo = 0, hi = chunks_.size();
    while (hi - lo > 1) {
      size_t mid = (lo + hi) / 2;
      if (chunks_[mid].start <= pos) lo = mid; else hi = mid;
    }
    while (n > 0) {
      if (lo >= chunks_.size()) return false;
      const Chunk& c = chunks_[lo];
      if (pos >= c.start + c.len) {
        ++lo;
        continue;
      }
      uint64_t o = pos - c.start, k = std::min<uint64_t>(n, c.len - o);
      if (memcmp(Ptr(c, o), data, k) != 0) return false;
      pos += k;
      data += k;
      n -= k;
    }
    return true;
  }
  bool bad_backup_ = false;
  bool overrun_ = false;
  int64_t next_calls_ = 0;

 private:
  struct Chunk {
    uint64_t start;
    uint64_t len;
    std::unique_ptr<char[]> bytes;
  };
  const char* Ptr(const Chunk& c, uint64_t o) const {
    return c.bytes ? c.bytes.get() + o : PatternBlock() + c.start % 251 + o;
  }
  std::deque<Chunk> chunks_;
  size_t cur_ = 0;
  uint64_t off_ = 0;
  uint64_t fed_ = 0;
  uint64_t limit_ = UINT64_MAX;
  int last_ = 0;
  bool closed_ = false;
};

struct Reader : Stepper {
  explicit Reader(const J&) {}
  Source src;
  t::MessageReader reader{&src};
  std::unique_ptr<google::protobuf::io::ZeroCopyInputStream> msg;
  // Whether something of the current message has been read: what has been
  // taken from the source is then settled only when the message is released.
  bool touched = false;
  J Step(const J& op) override;
};

J Reader::Step(const J& op) {
  std::string a = op.at("a").get<std::string>();
  J o = J::object();
  if (a == "feed") {
    src.AddBytes(Str(op.at("b")));
  } else if (a == "pat") {
    src.AddPattern(UnWide(op.at("n")));
  } else if (a == "close") {
    src.Close();
  } else if (a == "break") {
    src.Break(UnWide(op.at("n")));
  } else if (a == "poll" || a == "pollf") {
    msg.reset();
    touched = false;
    o["hdr"] = J::array();
    o["size"] = Wide(0);
    if (a == "poll") {
      msg = reader.NextMessage();
    } else {
      auto f = reader.NextMessageAndGrpcFrame();
      msg = std::move(f.message);
      if (msg) {
        o["hdr"] = Bytes(std::string(reinterpret_cast<const char*>(f.grpc_frame),
                                     t::kGrpcDelimiterByteSize));
        o["size"] = Wide(f.message_size);
      }
    }
    o["got"] = msg != nullptr;
  } else if (a == "read") {
    if (!msg) {
      o["skip"] = true;
      return o;
    }
    // Reads up to n bytes of the current message ([-1, 0]: all of it).
    bool all = op.at("n")[0].get<int>() < 0;
    uint64_t want = all ? UINT64_MAX : UnWide(op.at("n")), got = 0;
    bool eof = false, match = true;
    std::string text;
    touched = true;
    while (got < want) {
      const void* d = nullptr;
      int n = 0;
      uint64_t pos = src.Consumed();
      // Bytes are consumed contiguously; where they start is where the source
      // stands, past what an empty chunk may skip.
      if (!msg->Next(&d, &n)) {
        eof = true;
        break;
      }
      if (n == 0) {
        if (src.overrun_) break;
        continue;
      }
      match = match && src.Matches(pos, static_cast<const char*>(d), n);
      uint64_t k = std::min<uint64_t>(n, want - got);
      if (text.size() <= 512) {
        text.append(static_cast<const char*>(d), std::min<uint64_t>(k, 513));
      }
      if (k < static_cast<uint64_t>(n)) msg->BackUp(static_cast<int>(n - k));
      got += k;
    }
    o["n"] = Wide(got);
    o["eof"] = eof;
    o["match"] = match;
    o["b"] = got <= 512 ? Bytes(text) : J::array();
    if (eof) msg.reset();
  } else if (a == "drop") {
    msg.reset();
  }
  o["fin"] = reader.Finished();
  o["code"] = static_cast<int>(reader.Status().code());
  o["msg"] = Bytes(std::string(reader.Status().message()));
  o["cons"] = msg && touched ? J::array({-1, 0}) : Wide(src.Consumed());
  o["ovr"] = src.overrun_ || src.bad_backup_;
  return o;
}

// ----------------------------------------------------- stream over messages
class ScriptedStream : public t::MessageStream {
 public:
  bool NextMessage(std::string* m) override {
    ++calls_;
    if (q_.empty()) return false;
    *m = std::move(q_.front());
    q_.pop_front();
    return true;
  }
  bool Finished() const override { return q_.empty() && closed_; }
  absl::Status Status() const override { return absl::OkStatus(); }
  std::deque<std::string> q_;
  bool closed_ = false;
  int calls_ = 0;
};

struct Adapter : Stepper {
  explicit Adapter(const J&) {}
  ScriptedStream src;
  std::unique_ptr<t::TranscoderInputStream> s{src.CreateInputStream()};
  int last = -1;  // what may be backed up; -1: the last call was no Next
  J Step(const J& op) override;
};

J Adapter::Step(const J& op) {
  std::string a = op.at("a").get<std::string>();
  J o = J::object();
  int may = last;
  if (a != "push" && a != "close") last = -1;
  if (a == "push") {
    // Byte j of a message with seed s reads (s + j) % 251.
    std::string m;
    int seed = op.at("s").get<int>(), n = op.at("n").get<int>();
    for (int j = 0; j < n; ++j) m.push_back(static_cast<char>((seed + j) % 251));
    src.q_.push_back(std::move(m));
  } else if (a == "close") {
    src.closed_ = true;
  } else if (a == "next") {
    const void* d = nullptr;
    int n = -1;
    bool ok = s->Next(&d, &n);
    o["ok"] = ok;
    o["n"] = n;
    int first = -1;
    bool run = true;
    if (ok && n > 0) {
      const unsigned char* p = static_cast<const unsigned char*>(d);
      first = p[0];
      for (int j = 0; j < n; ++j) run = run && p[j] == (first + j) % 251;
    }
    o["first"] = first;
    o["run"] = run;
    last = ok ? n : -1;
  } else if (a == "backr") {
    // Only what the interface allows: directly behind a Next, no more than it gave.
    int k = std::min(op.at("x").get<int>(), may);
    if (k >= 0) s->BackUp(k);
    o["n"] = k;
  } else if (a == "avail") {
    o["n"] = s->BytesAvailable();
  } else if (a == "fin") {
    o["r"] = s->Finished();
  }
  return o;
}

struct Templates : Stepper {
  explicit Templates(const J&) {}
  J Step(const J& op) override { return RunTemplate(op); }
};
struct Percents : Stepper {
  explicit Percents(const J&) {}
  J Step(const J& op) override { return RunPercent(op); }
};

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv,
              WithMulti({{"tmpls", Make<Templates>()},
                         {"pcts", Make<Percents>()},
                         {"pm", Make<Routing>()},
                         {"rd", Make<Reader>()},
                         {"ms", Make<Adapter>()}},
                        {{"tmpl", RunTemplate}, {"pct", RunPercent}}));
}
