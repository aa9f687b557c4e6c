#include <cstring>
// Executor for the JSON half of the library: request translation, response
// translation, field path resolution, and all of it end to end. Public
// interface only. Executes, never judges.
#include <atomic>
#include <deque>
#include <list>
#include <memory>
#include <thread>

#include "absl/strings/str_split.h"
#include "common.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/message.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/type_info.h"
#include "google/protobuf/util/type_resolver_util.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_stream_translator.h"
#include "grpc_transcoding/request_weaver.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "grpc_transcoding/transcoder_input_stream.h"
#include "grpc_transcoding/type_helper.h"
#include "v.pb.h"

namespace pb = google::protobuf;
namespace pbutil = google::protobuf::util;
namespace t = google::grpc::transcoding;

namespace {

// ------------------------------------------------------------------- messages
// The shortest decimal number that reads back as v, without an exponent.
std::string Real(double v, bool single) {
  char buf[512];
  for (int p = 0; p <= 340; ++p) {
    snprintf(buf, sizeof buf, "%.*f", p, v);
    double w = strtod(buf, nullptr);
    if (single ? static_cast<float>(w) == static_cast<float>(v) : w == v) break;
  }
  return strcmp(buf, "-0") == 0 ? "0" : buf;
}

J Canon(const pb::Message& m);
J Scalar(const std::string& s) { return {{"b", Bytes(s)}, {"m", J::array()}}; }

J Value(const pb::Message& m, const pb::FieldDescriptor* f, int i) {
  const pb::Reflection* r = m.GetReflection();
  bool rep = f->is_repeated();
#define GET(T) (rep ? r->GetRepeated##T(m, f, i) : r->Get##T(m, f))
  switch (f->cpp_type()) {
    case pb::FieldDescriptor::CPPTYPE_INT32:
      return Scalar(std::to_string(GET(Int32)));
    case pb::FieldDescriptor::CPPTYPE_INT64:
      return Scalar(std::to_string(GET(Int64)));
    case pb::FieldDescriptor::CPPTYPE_UINT32:
      return Scalar(std::to_string(GET(UInt32)));
    case pb::FieldDescriptor::CPPTYPE_UINT64:
      return Scalar(std::to_string(GET(UInt64)));
    case pb::FieldDescriptor::CPPTYPE_DOUBLE:
      return Scalar(Real(GET(Double), false));
    case pb::FieldDescriptor::CPPTYPE_FLOAT:
      return Scalar(Real(GET(Float), true));
    case pb::FieldDescriptor::CPPTYPE_BOOL:
      return Scalar(GET(Bool) ? "true" : "false");
    case pb::FieldDescriptor::CPPTYPE_ENUM:
      return Scalar(std::to_string(GET(EnumValue)));
    case pb::FieldDescriptor::CPPTYPE_STRING:
      return Scalar(GET(String));
    case pb::FieldDescriptor::CPPTYPE_MESSAGE:
      return {{"b", J::array()}, {"m", Canon(GET(Message))}};
  }
#undef GET
  return J();
}

// The fields that are set, in the order of their numbers: [{f: number, v: values}].
J Canon(const pb::Message& m) {
  J out = J::array();
  std::vector<const pb::FieldDescriptor*> fs;
  m.GetReflection()->ListFields(m, &fs);
  for (auto* f : fs) {
    J v = J::array();
    int n = f->is_repeated() ? m.GetReflection()->FieldSize(m, f) : 1;
    for (int i = 0; i < n; ++i) v.push_back(Value(m, f, i));
    out.push_back({{"f", f->number()}, {"v", v}});
  }
  return out;
}

// The inverse of Canon.
void Fill(pb::Message* m, const J& c) {
  const pb::Reflection* r = m->GetReflection();
  for (auto& x : c) {
    const pb::FieldDescriptor* f = m->GetDescriptor()->FindFieldByNumber(x.at("f").get<int>());
    for (auto& v : x.at("v")) {
      std::string s = Str(v.at("b"));
      bool rep = f->is_repeated();
#define PUT(T, V) \
  if (rep) r->Add##T(m, f, V); else r->Set##T(m, f, V)
      switch (f->cpp_type()) {
        case pb::FieldDescriptor::CPPTYPE_INT32:
          PUT(Int32, std::stol(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_INT64:
          PUT(Int64, std::stoll(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_UINT32:
          PUT(UInt32, std::stoul(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_UINT64:
          PUT(UInt64, std::stoull(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_DOUBLE:
          PUT(Double, std::stod(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_FLOAT:
          PUT(Float, std::stof(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_BOOL:
          PUT(Bool, s == "true");
          break;
        case pb::FieldDescriptor::CPPTYPE_ENUM:
          PUT(EnumValue, std::stoi(s));
          break;
        case pb::FieldDescriptor::CPPTYPE_STRING:
          PUT(String, s);
          break;
        case pb::FieldDescriptor::CPPTYPE_MESSAGE:
          Fill(rep ? r->AddMessage(m, f) : r->MutableMessage(m, f), v.at("m"));
          break;
      }
#undef PUT
    }
  }
}

std::unique_ptr<pb::Message> New(const std::string& type) {
  if (type == "N") return std::unique_ptr<pb::Message>(new v::N());
  return std::unique_ptr<pb::Message>(new v::M());
}

// ---------------------------------------------------------------------- types
const char kPrefix[] = "type.googleapis.com";

// The types as a service configuration has them: lists of Type and Enum.
struct Config {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
  Config() {
    std::unique_ptr<pbutil::TypeResolver> r(
        pbutil::NewTypeResolverForDescriptorPool(kPrefix, pb::DescriptorPool::generated_pool()));
    for (const char* n : {"v.M", "v.N"}) {
      pb::Type x;
      if (!r->ResolveMessageType(std::string(kPrefix) + "/" + n, &x).ok()) abort();
      types.push_back(x);
    }
    pb::Enum e;
    if (!r->ResolveEnumType(std::string(kPrefix) + "/v.E", &e).ok()) abort();
    enums.push_back(e);
  }
};
const Config& TheConfig() {
  static const Config* c = new Config();
  return *c;
}
// With sharing on, one for everybody, as a server has it.
std::shared_ptr<t::TypeHelper> shared_helpers[2];
bool sharing = false;
std::shared_ptr<t::TypeHelper> NewHelper(bool pool) {
  if (pool) {
    return std::make_shared<t::TypeHelper>(
        pbutil::NewTypeResolverForDescriptorPool(kPrefix, pb::DescriptorPool::generated_pool()));
  }
  return std::make_shared<t::TypeHelper>(TheConfig().types, TheConfig().enums);
}
std::shared_ptr<t::TypeHelper> Helper(bool pool) {
  return sharing ? shared_helpers[pool] : NewHelper(pool);
}
std::string Url(const std::string& type) { return std::string(kPrefix) + "/v." + type; }

// -------------------------------------------------------------------- sources
// A source of explicit chunks. Every chunk lives in a heap block of its own
// that is released as soon as the next one is taken: who still looks at it is
// caught by the address sanitizer.
class Source : public t::TranscoderInputStream {
 public:
  void Add(const std::string& s) {
    if (s.empty()) return;
    q_.push_back(s);
    fed_ += s.size();
  }
  void Close() { closed_ = true; }
  bool Next(const void** data, int* size) override {
    if (off_ == cur_n_) {
      cur_.reset();
      cur_n_ = off_ = 0;
      if (q_.empty()) {
        *size = 0;
        return !closed_;
      }
      cur_n_ = q_.front().size();
      cur_.reset(new char[cur_n_]);
      memcpy(cur_.get(), q_.front().data(), cur_n_);
      q_.pop_front();
    }
    *data = cur_.get() + off_;
    *size = static_cast<int>(cur_n_ - off_);
    taken_ += *size;
    off_ = cur_n_;
    return true;
  }
  void BackUp(int n) override {
    off_ -= n;
    taken_ -= n;
  }
  bool Skip(int n) override {
    const void* d;
    int k;
    while (n > 0) {
      if (!Next(&d, &k) || k == 0) return false;
      if (k > n) {
        BackUp(k - n);
        k = n;
      }
      n -= k;
    }
    return true;
  }
  int64_t ByteCount() const override { return static_cast<int64_t>(taken_); }
  int64_t BytesAvailable() const override { return static_cast<int64_t>(fed_ - taken_); }
  bool Finished() const override { return closed_; }
  uint64_t taken_ = 0, fed_ = 0;

 private:
  std::deque<std::string> q_;
  std::unique_ptr<char[]> cur_;
  size_t cur_n_ = 0, off_ = 0;
  bool closed_ = false;
};

// ------------------------------------------------------------------- requests
struct Bound {
  bool ok = true;
  std::vector<t::RequestWeaver::BindingInfo> b;
};
template <class L>
Bound Bind(const t::TypeHelper& h, const pb::Type& type, const L& list) {
  Bound r;
  for (auto& x : list) {
    t::RequestWeaver::BindingInfo bi;
    if (!h.ResolveFieldPath(type, x.first, &bi.field_path).ok()) {
      r.ok = false;
      return r;
    }
    bi.value = x.second;
    r.b.push_back(bi);
  }
  return r;
}

// What a message of the output holds.
void Describe(const std::string& m, const std::string& type, bool delimited, J* o) {
  std::string body = m;
  (*o)["hdr"] = J::array();
  if (delimited && m.size() >= 5) {
    (*o)["hdr"] = Bytes(m.substr(0, 5));
    body = m.substr(5);
  }
  (*o)["len"] = Wide(body.size());
  auto msg = New(type);
  bool ok = msg->ParseFromString(body);
  ok = ok && msg->GetReflection()->GetUnknownFields(*msg).empty();
  (*o)["ok"] = ok;
  (*o)["m"] = ok && body.size() < 100000 ? Canon(*msg) : J::array();
}

struct Request : Stepper {
  explicit Request(const J& in);
  J Step(const J& op) override;
  std::shared_ptr<t::TypeHelper> helper;
  std::string type;
  Bound bound;
  bool del;
  Source src;
  std::unique_ptr<t::JsonRequestTranslator> tr;
};

Request::Request(const J& in)
    : helper(Helper(in.at("pool").get<int>() != 0)),
      type(in.at("type").get<std::string>()),
      del(in.at("del").get<int>() != 0) {
  const pb::Type* pt = helper->Info()->GetTypeByTypeUrl(Url(type));
  std::vector<std::pair<std::vector<std::string>, std::string>> binds;
  for (auto& x : in.at("binds")) {
    std::vector<std::string> p;
    for (auto& n : x.at("p")) p.push_back(Str(n));
    binds.push_back({p, Str(x.at("v"))});
  }
  bound = Bind(*helper, *pt, binds);
  t::RequestInfo info;
  info.message_type = pt;
  info.body_field_path = Str(in.at("bp"));
  info.variable_bindings = bound.b;
  info.reject_binding_body_field_collisions = in.at("rej").get<int>() != 0;
  info.case_insensitive_enum_parsing = in.at("ci").get<int>() != 0;
  tr.reset(new t::JsonRequestTranslator(helper->Resolver(), &src, info, in.at("str").get<int>() != 0, del));
}

J Request::Step(const J& op) {
  std::string a = op.at("a").get<std::string>();
  J o = J::object();
  if (a == "feed") {
    src.Add(Str(op.at("b")));
  } else if (a == "fill") {
    src.Add(std::string(op.at("n").get<size_t>(), 'a'));
  } else if (a == "close") {
    src.Close();
  } else if (a == "poll") {
    std::string m = "untouched";
    bool got = tr->Output().NextMessage(&m);
    o["got"] = got;
    o["kept"] = got || m == "untouched";
    if (got) {
      Describe(m, type, del, &o);
    } else {
      o["hdr"] = J::array();
      o["m"] = J::array();
      o["len"] = Wide(0);
      o["ok"] = true;
    }
  }
  o["fin"] = tr->Output().Finished();
  o["code"] = static_cast<int>(tr->Output().Status().code());
  o["cons"] = Wide(src.taken_);
  o["bound"] = bound.ok;
  return o;
}

// ------------------------------------------------------------------ responses
std::string Frame(int flag, const std::string& body) {
  std::string s(1, static_cast<char>(flag));
  uint32_t n = static_cast<uint32_t>(body.size());
  for (int k = 24; k >= 0; k -= 8) s.push_back(static_cast<char>(n >> k));
  return s + body;
}

t::JsonResponseTranslateOptions PrintOptions(const J& in) {
  t::JsonResponseTranslateOptions o;
  o.stream_newline_delimited = in.at("nd").get<int>() != 0;
  o.json_print_options.add_whitespace = in.at("ws").get<int>() != 0;
  o.json_print_options.always_print_primitive_fields = in.at("prim").get<int>() != 0;
  o.json_print_options.always_print_enums_as_ints = in.at("ei").get<int>() != 0;
  o.json_print_options.preserve_proto_field_names = in.at("pn").get<int>() != 0;
  return o;
}

// frames: [{k: "msg", m: canonical} or {k: "raw", b: bytes}, fl: flag], then tail.
struct Response : Stepper {
  explicit Response(const J& in);
  J Step(const J& op) override;
  J Done(J ops) override {
    J r;
    r["sizes"] = sizes;
    r["ops"] = std::move(ops);
    return r;
  }
  std::shared_ptr<t::TypeHelper> helper;
  std::string all;
  J sizes = J::array();
  Source src;
  std::unique_ptr<t::ResponseToJsonTranslator> tr;
  size_t at = 0;
};

Response::Response(const J& in) : helper(Helper(in.at("pool").get<int>() != 0)) {
  std::string type = in.at("type").get<std::string>();
  for (auto& f : in.at("frames")) {
    std::string body;
    if (f.at("k") == "msg") {
      auto m = New(type);
      Fill(m.get(), f.at("m"));
      body = m->SerializeAsString();
    } else if (f.at("k") == "fill") {
      auto m = New(type);
      static_cast<v::M*>(m.get())->set_s(std::string(f.at("n").get<size_t>(), 'a'));
      body = m->SerializeAsString();
    } else {
      body = Str(f.at("b"));
    }
    sizes.push_back(Wide(body.size()));
    all += Frame(f.at("fl").get<int>(), body);
  }
  all += Str(in.at("tail"));
  if (in.at("dflt").get<int>() != 0) {
    tr.reset(new t::ResponseToJsonTranslator(helper->Resolver(), Url(type), in.at("str").get<int>() != 0, &src));
  } else {
    tr.reset(new t::ResponseToJsonTranslator(helper->Resolver(), Url(type), in.at("str").get<int>() != 0, &src,
                                             PrintOptions(in)));
  }
}

J Response::Step(const J& op) {
  std::string a = op.at("a").get<std::string>();
  J o = J::object();
  if (a == "feed") {
    size_t n = std::min(op.at("n").get<size_t>(), all.size() - at);
    src.Add(all.substr(at, n));
    at += n;
    o["n"] = Wide(n);
  } else if (a == "close") {
    src.Close();
  } else if (a == "poll") {
    std::string m = "untouched";
    bool got = tr->NextMessage(&m);
    o["got"] = got;
    o["kept"] = got || m == "untouched";
    o["len"] = Wide(got ? m.size() : 0);
    o["b"] = got && m.size() < 100000 ? Bytes(m) : J::array();
    // What a document of nothing but letters looks like from afar.
    size_t letters = 0;
    if (got) for (char c : m) letters += c == 'a';
    o["fill"] = Wide(letters);
  }
  o["fin"] = tr->Finished();
  o["code"] = static_cast<int>(tr->Status().code());
  return o;
}

// ---------------------------------------------------------------- field paths
// types: [{n: name, f: [{n, j, k, t}]}]; the first is the root. Fields are
// reported as [type index, field index], counted from 1.
J RunPaths(const J& in) {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
  for (auto& x : in.at("types")) {
    pb::Type ty;
    ty.set_name(x.at("n").get<std::string>());
    int num = 0;
    for (auto& f : x.at("f")) {
      auto* pf = ty.add_fields();
      pf->set_number(++num);
      pf->set_name(Str(f.at("n")));
      pf->set_json_name(Str(f.at("j")));
      std::string k = f.at("k").get<std::string>();
      pf->set_kind(k == "message" ? pb::Field::TYPE_MESSAGE
                                  : k == "enum" ? pb::Field::TYPE_ENUM
                                                : k == "group" ? pb::Field::TYPE_GROUP : pb::Field::TYPE_STRING);
      pf->set_cardinality(f.at("rep").get<int>() ? pb::Field::CARDINALITY_REPEATED
                                                 : pb::Field::CARDINALITY_OPTIONAL);
      if (k == "message" || k == "group") {
        pf->set_type_url(std::string(kPrefix) + "/" + f.at("t").get<std::string>());
      }
    }
    types.push_back(ty);
  }
  t::TypeHelper helper(types, enums);
  const pb::Type* root = helper.Info()->GetTypeByTypeUrl(std::string(kPrefix) + "/" + types[0].name());
  auto id = [&](const pb::Field* f) {
    for (size_t i = 0; i < types.size(); ++i) {
      const pb::Type* ty = helper.Info()->GetTypeByTypeUrl(std::string(kPrefix) + "/" + types[i].name());
      for (int k = 0; ty != nullptr && k < ty->fields_size(); ++k) {
        if (&ty->fields(k) == f) return J::array({static_cast<int>(i) + 1, k + 1});
      }
    }
    return J::array({0, 0});
  };
  auto one = [&](const J& p, bool dotted, std::vector<const pb::Field*>* f) {
    if (dotted) return helper.ResolveFieldPath(*root, Str(p), f);
    std::vector<std::string> names;
    for (auto& n : p) names.push_back(Str(n));
    return helper.ResolveFieldPath(*root, names, f);
  };
  // Every path leaves its result in an output argument that already holds
  // something.
  std::vector<const pb::Field*> before;
  if (root->fields_size() > 0) before.push_back(&root->fields(0));
  auto show = [&](const J& q) {
    std::vector<const pb::Field*> f = before;
    bool dotted = q.at("d").get<int>() != 0;
    absl::Status s = one(q.at("p"), dotted, &f);
    J o;
    o["code"] = static_cast<int>(s.code());
    o["kept"] = s.ok() || f == before;
    o["f"] = J::array();
    if (s.ok()) for (auto* x : f) o["f"].push_back(id(x));
    return o;
  };
  J out = J::array();
  int threads = in.at("threads").get<int>();
  if (threads == 0) {
    for (auto& q : in.at("paths")) out.push_back({{"res", J::array({show(q)})}, {"overlap", 0}});
    return out;
  }
  // All paths by all threads at a time; the distinct results per path.
  pbutil::converter::SetSlowCalls(true);
  int before_overlaps = pbutil::converter::OverlappingCalls();
  const J& paths = in.at("paths");
  struct Raw {
    int code;
    bool kept;
    std::vector<const pb::Field*> f;
    bool operator==(const Raw& x) const { return code == x.code && kept == x.kept && f == x.f; }
  };
  std::vector<std::vector<std::vector<Raw>>> seen(threads, std::vector<std::vector<Raw>>(paths.size()));
  std::atomic<int> go{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < threads; ++k) {
    ts.emplace_back([&, k] {
      ++go;
      while (go.load() < threads) {
      }
      for (int round = 0; round < in.at("rounds").get<int>(); ++round) {
        for (size_t i0 = 0; i0 < paths.size(); ++i0) {
          size_t i = (i0 + k) % paths.size();
          Raw r;
          r.f = before;
          absl::Status s = one(paths[i].at("p"), paths[i].at("d").get<int>() != 0, &r.f);
          r.code = static_cast<int>(s.code());
          r.kept = s.ok() || r.f == before;
          if (!s.ok()) r.f.clear();
          bool known = false;
          for (auto& x : seen[k][i]) known = known || x == r;
          if (!known) seen[k][i].push_back(r);
        }
      }
    });
  }
  for (auto& th : ts) th.join();
  pbutil::converter::SetSlowCalls(false);
  int overlaps = pbutil::converter::OverlappingCalls() - before_overlaps;
  for (size_t i = 0; i < paths.size(); ++i) {
    std::vector<Raw> all;
    for (auto& s : seen) {
      for (auto& r : s[i]) {
        bool known = false;
        for (auto& x : all) known = known || x == r;
        if (!known) all.push_back(r);
      }
    }
    J d = J::array();
    for (auto& r : all) {
      J o;
      o["code"] = r.code;
      o["kept"] = r.kept;
      o["f"] = J::array();
      for (auto* x : r.f) o["f"].push_back(id(x));
      d.push_back(o);
    }
    out.push_back({{"res", d}, {"overlap", overlaps}});
  }
  return out;
}

// ----------------------------------------------------------------- end to end
struct MethodInfo {
  int id;
};

// A request, from its path and body to the frames of the backend request; then
// the same frames as if they were the response, to JSON.
J RunEndToEnd(const J& in) {
  t::PathMatcherBuilder<MethodInfo*> builder;
  std::deque<MethodInfo> methods;
  builder.SetUrlUnescapeSpec(in.at("spec").get<int>() == 1
                                 ? t::UrlUnescapeSpec::kAllCharactersExceptSlash
                                 : in.at("spec").get<int>() == 2 ? t::UrlUnescapeSpec::kAllCharacters
                                                                 : t::UrlUnescapeSpec::kAllCharactersExceptReserved);
  builder.SetQueryParamUnescapePlus(in.at("plus").get<int>() != 0);
  J o = J::object();
  o["regs"] = J::array();
  for (auto& r : in.at("regs")) {
    methods.push_back({r.at("id").get<int>()});
    o["regs"].push_back(builder.Register(Str(r.at("m")), Str(r.at("t")), Str(r.at("b")), &methods.back()));
  }
  auto matcher = builder.Build();
  auto helper = Helper(in.at("pool").get<int>() != 0);
  std::string type = in.at("type").get<std::string>();
  const pb::Type* pt = helper->Info()->GetTypeByTypeUrl(Url(type));

  std::vector<t::VariableBinding> vb;
  std::string body_path;
  MethodInfo* m = matcher->Lookup(Str(in.at("m")), Str(in.at("p")), Str(in.at("q")), &vb, &body_path);
  o["r"] = m ? m->id : 0;
  o["bound"] = true;
  o["msgs"] = J::array();
  o["code"] = 0;
  o["fin"] = false;
  o["docs"] = J::array();
  o["rcode"] = 0;
  o["rfin"] = false;
  if (!m) return o;
  std::vector<std::pair<std::vector<std::string>, std::string>> binds;
  for (auto& b : vb) binds.push_back({b.field_path, b.value});
  Bound bound = Bind(*helper, *pt, binds);
  o["bound"] = bound.ok;
  if (!bound.ok) return o;

  t::RequestInfo info;
  info.message_type = pt;
  info.body_field_path = body_path;
  info.variable_bindings = bound.b;
  info.reject_binding_body_field_collisions = in.at("rej").get<int>() != 0;
  info.case_insensitive_enum_parsing = in.at("ci").get<int>() != 0;
  bool str = in.at("str").get<int>() != 0;
  Source src;
  t::JsonRequestTranslator tr(helper->Resolver(), &src, info, str, true);

  // The request side, read as one stream of bytes, feeds the response side, by
  // way of a server that parses every message and sends it back.
  Source back;
  t::ResponseToJsonTranslator rt(helper->Resolver(), Url(type), str, &back, PrintOptions(in));
  auto request = tr.Output().CreateInputStream();
  auto response = rt.CreateInputStream();
  std::string frames, replies, docs;
  size_t step = in.at("step").get<size_t>(), sent = 0, served = 0;
  auto serve = [&] {
    while (frames.size() - served >= 5) {
      size_t n = 0;
      for (int k = 1; k < 5; ++k) n = n * 256 + static_cast<unsigned char>(frames[served + k]);
      if (frames.size() - served - 5 < n) return;
      auto msg = New(type);
      std::string reply = frames.substr(served + 5, n);
      if (msg->ParseFromString(reply)) reply = msg->SerializeAsString();
      replies.push_back(frames[served]);
      for (int k = 3; k >= 0; --k) replies.push_back(static_cast<char>(reply.size() >> (8 * k)));
      replies += reply;
      served += 5 + n;
    }
  };
  auto pump = [&](bool last) {
    const void* d = nullptr;
    int n = 0;
    while (request->Next(&d, &n) && n > 0) {
      frames.append(static_cast<const char*>(d), n);
    }
    serve();
    while (sent < replies.size()) {
      size_t k = std::min(step, replies.size() - sent);
      back.Add(replies.substr(sent, k));
      sent += k;
      while (response->Next(&d, &n) && n > 0) {
        // Take some of it, give the rest back.
        int back_up = n > 1 && sent % 2 ? n / 2 : 0;
        docs.append(static_cast<const char*>(d), n - back_up);
        if (back_up) response->BackUp(back_up);
      }
    }
    if (last) back.Close();
    while (response->Next(&d, &n) && n > 0) docs.append(static_cast<const char*>(d), n);
  };
  std::string body = Str(in.at("body"));
  size_t at = 0;
  for (auto& c : in.at("cuts")) {
    size_t to = std::min(body.size(), c.get<size_t>());
    if (to > at) {
      src.Add(body.substr(at, to - at));
      at = to;
    }
    pump(false);
  }
  if (at < body.size()) src.Add(body.substr(at));
  src.Close();
  pump(false);
  pump(true);
  // The frames, taken apart.
  for (size_t p = 0; p < frames.size();) {
    J f;
    if (frames.size() - p < 5) {
      f["ok"] = false;
      o["msgs"].push_back(f);
      break;
    }
    uint64_t n = 0;
    for (int k = 1; k < 5; ++k) n = n * 256 + static_cast<unsigned char>(frames[p + k]);
    Describe(frames.substr(p, 5 + n), type, true, &f);
    if (f["hdr"][0] != 0 || p + 5 + n > frames.size()) f["ok"] = false;
    o["msgs"].push_back(f);
    p += 5 + n;
  }
  o["code"] = static_cast<int>(tr.Output().Status().code());
  o["fin"] = tr.Output().Finished();
  o["docs"] = Bytes(docs);
  o["rcode"] = static_cast<int>(rt.Status().code());
  o["rfin"] = rt.Finished();
  return o;
}

// -------------------------------------------------------------------- writers
namespace conv = google::protobuf::util::converter;

J Event(const char* e, absl::string_view n, const char* t, const std::string& v) {
  return {{"e", e}, {"n", Bytes(std::string(n))}, {"t", t}, {"v", Bytes(v)}};
}
std::string Exact(double v) {
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", v);
  return buf;
}

// Writes down what it is told.
struct Recorder : conv::ObjectWriter {
  J got = J::array();
  Recorder* Put(J e) {
    got.push_back(std::move(e));
    return this;
  }
  Recorder* StartObject(absl::string_view n) override { return Put(Event("so", n, "", "")); }
  Recorder* EndObject() override { return Put(Event("eo", "", "", "")); }
  Recorder* StartList(absl::string_view n) override { return Put(Event("sl", n, "", "")); }
  Recorder* EndList() override { return Put(Event("el", "", "", "")); }
  Recorder* RenderBool(absl::string_view n, bool v) override { return Put(Event("v", n, "bool", v ? "true" : "false")); }
  Recorder* RenderInt32(absl::string_view n, int32_t v) override { return Put(Event("v", n, "i32", std::to_string(v))); }
  Recorder* RenderUint32(absl::string_view n, uint32_t v) override { return Put(Event("v", n, "u32", std::to_string(v))); }
  Recorder* RenderInt64(absl::string_view n, int64_t v) override { return Put(Event("v", n, "i64", std::to_string(v))); }
  Recorder* RenderUint64(absl::string_view n, uint64_t v) override { return Put(Event("v", n, "u64", std::to_string(v))); }
  Recorder* RenderDouble(absl::string_view n, double v) override { return Put(Event("v", n, "dbl", Exact(v))); }
  Recorder* RenderFloat(absl::string_view n, float v) override { return Put(Event("v", n, "flt", Exact(v))); }
  Recorder* RenderString(absl::string_view n, absl::string_view v) override { return Put(Event("v", n, "str", std::string(v))); }
  Recorder* RenderBytes(absl::string_view n, absl::string_view v) override { return Put(Event("v", n, "byt", std::string(v))); }
  Recorder* RenderNull(absl::string_view n) override { return Put(Event("v", n, "nul", "")); }
};

// One event, told to a writer.
void Tell(conv::ObjectWriter* w, const J& op) {
  std::string e = op.at("e").get<std::string>();
  // Names and values that are gone after the call.
  std::unique_ptr<std::string> nn(new std::string(Str(op.at("n")))), vv(new std::string(Str(op.at("v"))));
  absl::string_view n = *nn, v = *vv;
  if (e == "so") {
    w->StartObject(n);
  } else if (e == "eo") {
    w->EndObject();
  } else if (e == "sl") {
    w->StartList(n);
  } else if (e == "el") {
    w->EndList();
  } else {
    std::string t = op.at("t").get<std::string>();
    if (t == "bool") w->RenderBool(n, v == "true");
    if (t == "i32") w->RenderInt32(n, static_cast<int32_t>(std::stol(*vv)));
    if (t == "u32") w->RenderUint32(n, static_cast<uint32_t>(std::stoul(*vv)));
    if (t == "i64") w->RenderInt64(n, std::stoll(*vv));
    if (t == "u64") w->RenderUint64(n, std::stoull(*vv));
    if (t == "dbl") w->RenderDouble(n, std::stod(*vv));
    if (t == "flt") w->RenderFloat(n, std::stof(*vv));
    if (t == "str") w->RenderString(n, v);
    if (t == "byt") w->RenderBytes(n, v);
    if (t == "nul") w->RenderNull(n);
  }
}

// Events through a PrefixWriter and a RequestWeaver, or one of them.
struct Writers : Stepper {
  explicit Writers(const J& in) {
    std::map<std::string, const pb::Field*> known;
    std::vector<t::RequestWeaver::BindingInfo> bs;
    for (auto& b : in.at("binds")) {
      t::RequestWeaver::BindingInfo x;
      std::string at;
      for (auto& f : b.at("p")) {
        at += "." + Str(f.at("n"));
        if (!known.count(at)) {
          fields.emplace_back();
          fields.back().set_name(Str(f.at("n")));
          fields.back().set_json_name(Str(f.at("j")));
          fields.back().set_cardinality(f.at("rep").get<bool>() ? pb::Field::CARDINALITY_REPEATED
                                                                : pb::Field::CARDINALITY_OPTIONAL);
          known[at] = &fields.back();
        }
        x.field_path.push_back(known[at]);
      }
      x.value = Str(b.at("v"));
      bs.push_back(x);
    }
    top = &rec;
    if (in.at("ww").get<int>()) {
      weaver.reset(new t::RequestWeaver(bs, &rec, &errors, in.at("rep").get<int>() != 0));
      top = weaver.get();
    }
    if (in.at("wp").get<int>()) {
      prefix.reset(new t::PrefixWriter(Str(in.at("ps")), top));
      top = prefix.get();
    }
  }
  J Step(const J& op) override {
    rec.got = J::array();
    Tell(top, op);
    J o;
    o["out"] = rec.got;
    o["code"] = static_cast<int>(weaver ? weaver->Status().code() : absl::StatusCode::kOk);
    return o;
  }
  std::deque<pb::Field> fields;
  Recorder rec;
  t::StatusErrorListener errors;
  std::unique_ptr<t::RequestWeaver> weaver;
  std::unique_ptr<t::PrefixWriter> prefix;
  conv::ObjectWriter* top;
};

// Documents told to a translator event by event.
struct Events : Stepper {
  explicit Events(const J& in)
      : helper(Helper(in.at("pool").get<int>() != 0)),
        type(in.at("type").get<std::string>()),
        del(in.at("del").get<int>() != 0) {
    const pb::Type* pt = helper->Info()->GetTypeByTypeUrl(Url(type));
    std::vector<std::pair<std::vector<std::string>, std::string>> binds;
    for (auto& x : in.at("binds")) {
      std::vector<std::string> p;
      for (auto& n : x.at("p")) p.push_back(Str(n));
      binds.push_back({p, Str(x.at("v"))});
    }
    bound = Bind(*helper, *pt, binds);
    t::RequestInfo info;
    info.message_type = pt;
    info.body_field_path = Str(in.at("bp"));
    info.variable_bindings = bound.b;
    info.reject_binding_body_field_collisions = in.at("rej").get<int>() != 0;
    info.case_insensitive_enum_parsing = in.at("ci").get<int>() != 0;
    if (in.at("str").get<int>()) {
      many.reset(new t::RequestStreamTranslator(*helper->Resolver(), del, info));
      to = many.get();
      out = many.get();
    } else {
      one.reset(new t::RequestMessageTranslator(*helper->Resolver(), del, info));
      to = &one->Input();
      out = one.get();
    }
  }
  J Step(const J& op) override {
    J o;
    if (op.at("a") == "ev") {
      Tell(to, op);
    } else {
      std::string m = "untouched";
      bool got = out->NextMessage(&m);
      o["got"] = got;
      if (got) {
        Describe(m, type, del, &o);
      } else {
        o["hdr"] = J::array();
        o["m"] = J::array();
        o["len"] = Wide(0);
      }
    }
    o["fin"] = out->Finished();
    o["code"] = static_cast<int>(out->Status().code());
    o["bound"] = bound.ok;
    return o;
  }
  std::shared_ptr<t::TypeHelper> helper;
  std::string type;
  bool del;
  Bound bound;
  std::unique_ptr<t::RequestMessageTranslator> one;
  std::unique_ptr<t::RequestStreamTranslator> many;
  conv::ObjectWriter* to;
  t::MessageStream* out;
};

// ---------------------------------------------------------------- the catalog
// A resolver of a caller's, that tells when it is gone.
struct OwnResolver : pbutil::TypeResolver {
  OwnResolver(const std::vector<pb::Type>& ts, const std::vector<pb::Enum>& es, int* gone) : ts(ts), es(es), gone(gone) {}
  ~OwnResolver() override { ++*gone; }
  absl::Status ResolveMessageType(const std::string& url, pb::Type* out) override {
    for (auto& x : ts) {
      if (std::string(kPrefix) + "/" + x.name() == url) {
        if (out != nullptr) *out = x;
        return absl::OkStatus();
      }
    }
    return absl::NotFoundError("no such type");
  }
  absl::Status ResolveEnumType(const std::string& url, pb::Enum* out) override {
    for (auto& x : es) {
      if (std::string(kPrefix) + "/" + x.name() == url) {
        if (out != nullptr) *out = x;
        return absl::OkStatus();
      }
    }
    return absl::NotFoundError("no such enum");
  }
  std::vector<pb::Type> ts;
  std::vector<pb::Enum> es;
  int* gone;
};

struct Catalog : Stepper {
  explicit Catalog(const J& in) : own(in.at("own").get<int>() != 0) {
    for (auto& x : in.at("types")) {
      types.emplace_back();
      types.back().set_name(Str(x.at("n")));
      for (auto& o : x.at("o")) {
        auto* p = types.back().add_options();
        p->set_name(Str(o.at("n")));
        p->mutable_value()->set_value(Str(o.at("v")));
      }
      for (auto& f : x.at("f")) types.back().add_fields()->set_name(Str(f));
    }
    for (auto& x : in.at("enums")) {
      enums.emplace_back();
      enums.back().set_name(Str(x.at("n")));
      for (auto& v : x.at("v")) enums.back().add_enumvalue()->set_name(Str(v));
    }
    if (own) {
      OwnResolver* r = new OwnResolver({types.begin(), types.end()}, {enums.begin(), enums.end()}, &gone);
      mine = r;
      helper.reset(new t::TypeHelper(r));
    } else {
      // Containers of any kind will do.
      helper.reset(new t::TypeHelper(types, enums));
    }
  }
  static J Of(const pb::Type& x) {
    J o = {{"code", 0}, {"kept", false}, {"n", Bytes(x.name())}, {"o", J::array()}, {"f", J::array()},
           {"v", J::array()}, {"gone", 0}};
    for (auto& y : x.options()) o["o"].push_back({{"n", Bytes(y.name())}, {"v", Bytes(y.value().value())}});
    for (auto& y : x.fields()) o["f"].push_back(Bytes(y.name()));
    return o;
  }
  static J Of(const pb::Enum& x) {
    J o = {{"code", 0}, {"kept", false}, {"n", Bytes(x.name())}, {"o", J::array()}, {"f", J::array()},
           {"v", J::array()}, {"gone", 0}};
    for (auto& y : x.enumvalue()) o["v"].push_back(Bytes(y.name()));
    return o;
  }
  template <typename T, typename F>
  J Ask(F ask) {
    T before;
    before.set_name("before");
    before.add_options()->set_name("kept");
    T out = before;
    int code = static_cast<int>(ask(&out).code());
    J o = Of(out);
    o["code"] = code;
    o["kept"] = out.SerializeAsString() == before.SerializeAsString();
    out.set_name("scribbled");  // the answer is the asker's
    out.clear_options();
    return o;
  }
  J Step(const J& op) override {
    std::string a = op.at("a").get<std::string>(), u = Str(op.at("u"));
    if (a == "drop") {
      J o = Of(pb::Type());
      helper.reset();
      o["gone"] = gone;
      return o;
    }
    pbutil::TypeResolver* r = helper->Resolver();
    J o;
    if (a == "type") o = Ask<pb::Type>([&](pb::Type* x) { return r->ResolveMessageType(u, x); });
    if (a == "enum") o = Ask<pb::Enum>([&](pb::Enum* x) { return r->ResolveEnumType(u, x); });
    if (a == "itype" || a == "ienum") {
      o = Of(pb::Type());
      o["code"] = 5;
      o["kept"] = true;
      if (a == "itype") {
        const pb::Type* x = helper->Info()->GetTypeByTypeUrl(u);
        auto y = helper->Info()->ResolveTypeUrl(u);
        if (x != nullptr) o = Of(*x);
        if (y.ok() != (x != nullptr) || (y.ok() && *y != x)) o["code"] = -1;
      } else if (const pb::Enum* x = helper->Info()->GetEnumByTypeUrl(u)) {
        o = Of(*x);
      }
    }
    if (a == "tnull" || a == "enull") {
      o = Of(pb::Type());
      o["code"] = static_cast<int>((a == "tnull" ? r->ResolveMessageType(u, nullptr) : r->ResolveEnumType(u, nullptr)).code());
    }
    o["gone"] = gone + (own && r != mine ? 100 : 0);
    return o;
  }
  bool own;
  int gone = 0;
  std::list<pb::Type> types;
  std::deque<pb::Enum> enums;
  pbutil::TypeResolver* mine = nullptr;
  std::unique_ptr<t::TypeHelper> helper;
};

}  // namespace

int main(int argc, char** argv) {
  std::map<std::string, Maker> kinds = {{"rq", Make<Request>()}, {"rj", Make<Response>()}, {"ow", Make<Writers>()}, {"ev", Make<Events>()},
                                         {"ty", Make<Catalog>()}};
  auto multi = [kinds](const J& in) {
    for (int p = 0; p < 2; ++p) shared_helpers[p] = NewHelper(p != 0);
    sharing = true;
    int before = pbutil::converter::OverlappingCalls();
    pbutil::converter::SetSlowCalls(in.at("threads").get<int>() != 0);
    J out = RunMulti(kinds, in);
    pbutil::converter::SetSlowCalls(false);
    sharing = false;
    // protobuf's TypeInfo is not to be called by two threads at a time.
    if (pbutil::converter::OverlappingCalls() != before) {
      fprintf(stderr, "calls of a TypeInfo at the same time\n");
      abort();
    }
    return out;
  };
  return Main(argc, argv, WithMulti(kinds, {{"rp", RunPaths}, {"e2e", RunEndToEnd}, {"multi", multi}}));
}
