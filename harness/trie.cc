// Executor for the routing trie and its clones.
#include <memory>

#include "common.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_node.h"

namespace t = google::grpc::transcoding;

namespace {

// --------------------------------------------------------------------- trie
J RunTrie(const J& in) {
  std::vector<std::unique_ptr<t::PathMatcherNode>> nodes;
  nodes.emplace_back(new t::PathMatcherNode());
  J out = J::array();
  for (auto& op : in.at("ops")) {
    std::string a = op.at("a").get<std::string>();
    auto& node = nodes[op.at("n").get<int>() - 1];
    J o = J::object();
    if (a == "clone") {
      auto c = node->Clone();
      o["r"] = c != nullptr;
      nodes.push_back(std::move(c));
    } else if (a == "drop") {
      node.reset();
    } else {
      std::vector<std::string> p;
      for (auto& s : op.at("p")) p.push_back(Str(s));
      std::string m = t::HttpMethodKey(Str(op.at("m")), Str(op.at("v")));
      if (a == "ins") {
        t::PathMatcherNode::PathInfo::Builder b;
        for (auto& s : p) {
          if (s == "/.") {
            b.AppendSingleParameterNode();
          } else {
            b.AppendLiteralNode(s);
          }
        }
        o["r"] = node->InsertPath(b.Build(), m,
                                  reinterpret_cast<void*>(op.at("d").get<intptr_t>() * 16),
                                  op.at("mark").get<int>() != 0);
      } else {
        t::PathMatcherLookupResult r;
        node->LookupPath(p.begin(), p.end(), m, &r);
        o["d"] = reinterpret_cast<intptr_t>(r.data) / 16;
        o["dup"] = r.is_multiple;
      }
    }
    out.push_back(o);
  }
  return out;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"trie", RunTrie}}); }
