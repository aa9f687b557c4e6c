// Shared helpers of the conformance harnesses: JSON in, JSON out, one session
// per line. A harness only executes; it never judges. Every judgement is made
// by TLC against the specification in /verif/spec.
#pragma once
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include <nlohmann/json.hpp>

using J = nlohmann::json;

inline std::string Str(const J& a) {
  std::string s;
  s.reserve(a.size());
  for (auto& x : a) s.push_back(static_cast<char>(x.get<int>()));
  return s;
}
inline J Bytes(const std::string& s) {
  J a = J::array();
  for (unsigned char c : s) a.push_back(static_cast<int>(c));
  return a;
}
// TLC integers have 32 bits: wide numbers travel as [hi, lo] in base 2^24.
inline J Wide(uint64_t v) {
  return J::array({static_cast<int64_t>(v >> 24), static_cast<int64_t>(v & 0xFFFFFF)});
}
inline uint64_t UnWide(const J& a) {
  return (a[0].get<uint64_t>() << 24) + a[1].get<uint64_t>();
}

using Runner = std::function<J(const J&)>;

// A session that goes step by step, so that several can be interleaved.
struct Stepper {
  virtual ~Stepper() = default;
  virtual J Step(const J& op) = 0;
  virtual J Done(J ops) { return ops; }
};
using Maker = std::function<std::unique_ptr<Stepper>(const J&)>;
template <class T>
Maker Make() {
  return [](const J& in) { return std::unique_ptr<Stepper>(new T(in)); };
}
inline J RunSteps(const Maker& make, const J& in) {
  auto s = make(in);
  J out = J::array();
  for (auto& op : in.at("ops")) out.push_back(s->Step(op));
  return s->Done(std::move(out));
}

// Several sessions beside each other: interleaved by a schedule (a list of
// session numbers, from 0; a session begins with its first step), or, without
// one, on a thread each, again and again. Gives the distinct outcomes of each.
inline J RunMulti(const std::map<std::string, Maker>& kinds, const J& in) {
  const J& subs = in.at("subs");
  size_t n = subs.size();
  J out = J::array();
  if (in.at("threads").get<int>() == 0) {
    std::vector<std::unique_ptr<Stepper>> live(n);
    std::vector<size_t> at(n, 0);
    std::vector<J> got(n, J::array());
    auto step = [&](size_t i) {
      const J& ops = subs[i].at("ops");
      if (at[i] == ops.size()) return;
      if (at[i] == 0) live[i] = kinds.at(subs[i].at("k").get<std::string>())(subs[i]);
      got[i].push_back(live[i]->Step(ops[at[i]++]));
      if (at[i] == ops.size()) {
        got[i] = live[i]->Done(std::move(got[i]));
        live[i].reset();
      }
    };
    for (auto& x : in.at("sched")) step(x.get<size_t>());
    for (size_t i = 0; i < n; ++i) {
      while (at[i] < subs[i].at("ops").size()) step(i);
    }
    for (size_t i = 0; i < n; ++i) out.push_back(J::array({got[i]}));
    return out;
  }
  std::vector<std::vector<J>> seen(n);
  std::atomic<size_t> go{0};
  std::vector<std::thread> ts;
  int rounds = in.at("rounds").get<int>();
  for (size_t i = 0; i < n; ++i) {
    ts.emplace_back([&, i] {
      const Maker& make = kinds.at(subs[i].at("k").get<std::string>());
      ++go;
      while (go.load() < n) {
      }
      for (int r = 0; r < rounds; ++r) {
        J o = RunSteps(make, subs[i]);
        bool known = false;
        for (auto& x : seen[i]) known = known || x == o;
        if (!known) seen[i].push_back(o);
      }
    });
  }
  for (auto& t : ts) t.join();
  for (auto& s : seen) out.push_back(J(s));
  return out;
}

// One runner per kind, and "multi" for several of them together.
inline std::map<std::string, Runner> WithMulti(std::map<std::string, Maker> kinds,
                                               std::map<std::string, Runner> more = {}) {
  for (auto& k : kinds) {
    Maker m = k.second;
    more[k.first] = [m](const J& in) { return RunSteps(m, in); };
  }
  if (!more.count("multi")) more["multi"] = [kinds](const J& in) { return RunMulti(kinds, in); };
  return more;
}

// Reads sessions from stdin, writes one line {"id":..,"obs":..} per session.
// argv[1], if given, is a per-session time limit in seconds.
inline int Main(int argc, char** argv, const std::map<std::string, Runner>& kinds) {
  unsigned limit = argc > 1 ? static_cast<unsigned>(atoi(argv[1])) : 20;
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    J in = J::parse(line);
    auto it = kinds.find(in.at("k").get<std::string>());
    if (it == kinds.end()) {
      fprintf(stderr, "HARNESS-ERROR unknown session kind\n");
      return 3;
    }
    alarm(limit);
    J obs;
    try {
      obs = it->second(in);
    } catch (const nlohmann::json::exception& e) {
      fprintf(stderr, "HARNESS-ERROR %s in %s\n", e.what(), line.substr(0, 400).c_str());
      return 3;
    }
    alarm(0);
    J out;
    out["id"] = in.at("id");
    out["obs"] = std::move(obs);
    std::cout << out.dump() << "\n";
    std::cout.flush();
  }
  return 0;
}
