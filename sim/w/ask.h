// Several threads ask one network at the same time; afterwards the same questions are asked alone.
#pragma once
#include "w/network.h"

namespace w {

template <class I, class Build, class MakeQuery>
void ask_concurrently(Build build, MakeQuery make) {
  struct User { std::vector<Query> queries; std::vector<uint32_t> faults; std::vector<Answer> answers; };
  std::vector<User> users;
  std::unique_ptr<I> shared;
  bool burst;
  {
    sim::Quiet q;
    alloc_faults() = sim::flip(1, 4);
    users.resize(1 + sim::choose(3) + (sim::flip(1, 2) ? 1 : 0));
    int per = 1 + sim::choose(5);
    bool same = sim::flip(1, 4);  // all of them ask the same
    for (auto& u : users) {
      if (same && &u != &users[0]) { u.queries = users[0].queries; }
      else for (int i = 0; i < per; ++i) u.queries.push_back(make());
      for (size_t i = 0; i < u.queries.size(); ++i) u.faults.push_back(alloc_faults() && sim::flip(1, 4) ? random_k() : 0);
      u.answers.resize(u.queries.size());
    }
    burst = sim::flip(1, 2);
  }
  shared = build();
  std::vector<int> ids;
  for (auto& u : users) {
    int id = sim::spawn([&u, &shared, burst] {
      for (size_t i = 0; i < u.queries.size(); ++i) {
        if (!burst && sim::flip(1, 3)) sim::sleep_ns(1000 + sim::choose(50000));
        SIM_EVENT("asks " + u.queries[i].what + (u.faults[i] ? " with allocation " + num(u.faults[i]) + " failing" : std::string()));
        Answer a = answer(u.queries[i], *shared, u.faults[i]);
        sim::Quiet q;
        sim::event("is told " + a.text);
        if (a.injected) sim::probe("query_hit_by_allocation_failure");
        u.answers[i] = a;
      }
    });
    sim::Quiet q;
    ids.push_back(id);
  }
  for (int id : ids) sim::join(id);
  if (users.size() > 1) sim::mark_nontrivial();
  // The same questions, asked alone: of one fresh copy, or of a fresh copy each.
  std::unique_ptr<I> copy;
  uint64_t h = 0;
  int fresh = 0;
  for (auto& u : users) {
    for (size_t i = 0; i < u.queries.size(); ++i) {
      if (u.answers[i].injected) continue;
      bool anew = fresh < 4 && sim::flip(1, 4);
      if (anew) ++fresh;
      std::unique_ptr<I> own;
      if (anew) own = build();
      else if (!copy) copy = build();
      Answer a = answer(u.queries[i], anew ? *own : *copy);
      sim::Quiet q;
      if (a.text != u.answers[i].text)
        sim::violation("answer-differs", "asked for the " + u.queries[i].what + " among others, the answer was " + u.answers[i].text + "; asked alone it is " + a.text);
      if (a.text.compare(0, 9, "exception") == 0) sim::probe("query_refused");
      h ^= hash_of(u.queries[i].what + a.text) * (i + 1);
    }
  }
  sim::Quiet q;
  sim::mix_state(h);
  shared.reset();
  copy.reset();
  users.clear();
}

}  // namespace w
