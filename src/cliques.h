// Random constraint-variable structures (cliques) with known shape families.
#pragma once
#include "verif.h"

#include <algorithm>

namespace verif {
using Cliques = std::vector<std::vector<int>>;

struct CliqueSet {
  int n = 0;  // primal variables 0..n-1, each in at least one clique
  Cliques cliques;
  std::string family;
};

inline void Cover(Rng* r, CliqueSet* s) {
  std::vector<bool> in(s->n, false);
  for (auto& c : s->cliques)
    for (int v : c) in[v] = true;
  for (int v = 0; v < s->n; v++)
    if (!in[v]) {
      if (r->chance(.5)) {
        s->cliques[r->range(0, s->cliques.size() - 1)].push_back(v);
      } else {
        s->cliques.push_back({v});
      }
    }
}

inline CliqueSet RandomCliques(Rng* r, int max_n) {
  CliqueSet s;
  s.n = r->range(1, max_n);
  int n = s.n;
  switch (r->range(0, 8)) {
    case 0: {
      s.family = "dense";
      int k = r->range(1, 4);
      for (int i = 0; i < k; i++) s.cliques.push_back(r->subset(n, n));
      break;
    }
    case 1: {
      s.family = "random";
      int k = r->range(1, 2 + n);
      for (int i = 0; i < k; i++) s.cliques.push_back(r->subset(n, r->range(1, std::min(n, 4))));
      break;
    }
    case 2: {
      s.family = "path";
      int w = r->range(1, 3);
      for (int i = 0; i < n; i += r->range(1, 2)) {
        std::vector<int> c;
        for (int j = i; j < std::min(n, i + w + 1); j++) c.push_back(j);
        s.cliques.push_back(c);
      }
      break;
    }
    case 3: {
      s.family = "star";
      for (int i = 1; i < n; i++) s.cliques.push_back({0, i});
      if (s.cliques.empty()) s.cliques.push_back({0});
      break;
    }
    case 4: {
      s.family = "disjoint";
      for (int i = 0; i < n;) {
        std::vector<int> c;
        int w = r->range(1, 3);
        for (int j = 0; j < w && i < n; j++) c.push_back(i++);
        s.cliques.push_back(c);
      }
      break;
    }
    case 5: {
      s.family = "cycle";
      for (int i = 0; i < n; i++) {
        if (n == 1) s.cliques.push_back({0});
        else s.cliques.push_back({i, (i + 1) % n});
      }
      if (n == 2) s.cliques.pop_back();
      break;
    }
    case 6: {
      s.family = "nested";
      auto v = r->subset(n, n);
      for (int i = n; i > 0; i -= r->range(1, 3)) s.cliques.push_back(std::vector<int>(v.begin(), v.begin() + i));
      break;
    }
    case 7: {
      s.family = "tree";
      for (int i = 1; i < n; i++) s.cliques.push_back({r->range(0, i - 1), i});
      if (s.cliques.empty()) s.cliques.push_back({0});
      if (r->chance(.5)) s.cliques.push_back(s.cliques[0]);
      break;
    }
    default: {
      s.family = "grid";
      int w = std::max(1, static_cast<int>(std::sqrt(n)));
      for (int i = 0; i < n; i++) {
        std::vector<int> c{i};
        if ((i + 1) % w && i + 1 < n) c.push_back(i + 1);
        if (i + w < n) c.push_back(i + w);
        s.cliques.push_back(c);
      }
    }
  }
  if (s.cliques.empty()) s.cliques.push_back({0});
  Cover(r, &s);
  // Relabel and reorder.
  if (r->chance(.7)) {
    auto p = r->subset(n, n);
    for (auto& c : s.cliques)
      for (int& v : c) v = p[v];
  }
  for (auto& c : s.cliques) {
    if (r->chance(.5)) r->shuffle(&c);
    else std::sort(c.begin(), c.end());
  }
  if (r->chance(.6)) r->shuffle(&s.cliques);
  return s;
}

inline std::string Str(const Cliques& c) {
  std::string s;
  for (auto& k : c) s += "{" + Str(k) + "}";
  return s;
}
}  // namespace verif
