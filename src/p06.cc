// P06: the elimination structure chosen for a set of cliques is a valid
// (and for tree structures fill-free) elimination order with storage for all fill.
#include "cliques.h"

#include <set>

#include "conex/clique_ordering.h"
#include "conex/supernodal_solver.h"
#include "conex/tree_utils.h"

using namespace verif;
using namespace conex;

namespace {

std::set<int> Set(const std::vector<int>& v) { return std::set<int>(v.begin(), v.end()); }
bool StrictlySorted(const std::vector<int>& v) {
  for (size_t i = 1; i < v.size(); i++)
    if (v[i] <= v[i - 1]) return false;
  return true;
}

// Judges a structure.  Returns the number of fill entries (variables of a
// bag that are not in its clique), or -1 if broken.
int Judge(Ctx& c, const Cliques& cliques, const std::vector<int>& order, const Cliques& sn, const Cliques& sep, const std::string& what) {
  size_t K = cliques.size();
  bool ok = c.Check(order.size() == K && sn.size() == K && sep.size() == K, "order:size", "wrong number of cliques in the order: " + what);
  if (!ok) return -1;
  std::vector<int> pos(K, -1);
  for (size_t i = 0; i < K; i++) {
    if (!c.Check(order[i] >= 0 && order[i] < (int)K && pos[order[i]] < 0, "order:permutation", "the elimination order is not a permutation of the cliques: " + what)) return -1;
    pos[order[i]] = i;
  }
  std::map<int, int> owner;
  std::set<int> all;
  for (auto& k : cliques) all.insert(k.begin(), k.end());
  int fill = 0;
  for (size_t e = 0; e < K; e++) {
    c.Check(StrictlySorted(sn[e]), "supernode:sorted", "a supernode is not sorted: " + what);
    c.Check(StrictlySorted(sep[e]), "separator:sorted", "a separator is not sorted: " + what);
    for (int v : sn[e]) {
      if (!c.Check(!owner.count(v), "supernode:partition", Fmt("variable %d belongs to two supernodes: ", v) + what)) return -1;
      if (!c.Check(all.count(v) > 0, "supernode:foreign", Fmt("variable %d of a supernode is in no clique: ", v) + what)) return -1;
      owner[v] = e;
    }
  }
  if (!c.Check(owner.size() == all.size(), "supernode:cover", "a variable belongs to no supernode: " + what)) return -1;
  for (size_t e = 0; e < K; e++) {
    std::set<int> bag = Set(sn[e]);
    for (int v : sep[e]) {
      if (!c.Check(!bag.count(v), "separator:disjoint", Fmt("variable %d is in the supernode and the separator of a clique: ", v) + what)) return -1;
      if (!c.Check(owner.count(v) && pos[owner[v]] > pos[e], "separator:later", Fmt("separator variable %d is eliminated before its clique: ", v) + what)) return -1;
      bag.insert(v);
    }
    for (int v : cliques[e]) c.Check(bag.count(v) > 0, "bag:clique", Fmt("variable %d of clique %d is in neither its supernode nor its separator: ", v, (int)e) + what);
    for (int v : bag) fill += std::find(cliques[e].begin(), cliques[e].end(), v) == cliques[e].end();
    // Eliminating this clique couples its separator: the coupling needs storage.
    for (int u : sep[e])
      for (int v : sep[e]) {
        if (pos[owner[u]] > pos[owner[v]] || u == v) continue;
        int f = owner[u];
        bool stored = std::binary_search(sn[f].begin(), sn[f].end(), v) || std::binary_search(sep[f].begin(), sep[f].end(), v);
        if (!c.Check(stored, "fill:storage", Fmt("fill (%d,%d) from clique %d has no storage: ", u, v, (int)e) + what)) return -1;
      }
  }
  return fill;
}

void JudgeData(Ctx& c, const Cliques& cliques, const MatrixData& d, int num_vars, const std::string& what) {
  size_t K = cliques.size();
  if (!c.Check(d.N == num_vars && (int)d.permutation.size() == num_vars && (int)d.permutation_inverse.size() == num_vars && d.cliques.size() == K && d.supernode_size.size() == K && d.clique_order.size() == K, "data:size", "matrix data has wrong sizes: " + what)) return;
  for (int v = 0; v < num_vars; v++) {
    if (!c.Check(d.permutation[v] >= 0 && d.permutation[v] < num_vars && d.permutation_inverse[d.permutation[v]] == v, "data:permutation", "permutation and inverse disagree: " + what)) return;
  }
  // Supernode e holds consecutive columns.
  int at = 0;
  std::vector<std::set<int>> column_rows(num_vars);
  for (size_t e = 0; e < K; e++) {
    auto& cl = d.cliques[e];
    if (!c.Check((int)cl.size() >= d.supernode_size[e], "data:clique", "a supernode is larger than its clique: " + what)) return;
    for (int i = 0; i < d.supernode_size[e]; i++) {
      if (!c.Check(cl[i] == at + i, "data:columns", "columns of a supernode are not consecutive: " + what)) return;
      for (size_t j = i; j < cl.size(); j++) column_rows[at + i].insert(cl[j]);
    }
    at += d.supernode_size[e];
    for (size_t j = d.supernode_size[e]; j < cl.size(); j++)
      c.Check(cl[j] >= at && cl[j] < num_vars && (j == (size_t)d.supernode_size[e] || cl[j] > cl[j - 1]), "data:rows", "rows of a separator are not increasing: " + what);
    // Original labels.
    std::vector<int> bag = d.supernodes_original_labels[e];
    bag.insert(bag.end(), d.separators_original_labels[e].begin(), d.separators_original_labels[e].end());
    bool same = bag.size() == cl.size();
    for (size_t j = 0; same && j < bag.size(); j++) same = d.permutation[bag[j]] == cl[j];
    c.Check(same, "data:labels", "original labels do not match the permuted clique: " + what);
    int orig = d.clique_order[e];
    if (!c.Check(orig >= 0 && orig < (int)K, "data:order", "clique order out of range: " + what)) return;
    std::set<int> bs = Set(bag);
    for (int v : cliques[orig]) c.Check(bs.count(v) > 0, "data:clique_order", "a clique is not stored where the clique order says: " + what);
  }
  // Symbolic Cholesky of the union of the cliques in this order.
  std::vector<std::set<int>> rows(num_vars);
  for (auto& k : cliques)
    for (int u : k)
      for (int v : k)
        if (d.permutation[v] > d.permutation[u]) rows[d.permutation[u]].insert(d.permutation[v]);
  long nz = 0;
  for (int j = 0; j < num_vars; j++) {
    for (int i : rows[j]) {
      nz++;
      if (!c.Check(column_rows[j].count(i) > 0, "fill:symbolic", Fmt("entry (%d,%d) of the Cholesky factor has no storage: ", i, j) + what)) return;
    }
    if (!rows[j].empty()) {
      int p = *rows[j].begin();
      for (int i : rows[j])
        if (i > p) rows[p].insert(i);
    }
  }
  c.Count("factor_entries_checked", nz);
}

void Order(Ctx& c, int max_n) {
  CliqueSet cs = RandomCliques(&c.rng, max_n);
  Cliques sorted = cs.cliques;
  Sort(&sorted);
  for (size_t i = 0; i < sorted.size(); i++) {
    auto ref = cs.cliques[i];
    std::sort(ref.begin(), ref.end());
    c.Check(sorted[i] == ref, "sort", "Sort does not sort a clique");
  }
  std::string what = cs.family + " " + verif::Str(cs.cliques);
  int K = sorted.size();
  for (int rep = 0; rep < 3; rep++) {
    int root = c.rng.range(-1, K - 1);
    std::vector<int> order, leaf;
    Cliques sn, sep;
    bool use_leaf = c.rng.chance(.4);
    std::string w = what + Fmt(" root %d", root);
    if (use_leaf) {
      for (int i = 0; i < K; i++) leaf.push_back(c.rng.chance(.6));
      w += " leafs " + verif::Str(leaf);
    }
    bool post = c.rng.chance(.5);
    std::vector<Cliques> po(K);
    if (use_leaf) PickCliqueOrder(sorted, leaf, root, &order, &sn, &sep, post ? &po : nullptr);
    else PickCliqueOrder(sorted, root, &order, &sn, &sep, post ? &po : nullptr);
    int fill = Judge(c, cs.cliques, order, sn, sep, w);
    if (fill < 0) return;
    if (root >= 0) c.Check(order.back() == root, "root", "the requested root is not eliminated last: " + w);
    c.Count("orders");
    c.Count("fill_entries", fill);
    if (post) {
      int contained = 0, listed = 0;
      for (auto& s : sep) {
        bool in = false;
        for (auto& q : sn) in |= !s.empty() && std::includes(q.begin(), q.end(), s.begin(), s.end());
        contained += in;
      }
      for (int i = 0; i < K; i++)
        for (auto& s : po[i]) {
          listed++;
          c.Check(std::includes(sn[i].begin(), sn[i].end(), s.begin(), s.end()), "post", "post ordering lists a separator under a supernode without it: " + w);
        }
      c.Check(listed == contained, "post:count", Fmt("post ordering lists %d of %d separators inside supernodes: ", listed, contained) + w);
    }
    MatrixData d = SupernodesToData(cs.n, order, sn, sep);
    c.Check(d.clique_order == order, "data:order", "clique order changed: " + w);
    JudgeData(c, cs.cliques, d, cs.n, w);
    MatrixData g = use_leaf ? GetData(cs.cliques, leaf, root) : GetData(cs.cliques, root);
    JudgeData(c, cs.cliques, g, cs.n, w + " (GetData)");
    if (root < 0) c.Count("chosen_roots");
  }
  c.Distinct(cs.family + Fmt("%d.%d", cs.n, K));
  if (c.index < 2) c.Sample(what);
}

// Clique trees with separators of bounded size: no fill-in.
void Acyclic(Ctx& c) {
  int K = c.rng.range(1, 12), next = 0;
  Cliques cl;
  bool trees = c.rng.chance(.5);
  for (int k = 0; k < K; k++) {
    std::vector<int> v;
    if (k > 0 && !c.rng.chance(.1)) {
      auto& p = cl[c.rng.range(0, k - 1)];
      int s = trees ? 1 : c.rng.range(1, p.size());
      for (int i : c.rng.subset(p.size(), s)) v.push_back(p[i]);
    }
    int fresh = c.rng.range(v.empty() ? 1 : (trees ? 1 : 0), 3);
    for (int i = 0; i < fresh; i++) v.push_back(next++);
    cl.push_back(v);
  }
  auto perm = c.rng.subset(next, next);
  for (auto& k : cl) {
    for (int& v : k) v = perm[v];
    std::sort(k.begin(), k.end());
  }
  c.rng.shuffle(&cl);
  std::string what = verif::Str(cl);
  for (int root = -1; root < K; root++) {
    std::vector<int> order;
    Cliques sn, sep;
    PickCliqueOrder(cl, root, &order, &sn, &sep);
    int fill = Judge(c, cl, order, sn, sep, what);
    if (fill < 0) return;
    c.Count("acyclic_orders");
    if (trees) {
      c.Check(fill == 0, "acyclic:fill", Fmt("%d fill entries for a tree of cliques (root %d): ", fill, root) + what);
    } else {
      c.Count("junction_tree_orders");
      c.Count("junction_tree_orders_with_fill", fill > 0);
      if (fill > 0 && c.replay) fprintf(stderr, "%d %s\n", root, what.c_str());
    }
  }
  c.Distinct(Fmt("acyclic%d.%d.%d", next, K, trees));
}

void Sets(Ctx& c) {
  auto rnd = [&] {
    std::vector<int> v = c.rng.subset(12, c.rng.range(0, 12));
    std::sort(v.begin(), v.end());
    return v;
  };
  auto a = rnd(), b = rnd();
  std::set<int> sa = Set(a), su = sa, si;
  for (int x : b) {
    su.insert(x);
    if (sa.count(x)) si.insert(x);
  }
  c.Check(UnionOfSorted(a, b) == std::vector<int>(su.begin(), su.end()), "union", "union of {" + verif::Str(a) + "} and {" + verif::Str(b) + "} is wrong");
  std::vector<int> inter = {99};
  IntersectionOfSorted(a, b, &inter);
  c.Check(inter == std::vector<int>(si.begin(), si.end()), "intersection", "intersection of {" + verif::Str(a) + "} and {" + verif::Str(b) + "} is wrong");
  // Relabelling.
  Cliques path = {a, b, {}};
  auto relabel = c.rng.subset(12, 12);
  Cliques moved = Permute(path, relabel);
  bool right = moved.size() == 3;
  for (size_t i = 0; right && i < 3; i++) {
    right = moved[i].size() == path[i].size();
    for (size_t j = 0; right && j < path[i].size(); j++) right = moved[i][j] == relabel[path[i][j]];
  }
  c.Check(right, "permute", "relabelling {" + verif::Str(a) + "} and {" + verif::Str(b) + "} is wrong");
  // Path in a random tree.
  int n = c.rng.range(1, 20);
  auto label = c.rng.subset(n, n);
  std::vector<int> parent(n), height(n);
  parent[label[0]] = label[0];
  height[label[0]] = 0;
  for (int i = 1; i < n; i++) {
    int p = label[c.rng.range(std::max(0, i - c.rng.range(1, 20)), i - 1)];
    parent[label[i]] = p;
    height[label[i]] = height[p] + 1;
  }
  int x = c.rng.range(0, n - 1), y = c.rng.range(0, n - 1);
  auto route = PathInTree(x, y, parent, height);
  auto up = [&](int v) {
    std::vector<int> u{v};
    while (parent[v] != v) u.push_back(v = parent[v]);
    return u;
  };
  auto ux = up(x), uy = up(y);
  int lca = -1;
  std::set<int> sy = Set(uy), want;
  for (int v : ux)
    if (sy.count(v)) {
      lca = v;
      break;
    }
  for (int v : ux) {
    want.insert(v);
    if (v == lca) break;
  }
  for (int v : uy) {
    want.insert(v);
    if (v == lca) break;
  }
  c.Check(route.size() == want.size() && Set(route) == want, "path", Fmt("path from %d to %d has the wrong nodes", x, y));
  c.Check(!route.empty() && route.back() == lca, "path:ancestor", Fmt("path from %d to %d does not end at the common ancestor %d", x, y, lca));
  c.Count("tree_paths");
  c.Distinct(Fmt("tree%d.%d", n, (int)route.size()));
}
}  // namespace

int main(int argc, char** argv) {
  auto many = [](int k, std::function<void(Ctx&)> f) { return [=](Ctx& c) { for (int i = 0; i < k; i++) f(c); }; };
  std::vector<Scenario> s;
  s.push_back({"order", 18000, 80000, many(10, [](Ctx& c) { Order(c, 14); })});
  s.push_back({"large", 600, 3000, [](Ctx& c) { Order(c, 80); }});
  s.push_back({"acyclic", 9000, 30000, many(5, Acyclic)});
  s.push_back({"sets", 6000, 20000, many(50, Sets)});
  return Main(argc, argv, s);
}
