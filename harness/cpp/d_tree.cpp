// C01 routing and summing, C02 structure over edit histories, C15 JSON of trees and containers, C17 leaf indices and kernels
#include "mon.h"
#include <fstream>
#include <unistd.h>
using namespace mon;

// ---------------------------------------------------------------- C02: edits against a shadow tree
struct SNode { int parent = -1, l = -1, r = -1, feat = -1; bool cat = false; double th = 0; vector<uint32_t> cats; vector<double> leaf; };
struct Shadow {
  std::map<int, SNode> nodes; int dim = 1;
  bool leaf(int i) { return nodes[i].l < 0; }
  void erase_below(int i) { SNode& s = nodes[i]; if (s.l < 0) return; int l = s.l, r = s.r; erase_below(l); erase_below(r); nodes.erase(l); nodes.erase(r); nodes[i].l = nodes[i].r = -1; }
  vector<int> leaves() { vector<int> v; for (auto& k : nodes) if (k.second.l < 0) v.push_back(k.first); return v; }
  vector<int> inner() { vector<int> v; for (auto& k : nodes) if (k.second.l >= 0) v.push_back(k.first); return v; }
};
static string shadow_cmp(Tree* t, Shadow& s) {
  string w = tree_check(t);
  if (!w.empty()) return w;
  std::ostringstream o;
  vector<int> re; reachable(t, 0, re);
  if (re.size() != s.nodes.size()) { o << re.size() << " nodes reachable, expected " << s.nodes.size(); return o.str(); }
  for (int id : re) {
    if (!s.nodes.count(id)) { o << "unexpected node " << id; return o.str(); }
    SNode& e = s.nodes[id];
    if (t->LeftChild(id) != e.l || t->RightChild(id) != e.r || t->Parent(id) != e.parent) { o << "links of node " << id << " changed"; return o.str(); }
    if (e.l < 0) {
      auto v = leaf_of(t, id);
      for (int k = 0; k < s.dim; k++) if (!same_bits(v[k], e.leaf[k])) { o << "leaf " << id << "[" << k << "] is " << v[k] << ", was set to " << e.leaf[k]; return o.str(); }
      if (s.dim > 1 && t->LeafVector(id) != e.leaf) { o << "leaf vector of " << id << " differs"; return o.str(); }
    } else {
      if (t->SplitIndex(id) != e.feat) { o << "node " << id << " splits on " << t->SplitIndex(id) << ", set to " << e.feat; return o.str(); }
      bool c = t->NodeType(id) == TreeNodeType::kCategoricalSplitNode;
      if (c != e.cat) { o << "node " << id << " rule kind changed"; return o.str(); }
      if (c ? t->CategoryList(id) != e.cats : !same_bits(t->Threshold(id), e.th)) { o << "rule of node " << id << " changed"; return o.str(); }
      if (c && !t->HasCategoricalSplit()) return "categorical split present but not reported";
    }
  }
  double ss = 0; for (int l : s.leaves()) for (double v : s.nodes[l].leaf) ss += v * v;
  if (!mon::close(t->SumSquaredLeafValues(), ss, 1e-9)) { o << "sum of squared leaf values " << t->SumSquaredLeafValues() << " expected " << ss; return o.str(); }
  return "";
}
static void shadow_from(Tree* t, Shadow& s) {
  s.nodes.clear(); s.dim = t->OutputDimension(); vector<int> re; reachable(t, 0, re);
  for (int id : re) { SNode n; n.parent = t->Parent(id); n.l = t->LeftChild(id); n.r = t->RightChild(id); if (n.l < 0) n.leaf = leaf_of(t, id); else { n.feat = t->SplitIndex(id); n.cat = t->NodeType(id) == TreeNodeType::kCategoricalSplitNode; if (n.cat) n.cats = t->CategoryList(id); else n.th = t->Threshold(id); } s.nodes[id] = n; }
}

SUITE(edit) {
  int dim = r.pick({1, 1, 2, 3, 5});
  Tree live; live.Init(dim); Tree* t = &live;
  Shadow s; s.dim = dim; s.nodes[0].leaf = vector<double>(dim, 0);
  if (dim == 1) { t->SetLeaf(0, 0.5); s.nodes[0].leaf[0] = 0.5; } else { s.nodes[0].leaf = rand_leaf(r, dim); t->SetLeafVector(0, s.nodes[0].leaf); }
  vector<std::unique_ptr<Tree>> kept; vector<Shadow> kept_s; vector<std::unique_ptr<Tree>> pool;
  int steps = r.in(5, 120); double pgrow = r.pick({0.4, 0.5, 0.65}); bool big = cx.kase % 80 == 40; int ncat = 8;
  if (big) { steps = r.in(300, 700); pgrow = 0.68; ncat = r.pick({8, 200}); cx.count("large_cases"); }
  int maxlive = 1;
  string ops;
  for (int k = 0; k < steps; k++) {
    double u = r.uni() * (big ? 0.958 : 1);
    char op;
    if (u < pgrow) {
      op = 'g'; int nid = r.pick(s.leaves()); int f = r.in(0, 6);
      int before = t->NumNodes(), del = t->NumDeletedNodes();
      auto a = rand_leaf(r, dim), b = rand_leaf(r, dim);
      int how = r.in(0, 3); bool cat = how == 1 || how == 3;
      SNode& e = s.nodes[nid]; e.feat = f; e.cat = cat;
      if (cat) { e.cats = rand_cats(r, ncat); } else e.th = r.pick({0.0, -1.5, 1e300, -1e300, 3.0}) * r.uni();
      if (how == 0) { if (dim == 1) t->ExpandNode(nid, f, e.th, a[0], b[0]); else t->ExpandNode(nid, f, e.th, a, b); }
      else if (how == 1) { if (dim == 1) t->ExpandNode(nid, f, e.cats, a[0], b[0]); else t->ExpandNode(nid, f, e.cats, a, b); }
      else { TreeSplit sp = cat ? TreeSplit(e.cats) : TreeSplit(e.th); if (dim == 1) t->ExpandNode(nid, f, sp, a[0], b[0]); else t->ExpandNode(nid, f, sp, a, b); }
      int l = t->LeftChild(nid), q = t->RightChild(nid);
      if (l < 0 || q < 0 || l == q || s.nodes.count(l) || s.nodes.count(q)) { cx.fail("C02", "expand-ids", "split of node %d gave children %d and %d, in use already or invalid (ops %s)", nid, l, q, ops.c_str()); return; }
      e.l = l; e.r = q; SNode nl, nr; nl.parent = nr.parent = nid; nl.leaf = a; nr.leaf = b; s.nodes[l] = nl; s.nodes[q] = nr;
      int grown = t->NumNodes() - before;
      if (grown != std::max(0, 2 - del)) cx.fail("C02", "recycle", "split with %d removed nodes available allocated %d new ones (ops %s)", del, grown, ops.c_str());
    } else if (u < 0.75 && s.nodes.size() > 1) {
      op = 'p'; int nid = r.pick(s.inner()); auto v = rand_leaf(r, dim);
      bool lp = s.leaf(s.nodes[nid].l) && s.leaf(s.nodes[nid].r);
      if (lp && r.flip()) { if (dim == 1) t->ChangeToLeaf(nid, v[0]); else t->ChangeToLeaf(nid, v); }
      else if (r.flip(big ? 0.98 : 0.7) && !lp) continue;  // mostly small prunes, some whole subtrees
      else { if (dim == 1) t->CollapseToLeaf(nid, v[0]); else t->CollapseToLeaf(nid, v); }
      s.erase_below(nid); s.nodes[nid].leaf = v;
    } else if (u < 0.87) {
      op = 'v'; int nid = r.pick(s.leaves()); s.nodes[nid].leaf = rand_leaf(r, dim); set_leaf(t, nid, s.nodes[nid].leaf);
    } else if (u < 0.93) {
      op = 'c'; std::unique_ptr<Tree> c(new Tree());
      if (r.flip()) { c->Init(r.pick({1, 2})); RandTreeOpt ro; ro.grows = r.in(1, 6); rand_grow(r, c.get(), ro); }  // clone over a used tree
      c->CloneFromTree(t);
      if (!(*c == *t)) cx.fail("C02", "clone-eq", "a copy does not compare equal to its source (ops %s)", ops.c_str());
      if (r.flip()) { kept.push_back(std::move(c)); kept_s.push_back(s); }           // keep the copy, edit the source
      else { std::unique_ptr<Tree> src(new Tree()); src->CloneFromTree(t); kept.push_back(std::move(src)); kept_s.push_back(s); pool.push_back(std::move(c)); t = pool.back().get(); }  // go on with the copy
    } else if (u < 0.96) {
      op = 'j'; json j = t->to_json(); t->from_json(j);
    } else if (u < 0.975) {
      op = 'r'; int nd = r.pick({dim, dim, 1, 2, 3}), how = r.in(0, 2); Tree fresh;
      if (how == 0) { t->Reset(); if (t->to_json() != Tree().to_json()) cx.fail("C02", "reset", "a used tree after a reset is not the same as a new one (ops %s)", ops.c_str()); t->Init(nd); }
      else if (how == 1) t->Init(nd);                                  // initialised again without a reset
      else { t->Reset(); t->from_json(json::parse([&] { fresh.Init(nd); return fresh.to_json().dump(); }())); }
      fresh.Init(nd); if (t->to_json() != fresh.to_json() || !(*t == fresh)) cx.fail("C02", "reinit", "a used tree initialised again (way %d) is not the same as a new one (ops %s): %s", how, ops.c_str(), t->to_json().dump().substr(0, 400).c_str());
      dim = s.dim = nd; s.nodes.clear(); s.nodes[0].leaf = vector<double>(dim, 0); if (r.flip()) { s.nodes[0].leaf = rand_leaf(r, dim); set_leaf(t, 0, s.nodes[0].leaf); }
    } else { op = 'q'; if (s.nodes.size() > 1) { auto v = rand_leaf(r, dim); if (dim == 1) t->CollapseToLeaf(0, v[0]); else t->CollapseToLeaf(0, v); s.erase_below(0); s.nodes[0].leaf = v; } }
    ops += op; cx.count(string("op_") + op); cx.count("tree_states_checked");
    string w = shadow_cmp(t, s);
    if (!w.empty()) { cx.fail("C02", "structure", "after edits %s: %s", ops.c_str(), w.c_str()); return; }
    maxlive = std::max(maxlive, (int)s.nodes.size());
    if (s.nodes.size() > 1 && !big) cx.dist("tree_states", digest(t));
  }
  for (size_t i = 0; i < kept.size(); i++) { string w = shadow_cmp(kept[i].get(), kept_s[i]); cx.count("copies_rechecked"); if (!w.empty()) cx.fail("C02", "copy-independence", "a copy changed when its source (or its twin) was edited: %s (ops %s)", w.c_str(), ops.c_str()); }
  cx.count("nodes_max", maxlive > 30);
  cx.sample("edit history " + ops.substr(0, 200) + " -> " + digest(t, true, false).substr(0, 400));
}

// ---------------------------------------------------------------- C02: operations on a whole forest or container
static string root_digest(int dim, const vector<double>& v) { Tree t; t.Init(dim); set_leaf(&t, 0, v); return digest(&t); }
static string ens_cmp(TreeEnsemble* e, const vector<string>& want) {
  std::ostringstream o; bool roots = true; int leaves = 0; double ss = 0;
  if (e->NumTrees() != (int)want.size()) { o << e->NumTrees() << " trees, expected " << want.size(); return o.str(); }
  for (int j = 0; j < e->NumTrees(); j++) {
    Tree* t = e->GetTree(j); string w = tree_check(t); if (!w.empty()) return "tree " + std::to_string(j) + ": " + w;
    if (digest(t) != want[j]) { o << "tree " << j << " is " << digest(t).substr(0, 200) << ", expected " << want[j].substr(0, 200); return o.str(); }
    vector<int> re; reachable(t, 0, re); roots = roots && re.size() == 1;
    for (int id : re) if (t->IsLeaf(id)) { leaves++; for (double v : leaf_of(t, id)) ss += v * v; }
  }
  if (e->AllRoots() != roots) { o << "all trees " << (roots ? "are" : "are not") << " single nodes, reported otherwise"; return o.str(); }
  if (e->NumLeaves() != leaves) { o << e->NumLeaves() << " leaves reported, " << leaves << " present"; return o.str(); }
  if (!mon::close(e->SumLeafSquared(), ss, 1e-9)) { o << "sum of squared leaves " << e->SumLeafSquared() << ", is " << ss; return o.str(); }
  return "";
}
SUITE(whole) {
  bool constant = r.flip(0.6); int dim = constant ? 1 : r.in(1, 3), T = r.in(1, 5), p = 3; bool big = cx.kase % 80 == 40; if (big) { T = r.in(20, 80); cx.count("large_cases"); }
  auto refused = [&](auto f) { try { f(); } catch (std::exception&) { return true; } return false; };
  auto set_all = [&](auto set1, auto setv, vector<double>& v) { if (dim == 1) set1(v[0]); else setv(v); };
  string ops; auto bad = [&](const char* key, const string& w) { if (!w.empty()) cx.fail("C02", key, "after %s: %s (trees %d, dimension %d)", ops.c_str(), w.c_str(), T, dim); return !w.empty(); };
  // one ensemble
  TreeEnsemble e(T, dim, constant); vector<string> want(T, root_digest(dim, vector<double>(dim, 0))); if (bad("new-forest", ens_cmp(&e, want))) return;
  vector<std::unique_ptr<TreeEnsemble>> copies; vector<vector<string>> copies_want;
  for (int k = r.in(4, 25); k > 0; k--) {
    int j = r.in(0, T - 1); Tree* t = e.GetTree(j);
    switch (r.in(0, 6)) {
      case 0: case 1: {
        ops += "S"; bool roots = true; for (int q = 0; q < T; q++) roots = roots && e.GetTree(q)->NumLeaves() == 1;
        auto v = rand_leaf(r, dim); string was = e.to_json().dump();
        bool no = refused([&] { set_all([&](double x) { e.SetLeafValue(x); }, [&](vector<double>& x) { e.SetLeafVector(x); }, v); });
        if (no == roots) { cx.fail(roots ? "C02" : "C28", "set-roots", "setting the roots of %s forest was %s (%s)", roots ? "an all-root" : "a grown", no ? "refused" : "accepted", ops.c_str()); return; }
        if (roots) want.assign(T, root_digest(dim, v)); else if (e.to_json().dump() != was) cx.fail("C28", "set-roots-state", "a refused change of the roots changed the forest"); cx.count(roots ? "roots_set" : "roots_refused");
        vector<double> w(dim + (dim > 1 && r.flip() ? -1 : 1), 0.5);
        if (!refused([&] { e.SetLeafVector(w); })) { cx.fail("C28", "root-dimension", "a root vector of %zu numbers was accepted by a forest of dimension %d", w.size(), dim); return; }
        if (dim > 1 && !refused([&] { e.SetLeafValue(0.5); })) { cx.fail("C28", "root-dimension", "a single root value was accepted by a forest of dimension %d", dim); return; } break; }
      case 2: { ops += "g"; RandTreeOpt o; o.p = p; o.grows = r.in(1, 6); o.prune = 0.4; rand_grow(r, t, o); want[j] = digest(t); break; }
      case 3: { ops += "R"; e.ResetInitTree(j); want[j] = root_digest(dim, vector<double>(dim, 0)); break; }
      case 4: { ops += "r"; e.ResetTree(j); if (e.GetTree(j)->to_json() != Tree().to_json()) { bad("reset-tree", "a tree that was reset is not empty"); return; } e.GetTree(j)->Init(dim); want[j] = root_digest(dim, vector<double>(dim, 0)); break; }
      case 5: { ops += "c"; Tree src; src.Init(dim); RandTreeOpt o; o.p = p; o.grows = r.in(0, 6); rand_grow(r, &src, o); e.CloneFromExistingTree(j, &src); want[j] = digest(&src); rand_grow(r, &src, o); break; }
      default: { ops += "C"; copies.emplace_back(new TreeEnsemble(e)); copies_want.push_back(want); auto& c = *copies.back();
        if (c.OutputDimension() != dim || c.IsLeafConstant() != constant) { bad("copy-settings", "a copied forest has other settings"); return; }
        if (r.flip()) { RandTreeOpt o; o.p = p; int q = r.in(0, T - 1); rand_grow(r, c.GetTree(q), o); copies_want.back()[q] = digest(c.GetTree(q)); } }
    }
    cx.count("forest_states_checked"); if (bad("forest-state", ens_cmp(&e, want))) return;
  }
  for (size_t i = 0; i < copies.size(); i++) if (bad("forest-copy", ens_cmp(copies[i].get(), copies_want[i]))) return;
  if (!big) cx.dist("forest_histories", ops);
  // a container
  ForestContainer fc(T, dim, constant); vector<vector<string>> cw; ops = "container "; auto z = vector<double>(dim, 0);
  auto all = [&](const char* key) { if (fc.NumSamples() != (int)cw.size()) return bad(key, std::to_string(fc.NumSamples()) + " samples, expected " + std::to_string(cw.size()));
    for (size_t s = 0; s < cw.size(); s++) { if (fc.AllRoots(s) != fc.GetEnsemble(s)->AllRoots() || fc.NumLeaves(s) != fc.GetEnsemble(s)->NumLeaves()) return bad(key, "container and forest report different leaves"); if (bad(key, ens_cmp(fc.GetEnsemble(s), cw[s]))) return true; } return false; };
  if (r.flip()) {   // roots set before the first sample: held, not counted; a second time is refused
    auto v = rand_leaf(r, dim), v2 = rand_leaf(r, dim); ops += "I"; vector<double> w(dim + 1, 1.0);
    if (!refused([&] { fc.InitializeRoot(w); }) || (dim > 1 && !refused([&] { fc.InitializeRoot(1.0); }))) { cx.fail("C28", "root-dimension", "a container of dimension %d accepted root values of another dimension", dim); return; }
    set_all([&](double x) { fc.InitializeRoot(x); }, [&](vector<double>& x) { fc.InitializeRoot(x); }, v);
    if (fc.NumSamples() != 0) { bad("init-count", "initial roots are counted as a sample"); return; }
    if (bad("init-roots", ens_cmp(fc.GetEnsemble(0), vector<string>(T, root_digest(dim, v))))) return;
    if (!refused([&] { set_all([&](double x) { fc.InitializeRoot(x); }, [&](vector<double>& x) { fc.InitializeRoot(x); }, v2); })) { cx.fail("C28", "init-twice", "initial roots were set twice"); return; }
    if (bad("init-roots", ens_cmp(fc.GetEnsemble(0), vector<string>(T, root_digest(dim, v))))) return;
    if (r.flip()) { fc.IncrementSampleCount(); cw.push_back(vector<string>(T, root_digest(dim, v))); ops += "+"; }
  }
  for (int k = r.in(3, 14); k > 0; k--) {
    int S = cw.size();
    switch (S ? r.in(0, 6) : 0) {
      case 0: case 1: { ops += "A"; int m = r.in(1, 3); fc.AddSamples(m); for (int q = 0; q < m; q++) cw.push_back(vector<string>(T, root_digest(dim, z))); break; }
      case 2: { ops += "p"; int a = r.in(0, S - 1), b = r.in(0, S - 1); fc.CopyFromPreviousSample(a, b); cw[a] = vector<string>(cw[b]); break; }
      case 3: case 4: { ops += "g"; int s = r.in(0, S - 1), j = r.in(0, T - 1); RandTreeOpt o; o.p = p; o.grows = r.in(1, 5); rand_grow(r, fc.GetEnsemble(s)->GetTree(j), o); cw[s][j] = digest(fc.GetEnsemble(s)->GetTree(j)); break; }
      case 5: { ops += "S"; int s = r.in(0, S - 1); auto v = rand_leaf(r, dim); bool roots = true; for (int j = 0; j < T; j++) roots = roots && fc.GetEnsemble(s)->GetTree(j)->NumLeaves() == 1;
        bool no = refused([&] { set_all([&](double x) { fc.SetLeafValue(s, x); }, [&](vector<double>& x) { fc.SetLeafVector(s, x); }, v); });
        if (no == roots) { cx.fail(roots ? "C02" : "C28", "set-roots", "setting the roots of stored sample %d (%s) was %s", s, roots ? "all roots" : "grown", no ? "refused" : "accepted"); return; }
        if (roots) cw[s].assign(T, root_digest(dim, v)); break; }
      default: { ops += "x"; bool in = r.flip(); int s = in ? -1 : S; vector<double> v(dim, 1.0); string was = fc.to_json().dump();
        if (!refused([&] { fc.GetEnsemble(s); }) || !refused([&] { fc.NumLeaves(s); }) || !refused([&] { fc.CopyFromPreviousSample(0, s); }) || !refused([&] { fc.CopyFromPreviousSample(s, 0); }) || !refused([&] { set_all([&](double x) { fc.SetLeafValue(s, x); }, [&](vector<double>& x) { fc.SetLeafVector(s, x); }, v); }) || !refused([&] { set_all([&](double x) { fc.InitializeRoot(x); }, [&](vector<double>& x) { fc.InitializeRoot(x); }, v); }))
          cx.fail("C28", "sample-number", "sample %d of %d, or initial roots over stored samples, accepted", s, S);
        if (fc.to_json().dump() != was) cx.fail("C28", "sample-number-state", "a refused operation changed the container"); }
    }
    cx.count("container_states_checked"); if (all("container-state")) return;
  }
  // reset, then loaded or left empty
  string doc = fc.to_json().dump(); fc.Reset(); ops += "Z";
  if (fc.NumSamples() != 0 || fc.to_json() != [&] { ForestContainer q(0, 0, false); q.Reset(); return q.to_json(); }()) { bad("container-reset", "a container that was reset is not empty"); return; }
  if (!refused([&] { fc.AddSamples(1); })) { cx.fail("C28", "reset-add", "a container that was reset, with no settings, took a sample"); return; }
  fc.from_json(json::parse(doc)); if (all("container-reload")) return;
  if (fc.NumTrees() != T || fc.OutputDimension() != dim || fc.IsLeafConstant() != constant) bad("container-reload", "settings differ after a reset and a load");
  cx.sample("whole-forest history " + ops);
}

// ---------------------------------------------------------------- C01
struct PData { int n, p, nb; vector<double> X, B; ForestDataset ds; double x(int i, int j) const { return X[(size_t)i * p + j]; } };
static void pdata(Rng& r, PData& d, int p, int nb, int nmin = 1, int nmax = 25, int ncat = 8) {
  d.n = r.in(nmin, nmax); d.p = p; d.nb = nb; d.X.resize((size_t)d.n * p); d.B.resize((size_t)d.n * nb);
  for (auto& v : d.X) {
    double u = r.uni();
    v = u < 0.35 ? r.uni(-2.5, 2.5) : u < 0.8 ? (double)r.in(-2, ncat + 1) : u < 0.86 ? std::numeric_limits<double>::quiet_NaN() : u < 0.9 ? r.pick({4294967295.0, 4294967296.0, 4000000000.0, 1e15, 70000.0}) : u < 0.94 ? r.pick({-1.0, -5.0, -1e9}) : u < 0.97 ? r.uni(0, 7) : r.pick({kInf, -kInf, 0.0, -0.0});
  }
  for (auto& v : d.B) v = r.flip(0.1) ? 0.0 : r.norm();
  bool rm = r.flip();
  if (rm) { d.ds.AddCovariates(d.X.data(), d.n, p, true); if (nb) d.ds.AddBasis(d.B.data(), d.n, nb, true); }
  else {
    vector<double> xc(d.X.size()), bc(d.B.size());
    for (int i = 0; i < d.n; i++) { for (int j = 0; j < p; j++) xc[(size_t)j * d.n + i] = d.x(i, j); for (int k = 0; k < nb; k++) bc[(size_t)k * d.n + i] = d.B[(size_t)i * nb + k]; }
    d.ds.AddCovariates(xc.data(), d.n, p, false); if (nb) d.ds.AddBasis(bc.data(), d.n, nb, false);
  }
}
static void rand_forest(Rng& r, TreeEnsemble* e, int p, int grows = 12, int ncat = 8) {
  RandTreeOpt o; o.p = p; o.ncat = ncat; if (grows > 12) o.prune = 0.1;
  for (int j = 0; j < e->NumTrees(); j++) { Tree* t = e->GetTree(j); set_leaf(t, 0, rand_leaf(r, t->OutputDimension())); o.grows = r.flip(0.15) ? 0 : r.in(grows > 12 ? grows / 2 : 1, grows); rand_grow(r, t, o); }
}
// every so often one dimension of a case is large
struct Sizes { int T, S, p, nmax, grows = 12, ncat = 8; bool big = false; };
static void enlarge(Ctx& cx, Rng& r, Sizes& z, int every, int nbig, bool samples = true) {
  if (cx.kase % every != every / 2) return;
  z.big = true; cx.count("large_cases");
  switch (r.in(0, samples ? 5 : 4)) {
    case 0: z.nmax = nbig; z.T = r.in(1, 3); z.S = std::min(z.S, 2); break;
    case 1: z.T = r.in(20, 130); z.S = std::min(z.S, 2); break;
    case 2: z.grows = r.in(80, 400); z.T = r.in(1, 2); z.S = std::min(z.S, 1); break;
    case 3: z.p = r.in(20, 80); break;
    case 4: z.ncat = r.in(40, 300); break;
    default: z.S = r.in(12, 40); z.T = r.in(1, 3); break;
  }
}
SUITE(predict) {
  bool constant = r.flip(); int dim = constant ? (r.flip(0.85) ? 1 : r.in(2, 3)) : r.in(1, 3);
  Sizes z{r.in(1, 6), r.in(1, 4), r.in(1, 4), 25}; enlarge(cx, r, z, 60, 3000); int T = z.T, S = z.S, p = z.p;
  ForestContainer fc = r.flip() ? ForestContainer(S, T, dim, constant) : ForestContainer(T, dim, constant);
  if (fc.NumSamples() == 0) { int a = r.in(1, S); fc.AddSamples(a); if (a < S) fc.AddSamples(S - a); }
  for (int s = 0; s < S; s++) rand_forest(r, fc.GetEnsemble(s), p, z.grows, z.ncat);
  vector<string> before; for (int s = 0; s < S; s++) before.push_back(digest(fc.GetEnsemble(s)));
  PData d; pdata(r, d, p, constant ? (r.flip(0.3) ? dim : 0) : dim, z.nmax > 25 ? z.nmax / 2 : 1, z.nmax, z.ncat);
  cx.count("rows", d.n); cx.count("predictions", (double)d.n * S * T);
  // reference: per sample, row, tree, dimension
  auto cell = [&](int s, int j, int i) { Tree* t = fc.GetEnsemble(s)->GetTree(j); int nid = route(t, [&](int f) { return d.x(i, f); }); return leaf_of(t, nid); };
  vector<double> ref((size_t)S * d.n), raw((size_t)S * d.n * dim);
  vector<double> mag((size_t)S * d.n);
  for (int s = 0; s < S; s++) for (int i = 0; i < d.n; i++) for (int j = 0; j < T; j++) {
    auto v = cell(s, j, i);
    for (int k = 0; k < dim; k++) { raw[((size_t)s * d.n + i) * dim + k] += v[k]; double c = constant ? (k == 0 ? v[0] : 0) : v[k] * d.B[(size_t)i * d.nb + k]; ref[(size_t)s * d.n + i] += c; mag[(size_t)s * d.n + i] += std::fabs(v[k]) * 4; }
  }
  auto chk = [&](double got, double want, double m, const char* how, int s, int i) { if (!mon::close(got, want, 1e-11, m)) { cx.fail("C01", how, "%s: sample %d row %d predicted %.17g, the routed leaves sum to %.17g (trees=%d dim=%d)", how, s, i, got, want, T, dim); return false; } return true; };
  vector<double> all = fc.Predict(d.ds);
  if (all.size() != ref.size()) { cx.fail("C01", "size", "container prediction has %zu entries, expected %zu", all.size(), ref.size()); return; }
  for (int s = 0; s < S; s++) for (int i = 0; i < d.n; i++) if (!chk(all[(size_t)s * d.n + i], ref[(size_t)s * d.n + i], mag[(size_t)s * d.n + i], "container-predict", s, i)) break;
  vector<double> ar = fc.PredictRaw(d.ds);
  if (ar.size() != raw.size()) { cx.fail("C01", "raw-size", "raw prediction has %zu entries, expected %zu", ar.size(), raw.size()); return; }
  for (size_t q = 0; q < raw.size(); q++) if (!chk(ar[q], raw[q], mag[q / dim], "container-raw", q / ((size_t)d.n * dim), (q / dim) % d.n)) break;
  for (int s = 0; s < S; s++) {
    vector<double> one = fc.PredictRaw(d.ds, s);
    if (one.size() != (size_t)d.n * dim) { cx.fail("C01", "raw1-size", "single raw prediction has %zu entries", one.size()); return; }
    for (size_t q = 0; q < one.size(); q++) if (!chk(one[q], raw[(size_t)s * d.n * dim + q], mag[(size_t)s * d.n + q / dim], "single-raw", s, q / dim)) break;
    // tree ranges with an offset into a larger buffer whose other entries must survive
    TreeEnsemble* e = fc.GetEnsemble(s);
    int a = r.in(0, T), b = r.in(a, T), off = r.in(0, 5);
    vector<double> buf(d.n + off + 3, 777.0), rb((size_t)d.n * dim + off + 3, 777.0);
    if (r.flip()) e->PredictInplace(d.ds, buf, a, b, off);
    else if (constant) e->PredictInplace(d.ds.GetCovariates(), buf, a, b, off);
    else e->PredictInplace(d.ds.GetCovariates(), d.ds.GetBasis(), buf, a, b, off);
    e->PredictRawInplace(d.ds, rb, a, b, off);
    for (int i = 0; i < d.n; i++) {
      double want = 0; vector<double> wr(dim, 0);
      for (int j = a; j < b; j++) { auto v = cell(s, j, i); for (int k = 0; k < dim; k++) { want += constant ? (k == 0 ? v[0] : 0) : v[k] * d.B[(size_t)i * d.nb + k]; wr[k] += v[k]; } }
      if (!chk(buf[i + off], want, mag[(size_t)s * d.n + i], "tree-range", s, i)) break;
      for (int k = 0; k < dim; k++) if (!chk(rb[(size_t)i * dim + k + off], wr[k], mag[(size_t)s * d.n + i], "tree-range-raw", s, i)) break;
    }
    for (size_t q = 0; q < buf.size(); q++) if (((int)q < off || (int)q >= off + d.n) && buf[q] != 777.0) { cx.fail("C01", "range-overwrite", "prediction into an offset wrote entry %zu outside its %d rows at %d", q, d.n, off); break; }
    vector<double> full(d.n + off, 0);
    if (r.flip()) e->PredictInplace(d.ds, full, off); else if (constant) e->PredictInplace(d.ds.GetCovariates(), full, off); else e->PredictInplace(d.ds.GetCovariates(), d.ds.GetBasis(), full, off);
    for (int i = 0; i < d.n; i++) if (!chk(full[i + off], ref[(size_t)s * d.n + i], mag[(size_t)s * d.n + i], "ensemble-predict", s, i)) break;
    vector<double> fr((size_t)d.n * dim + off, 0); e->PredictRawInplace(d.ds, fr, off);
    for (size_t q = 0; q < (size_t)d.n * dim; q++) if (!chk(fr[q + off], raw[(size_t)s * d.n * dim + q], mag[(size_t)s * d.n + q / dim], "ensemble-raw", s, q / dim)) break;
    // by node: one row, and many
    int j = r.in(0, T - 1); Tree* t = e->GetTree(j); vector<int32_t> ids(d.n);
    for (int i = 0; i < d.n; i++) {
      int nid = route(t, [&](int f) { return d.x(i, f); }); ids[i] = nid;
      int got = EvaluateTree(*t, d.ds.GetCovariates(), i);
      if (got != nid) { cx.fail("C01", "evaluate", "row %d evaluates to node %d, rules lead to %d", i, got, nid); break; }
      double want = 0; auto v = leaf_of(t, nid);
      if (dim == 1 && !chk(t->PredictFromNode(nid), v[0], 0, "predict-from-node", s, i)) break;
      if (d.nb) { for (int k = 0; k < dim; k++) want += v[k] * d.B[(size_t)i * d.nb + k]; if (!chk(t->PredictFromNode(nid, d.ds.GetBasis(), i), want, mag[(size_t)s * d.n + i], "predict-from-node-basis", s, i)) break; }
      if (!z.big) cx.dist("routes", digest(t, true, false) + std::to_string(nid));
    }
    if (dim == 1) { vector<double> v(ids.size(), 777.0); t->InplacePredictFromNodes(v, ids); for (int i = 0; i < d.n; i++) if (!chk(v[i], t->LeafValue(ids[i]), 0, "inplace-from-nodes", s, i)) break; }
    if (dim == 1) { auto v = t->PredictFromNodes(ids); for (int i = 0; i < d.n; i++) if (!chk(v[i], t->LeafValue(ids[i]), 0, "predict-from-nodes", s, i)) break; }
    if (d.nb) { auto v = t->PredictFromNodes(ids, d.ds.GetBasis()); for (int i = 0; i < d.n; i++) { double w = 0; for (int k = 0; k < dim; k++) w += t->LeafValue(ids[i], k) * d.B[(size_t)i * d.nb + k]; if (!chk(v[i], w, mag[(size_t)s * d.n + i], "predict-from-nodes-basis", s, i)) break; } }
  }
  for (int s = 0; s < S; s++) if (digest(fc.GetEnsemble(s)) != before[s]) cx.fail("C01", "predict-mutates", "predicting changed stored forest %d", s);
  cx.sample("forest " + digest(fc.GetEnsemble(0)->GetTree(0), false, false) + " rows=" + std::to_string(d.n) + " S=" + std::to_string(S));
}

// rule kinds seen on their own: the split predicates used in training agree with prediction-time routing (no missing values)
SUITE(rules) {
  for (int k = 0; k < 40; k++) {
    Tree t; t.Init(1); TreeSplit sp;
    double th = r.pick({0.0, -1.0, 2.0, 1e6, -1e-3}) + (r.flip() ? 0 : r.norm()); auto cl = rand_cats(r, 10); bool cat = r.flip();
    if (cat) sp = TreeSplit(cl); else sp = TreeSplit(th);
    t.ExpandNode(0, 0, sp, 1.0, 2.0);
    double v = cat ? r.pick({(double)r.in(-3, 12), 4000000000.0, 4294967295.0, 4294967296.0, 1e18, -0.0, 70000.0}) : r.pick({th, std::nextafter(th, 1e308), std::nextafter(th, -1e308), r.norm(), kInf, -kInf});
    Eigen::MatrixXd X(1, 1); X(0, 0) = v;
    int want = route(&t, [&](int) { return v; }), got = EvaluateTree(t, X, 0);
    bool left = sp.SplitTrue(v), rl = cat ? RowSplitLeft(X, 0, 0, cl) : RowSplitLeft(X, 0, 0, th);
    cx.count("rule_evaluations"); cx.dist("routes", hexd(v) + hexd(th) + std::to_string(cat));
    if (got != want) cx.fail("C01", "rule", "value %.17g on %s rule (threshold %.17g) goes to node %d, expected %d", v, cat ? "categorical" : "numeric", th, got, want);
    if (left != (want == t.LeftChild(0)) || rl != left) cx.fail("C01", "rule-train", "value %.17g on %s rule: training predicate says %s, routing says %s", v, cat ? "categorical" : "numeric", left ? "left" : "right", want == t.LeftChild(0) ? "left" : "right");
  }
}

// ---------------------------------------------------------------- C15
static string tmpfile_name() { const char* d = getenv("STVERIF_TMP"); return string(d ? d : "/tmp") + "/stv_json_" + std::to_string((long)getpid()) + ".json"; }
static void same_forest(Ctx& cx, ForestContainer& a, ForestContainer& b, const char* how) {
  if (a.NumSamples() != b.NumSamples() || a.NumTrees() != b.NumTrees() || a.OutputDimension() != b.OutputDimension() || a.IsLeafConstant() != b.IsLeafConstant()) {
    cx.fail("C15", "container-meta", "%s: samples/trees/dim/constant %d/%d/%d/%d became %d/%d/%d/%d", how, a.NumSamples(), a.NumTrees(), a.OutputDimension(), a.IsLeafConstant(), b.NumSamples(), b.NumTrees(), b.OutputDimension(), b.IsLeafConstant()); return; }
  for (int s = 0; s < a.NumSamples(); s++) {
    if (a.NumTrees(s) != b.NumTrees(s) || a.OutputDimension(s) != b.OutputDimension(s) || a.IsLeafConstant(s) != b.IsLeafConstant(s)) cx.fail("C15", "ensemble-meta", "%s: ensemble %d settings differ", how, s);
    for (int j = 0; j < a.NumTrees(); j++) {
      Tree *x = a.GetEnsemble(s)->GetTree(j), *y = b.GetEnsemble(s)->GetTree(j);
      if (digest(x) != digest(y)) { cx.fail("C15", "tree", "%s: sample %d tree %d was %s and became %s", how, s, j, digest(x).substr(0, 500).c_str(), digest(y).substr(0, 500).c_str()); return; }
      if (x->NumNodes() != y->NumNodes() || x->NumDeletedNodes() != y->NumDeletedNodes() || x->NumValidNodes() != y->NumValidNodes() || x->HasCategoricalSplit() != y->HasCategoricalSplit()) cx.fail("C15", "tree-counts", "%s: node counts (total/deleted) %d/%d became %d/%d", how, x->NumNodes(), x->NumDeletedNodes(), y->NumNodes(), y->NumDeletedNodes());
      string w = tree_check(y); if (!w.empty()) cx.fail("C15", "tree-structure", "%s: reloaded tree: %s", how, w.c_str());
    }
  }
}
SUITE(forest_json) {
  bool constant = r.flip(); int dim = constant ? 1 : r.in(1, 3); Sizes z{r.in(1, 4), r.in(0, 4), r.in(1, 4), 25}; enlarge(cx, r, z, 60, 25); int T = z.T, S = z.S, p = z.p;
  ForestContainer fc(T, dim, constant); if (S) fc.AddSamples(S);
  for (int s = 0; s < S; s++) {
    rand_forest(r, fc.GetEnsemble(s), p, z.grows, z.ncat);
    for (int j = 0; j < T; j++) if (r.flip(0.3)) { Tree* t = fc.GetEnsemble(s)->GetTree(j); auto v = rand_leaf(r, dim); v[0] = r.pick({1.7976931348623157e308, 4.9e-324, -1e-310, 0.1, 1.0 / 3, 123456789.123456789, -0.0}); set_leaf(t, r.pick(t->GetLeaves()), v); }
  }
  json j = fc.to_json(); string doc = j.dump();
  ForestContainer used(r.in(1, 3), r.in(1, 2), r.flip()); used.AddSamples(r.in(1, 3));
  for (int s = 0; s < used.NumSamples(); s++) rand_forest(r, used.GetEnsemble(s), 2);
  ForestContainer fresh(1);
  int how = r.in(0, 3); const char* name; ForestContainer* b;
  if (how == 0) { name = "string into a fresh container"; fresh.from_json(json::parse(doc)); b = &fresh; }
  else if (how == 1) { name = "string into a used container"; used.from_json(json::parse(doc)); b = &used; }
  else if (how == 2) { name = "file into a fresh container"; string f = tmpfile_name(); fc.SaveToJsonFile(f); fresh.LoadFromJsonFile(f); remove(f.c_str()); b = &fresh; }
  else { name = "file into a used container"; string f = tmpfile_name(); { std::ofstream o(f); o << string(100000, 'x'); } fc.SaveToJsonFile(f); used.LoadFromJsonFile(f); remove(f.c_str()); b = &used; }
  same_forest(cx, fc, *b, name);
  cx.count("containers_round_tripped"); cx.count("trees_round_tripped", (double)S * T); if (S) cx.dist("documents", doc);
  if (b->to_json().dump() != doc) cx.fail("C15", "idempotent", "%s: writing the reloaded container gives a different document", name);
  if (S) {
    PData d; pdata(r, d, p, constant ? 0 : dim);
    auto x = fc.Predict(d.ds), y = b->Predict(d.ds); for (size_t i = 0; i < x.size(); i++) if (x.size() != y.size() || !same_bits(x[i], y[i])) { cx.fail("C15", "predict", "%s: prediction %zu differs after reload", name, i); break; }
    // go on editing both in the same way
    uint64_t es = r.next(); for (int s = 0; s < S; s++) for (int q = 0; q < T; q++) { Rng a(es + s * 31 + q), c(es + s * 31 + q); RandTreeOpt o; o.p = p; o.grows = 8; o.prune = 0.5; rand_grow(a, fc.GetEnsemble(s)->GetTree(q), o); rand_grow(c, b->GetEnsemble(s)->GetTree(q), o); }
    same_forest(cx, fc, *b, (string(name) + ", after the same further edits").c_str());
    fc.AddSamples(1); b->AddSamples(1); fc.CopyFromPreviousSample(S, S - 1); b->CopyFromPreviousSample(S, S - 1); same_forest(cx, fc, *b, (string(name) + ", after appending a sample").c_str());
  }
  // one tree and one ensemble on their own
  TreeEnsemble e(T, dim, constant); rand_forest(r, &e, p); TreeEnsemble g(r.in(1, 3), r.in(1, 2), r.flip()); g.from_json(json::parse(e.to_json().dump()));
  if (digest(&e) != digest(&g) || g.NumTrees() != T || g.OutputDimension() != dim || g.IsLeafConstant() != constant) cx.fail("C15", "ensemble", "ensemble changed in a round trip");
  Tree u; u.Init(dim); RandTreeOpt o; o.grows = r.in(3, 14); o.prune = 0.5; rand_grow(r, &u, o); if (r.flip()) rand_grow(r, e.GetTree(0), o); u.from_json(json::parse(e.GetTree(0)->to_json().dump()));
  if (digest(&u) != digest(e.GetTree(0))) cx.fail("C15", "tree-into-used", "a tree read into a used tree differs: %s vs %s", digest(&u).substr(0, 400).c_str(), digest(e.GetTree(0)).substr(0, 400).c_str());
  string w = tree_check(&u); if (!w.empty()) cx.fail("C15", "tree-into-used", "a tree read into a used tree: %s", w.c_str());
  if (u.to_json() != e.GetTree(0)->to_json()) cx.fail("C15", "tree-rewrite", "a tree read into a used tree is written as another document");
  { uint64_t es = r.next(); Rng a(es), c(es); o.grows = 10; rand_grow(a, e.GetTree(0), o); rand_grow(c, &u, o); if (digest(&u) != digest(e.GetTree(0))) cx.fail("C15", "tree-edit", "a tree read into a used tree edits differently from the original"); }
  if (S) cx.sample("container S=" + std::to_string(S) + " T=" + std::to_string(T) + " dim=" + std::to_string(dim) + " via " + name);
}

// ---------------------------------------------------------------- C17
SUITE(kernel) {
  int dim = r.flip(0.8) ? 1 : 2; Sizes z{r.in(1, 6), r.in(1, 3), r.in(1, 3), 14}; enlarge(cx, r, z, 60, 220, false); int T = z.T, p = z.p;
  ForestContainer fc(T, dim, dim == 1); fc.AddSamples(z.S); for (int s = 0; s < fc.NumSamples(); s++) rand_forest(r, fc.GetEnsemble(s), p, z.grows, z.ncat);
  TreeEnsemble* e = fc.GetEnsemble(r.in(0, fc.NumSamples() - 1));
  PData a, b; pdata(r, a, p, 0, 1, z.nmax, z.ncat); pdata(r, b, p, 0, 1, z.nmax > 14 ? 90 : 9, z.ncat);
  vector<int> known[2];
  for (int w = 0; w < 2; w++) { PData& d = w ? b : a; for (int j = 0; j < T; j++) for (int i = 0; i < d.n; i++) known[w].push_back(route(e->GetTree(j), [&](int f) { return d.x(i, f); })); }
  auto la = [&](PData& d, int j, int i) { return known[&d == &b][(size_t)j * d.n + i]; };
  auto ia = e->PredictLeafIndices(&a.ds), ib = e->PredictLeafIndices(&b.ds);
  if (ia.size() != (size_t)T * a.n || ib.size() != (size_t)T * b.n) { cx.fail("C17", "size", "leaf index vector has wrong length"); return; }
  int total = e->NumLeaves(); std::map<int, std::pair<int, int>> owner; int maxleaf = 0;
  for (int j = 0; j < T; j++) {
    std::map<int, int> node2idx;
    for (int w = 0; w < 2; w++) { PData& d = w ? b : a; auto& ix = w ? ib : ia; for (int i = 0; i < d.n; i++) {
      int idx = ix[(size_t)j * d.n + i], nid = la(d, j, i); cx.count("leaf_indices");
      if (idx < 0 || idx >= total) { cx.fail("C17", "range", "leaf index %d outside 0..%d", idx, total - 1); return; }
      maxleaf = std::max(maxleaf, idx);
      if (node2idx.count(nid) && node2idx[nid] != idx) { cx.fail("C17", "same-leaf", "tree %d: rows in one leaf have indices %d and %d", j, node2idx[nid], idx); return; }
      node2idx[nid] = idx;
      auto o = std::make_pair(j, nid); if (owner.count(idx) && owner[idx] != o) { cx.fail("C17", "distinct-leaf", "index %d used for leaf %d of tree %d and leaf %d of tree %d", idx, owner[idx].second, owner[idx].first, nid, j); return; }
      owner[idx] = o;
    } }
  }
  // dense: per tree, indices lie in the tree's own block of NumLeaves consecutive numbers
  int base = 0; for (int j = 0; j < T; j++) { int nl = e->GetTree(j)->NumLeaves(); for (int i = 0; i < a.n; i++) { int idx = ia[(size_t)j * a.n + i]; if (idx < base || idx >= base + nl) { cx.fail("C17", "block", "tree %d index %d outside its block %d..%d", j, idx, base, base + nl - 1); return; } } base += nl; }
  { int32_t off = r.in(0, 3), ml = r.in(0, 50); vector<int32_t> out(a.n + off + 2, -9); int j = r.in(0, T - 1); Tree* t = e->GetTree(j);
    if (r.flip()) t->PredictLeafIndexInplace(&a.ds, out, off, ml); else t->PredictLeafIndexInplace(a.ds.GetCovariates(), out, off, ml);
    int b0 = 0; for (int q = 0; q < j; q++) b0 += e->GetTree(q)->NumLeaves();
    for (int i = 0; i < a.n; i++) if (out[i + off] - ml != ia[(size_t)j * a.n + i] - b0) { cx.fail("C17", "one-tree", "leaf index of one tree differs from the ensemble's"); break; }
    for (int q = 0; q < (int)out.size(); q++) if ((q < off || q >= off + a.n) && out[q] != -9) cx.fail("C17", "one-tree-overwrite", "entry %d outside the requested rows was written", q); }
  // kernels, over plain matrices and over views of caller memory (as the R interface uses them)
  auto shares = [&](PData& x, int i, PData& y, int q) { double c = 0; for (int j = 0; j < T; j++) c += la(x, j, i) == la(y, j, q); return c; };
  auto cmp = [&](const Eigen::MatrixXd& K, PData& x, PData& y, const char* what) {
    if (K.rows() != x.n || K.cols() != y.n) { cx.fail("C17", "kernel-shape", "%s kernel is %ldx%ld, expected %dx%d", what, (long)K.rows(), (long)K.cols(), x.n, y.n); return; }
    for (int i = 0; i < x.n; i++) for (int q = 0; q < y.n; q++) { cx.count("kernel_entries"); double wv = shares(x, i, y, q); if (!mon::close(K(i, q), wv, 1e-12)) { cx.fail("C17", "kernel", "%s kernel (%d,%d) = %g, rows share a leaf in %g of %d trees", what, i, q, K(i, q), wv, T); return; } } };
  Eigen::MatrixXd &XA = a.ds.GetCovariates(), &XB = b.ds.GetCovariates();
  KernelMatrixType MA(XA.data(), a.n, p), MB(XB.data(), b.n, p);
  auto mat = [](vector<double>& v, int n, int m) { return KernelMatrixType(v.data(), n, m); };
  ForestKernel k; if (r.flip()) { k.ComputeLeafIndices(XA, *e); } else { k.ComputeLeafIndices(MA, *e); }
  if (k.GetTrainLeafIndices() != ia) cx.fail("C17", "kernel-indices", "kernel leaf indices differ from the ensemble's");
  if (r.flip()) k.ComputeLeafIndices(XA, XB, *e); else k.ComputeLeafIndices(MA, MB, *e);
  if (k.GetTrainLeafIndices() != ia || k.GetTestLeafIndices() != ib) cx.fail("C17", "kernel-indices2", "kernel train/test leaf indices differ from the ensemble's");
  { vector<int32_t> out((size_t)T * a.n + 2, -7); e->PredictLeafIndicesInplace(MA, out, T, a.n); out.resize(ia.size()); if (out != ia) cx.fail("C17", "view-indices", "leaf indices over a view differ from those over the dataset"); }
  ForestKernel k1; if (r.flip()) k1.ComputeKernel(XA, *e); else k1.ComputeKernel(MA, *e); cmp(k1.GetTrainKernel(), a, a, "train");
  for (int pass = 0; pass < 2; pass++) {  // second pass: the same kernel object with the roles swapped
    PData &x = pass ? b : a, &y = pass ? a : b; Eigen::MatrixXd &XX = pass ? XB : XA, &XY = pass ? XA : XB; KernelMatrixType &MX = pass ? MB : MA, &MY = pass ? MA : MB;
    if (r.flip()) k1.ComputeKernel(XX, XY, *e); else k1.ComputeKernel(MX, MY, *e);
    cmp(k1.GetTrainKernel(), x, x, "train"); cmp(k1.GetTestTrainKernel(), y, x, "test-train"); cmp(k1.GetTestKernel(), y, y, "test");
    vector<double> vtr((size_t)x.n * x.n, 5), vtt((size_t)y.n * x.n, 5), vte((size_t)y.n * y.n, 5);
    KernelMatrixType Ktr = mat(vtr, x.n, x.n), Ktt = mat(vtt, y.n, x.n), Kte = mat(vte, y.n, y.n);
    if (r.flip()) k1.ComputeKernelExternal(XX, XY, *e, Ktr, Ktt, Kte); else k1.ComputeKernelExternal(MX, MY, *e, Ktr, Ktt, Kte);
    cmp(Ktr, x, x, "external train"); cmp(Ktt, y, x, "external test-train"); cmp(Kte, y, y, "external test");
    vector<double> v1((size_t)x.n * x.n, 5); KernelMatrixType K1 = mat(v1, x.n, x.n); if (r.flip()) k1.ComputeKernelExternal(XX, *e, K1); else k1.ComputeKernelExternal(MX, *e, K1); cmp(K1, x, x, "external train (one dataset)");
  }
  cx.dist("forests", digest(e, true, false)); cx.sample("forest " + digest(e, false, false).substr(0, 300) + " rows " + std::to_string(a.n) + "/" + std::to_string(b.n));
}
int main(int c, char** v) { return mon::main_(c, v); }
