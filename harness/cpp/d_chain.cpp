// C03 training bookkeeping, C04 residual conservation, C05 append-only sample history, C06 legal splits, C15 continuing after a reload
#include "chain.h"
using namespace mon;

// how many single grow / prune edits separate b from a; -1 if it is more than that
static int edit_distance(Tree* a, int na, Tree* b, int nb) {
  bool la = a->IsLeaf(na), lb = b->IsLeaf(nb);
  if (la && lb) return 0;
  auto fringe = [](Tree* t, int n) { return t->IsLeaf(t->LeftChild(n)) && t->IsLeaf(t->RightChild(n)); };
  if (la) return fringe(b, nb) ? 1 : -1;
  if (lb) return fringe(a, na) ? 1 : -1;
  if (a->SplitIndex(na) != b->SplitIndex(nb) || a->NodeType(na) != b->NodeType(nb)) return -1;
  if (a->NodeType(na) == TreeNodeType::kCategoricalSplitNode ? a->CategoryList(na) != b->CategoryList(nb) : !same_bits(a->Threshold(na), b->Threshold(nb))) return -1;
  int l = edit_distance(a, a->LeftChild(na), b, b->LeftChild(nb)), q = edit_distance(a, a->RightChild(na), b, b->RightChild(nb));
  return l < 0 || q < 0 ? -1 : l + q;
}
static void check_tracker(Ctx& cx, Part& p, bool gfr, const string& hist) {
  int n = p.d.n;
  for (int j = 0; j < p.T; j++) {
    Tree* t = p.cur()->GetTree(j);
    string w = tree_check(t); if (!w.empty()) { cx.fail("C03", "tree-structure", "tree %d after %s: %s", j, hist.c_str(), w.c_str()); return; }
    vector<int> nodes; reachable(t, 0, nodes);
    std::map<int, std::set<int>> rows;
    for (int i = 0; i < n; i++) {
      int nid = p.leaf(j, i); cx.count("row_leaf_checks");
      if ((int)p.tr->GetNodeId(i, j) != nid) { cx.fail("C03", "row-leaf", "after %s: row %d of tree %d is recorded in node %d but reaches leaf %d", hist.c_str(), i, j, (int)p.tr->GetNodeId(i, j), nid); return; }
      double cached = p.tr->GetTreeSamplePrediction(i, j), now = p.tree_fit(j, i);
      if (!mon::close(cached, now, 1e-10)) { cx.fail("C03", "cached-prediction", "after %s: row %d tree %d remembered prediction %.17g, tree gives %.17g", hist.c_str(), i, j, cached, now); return; }
      for (int a = nid; a != -1; a = t->Parent(a)) rows[a].insert(i);
    }
    for (int nid : nodes) {
      auto b = p.tr->UnsortedNodeBeginIterator(j, nid), e = p.tr->UnsortedNodeEndIterator(j, nid);
      vector<int> got(b, e); std::set<int> gs(got.begin(), got.end()); cx.count("node_row_sets");
      if (gs.size() != got.size() || gs != rows[nid] || (int)p.tr->UnsortedNodeSize(j, nid) != (int)rows[nid].size()) { cx.fail("C03", "node-rows", "after %s: tree %d node %d holds %zu rows (%zu distinct), %zu rows reach it", hist.c_str(), j, nid, got.size(), gs.size(), rows[nid].size()); return; }
    }
    if (gfr && j == p.T - 1) for (int f = 0; f < p.d.p; f++) for (int nid : nodes) {
      auto b = p.tr->SortedNodeBeginIterator(nid, f), e = p.tr->SortedNodeEndIterator(nid, f);
      vector<int> got(b, e); std::set<int> gs(got.begin(), got.end()); cx.count("sorted_orders");
      if (gs.size() != got.size() || gs != rows[nid]) { cx.fail("C03", "sorted-rows", "after %s: sorted order of feature %d at node %d holds other rows than reach it", hist.c_str(), f, nid); return; }
      if (t->IsLeaf(nid)) for (size_t q = 1; q < got.size(); q++) if (p.d.x(got[q - 1], f) > p.d.x(got[q], f)) { cx.fail("C03", "sorted-order", "after %s: sorted order of feature %d at node %d is not ascending", hist.c_str(), f, nid); return; }
    }
    // legality of every rule
    if (nodes.size() > 1) cx.dist("split_trees", digest(t, true, false));
    for (int nid : nodes) {
      if (t->IsLeaf(nid)) {
        if (nodes.size() > 1 && (rows[nid].empty() || (int)rows[nid].size() < p.min_leaf)) { cx.fail("C06", rows[nid].empty() ? "empty-leaf" : "leaf-size", "after %s: tree %d leaf %d holds %zu rows, the floor is %d", hist.c_str(), j, nid, rows[nid].size(), p.min_leaf); return; }
        continue;
      }
      int f = t->SplitIndex(nid); cx.count("splits_checked");
      if (f < 0 || f >= p.d.p) { cx.fail("C06", "variable", "split on variable %d of %d", f, p.d.p); return; }
      if (p.d.vw[f] <= 0) { cx.fail("C06", "zero-weight", "after %s: tree %d splits on variable %d, whose weight is 0", hist.c_str(), j, f); return; }
      double lo = kInf, hi = -kInf; std::set<double> vals; for (int i : rows[nid]) { double v = p.d.x(i, f); lo = std::min(lo, v); hi = std::max(hi, v); vals.insert(v); }
      if (t->NodeType(nid) == TreeNodeType::kCategoricalSplitNode) {
        if (p.d.types[f] != FeatureType::kUnorderedCategorical) { cx.fail("C06", "rule-kind", "categorical rule on a variable that is not categorical"); return; }
        auto c = t->CategoryList(nid); if (c.empty()) cx.fail("C06", "empty-list", "empty category list");
        if (gfr) for (auto v : c) if (!vals.count((double)v)) { cx.fail("C06", "category-unseen", "after %s: tree %d node %d lists category %u, not present at the node", hist.c_str(), j, nid, v); return; }
      } else {
        double th = t->Threshold(nid);
        if (!(th >= lo && th <= hi)) { cx.fail("C06", "threshold-range", "after %s: tree %d node %d splits variable %d at %.17g, the rows there span [%.17g, %.17g]", hist.c_str(), j, nid, f, th, lo, hi); return; }
        if (gfr && !vals.count(th)) { cx.fail("C06", "threshold-observed", "after %s: grow-from-root split variable %d at %.17g, not a value at the node", hist.c_str(), f, th); return; }
        if (gfr && p.d.types[f] == FeatureType::kUnorderedCategorical) { cx.fail("C06", "rule-kind", "grow-from-root used a numeric rule on a categorical variable"); return; }
      }
    }
  }
}
static bool check_resid(Ctx& cx, Session& s, const string& hist, const char* when) {
  for (int i = 0; i < s.n; i++) {
    double f = s.fitted(i), e = s.resid.GetElement(i); cx.count("residual_rows");
    if (!(std::fabs(e + f - s.y[i]) <= 1e-8 * (1 + s.ymag + std::fabs(f)))) { cx.fail("C04", when, "after %s: row %d residual %.12g + fitted %.12g = %.12g, outcome is %.12g (%s)", hist.c_str(), i, e, f, e + f, s.y[i], s.desc().c_str()); return false; }
  }
  return true;
}
SUITE(chain) {
  Session s; Large L; int steps = r.in(2, 12), repmax = 6;
  if (cx.kase % 60 == 30) {   // one dimension of the session is large
    cx.count("large_cases");
    switch (r.in(0, 5)) { case 0: L.n = r.in(600, 2500); steps = r.in(2, 3); repmax = 3; break; case 1: L.T = r.in(15, 80); steps = r.in(2, 4); break; case 2: L.p = r.in(15, 60); break; case 3: L.ncat = r.in(20, 120); steps = r.in(2, 5); break; case 4: L.dim = r.in(4, 7); break; default: steps = r.in(20, 40); repmax = 12; }
  }
  s.build(r, r.flip(0.05) ? 300 : L.T ? 40 : repmax > 6 ? 25 : 60, 4, true, L.dim ? 2 : -1, L);
  string hist; std::mt19937 gen((unsigned)r.next());
  if (!check_resid(cx, s, "initialising", "initialise")) return;
  vector<vector<string>> dig(s.parts.size());
  for (int k = 0; k < steps; k++) {
    double u = r.uni();
    if (s.rfx && u < 0.2) {
      hist += 'r'; s.rfx->m->SampleRandomEffects(s.rfx->ds, s.resid, *s.rfx->tr, r.uni(0.1, 2), gen); s.rfx->started = true; cx.count("rfx_passes");
      for (int i = 0; i < s.n; i++) if (!mon::close(s.rfx->tr->GetPrediction(i), s.rfx->fit(i), 1e-9)) { cx.fail("C03", "rfx-cached", "after %s: row %d remembered random effect %.12g, parameters give %.12g", hist.c_str(), i, s.rfx->tr->GetPrediction(i), s.rfx->fit(i)); return; }
      if (!check_resid(cx, s, hist, "random-effects")) return;
      continue;
    }
    int f = r.in(0, (int)s.parts.size() - 1); Part& p = *s.parts[f];
    if (u < 0.32 && (p.started || p.preinit)) {  // take the contribution out and put it back
      hist += '-'; bool plus_first = r.flip(0.7);
      vector<double> before(s.n); for (int i = 0; i < s.n; i++) before[i] = s.resid.GetElement(i);
      bool single = r.flip(0.4); int j = r.in(0, p.T - 1); bool tn = r.flip();
      auto apply = [&](bool plus) { std::function<double(double, double)> op; if (plus) op = std::plus<double>(); else op = std::minus<double>();
        if (single) UpdateResidualTree(*p.tr, p.d.ds, s.resid, p.cur()->GetTree(j), j, p.basis(), op, tn); else UpdateResidualEntireForest(*p.tr, p.d.ds, s.resid, p.cur(), p.basis(), op); };
      if (!single && p.started && p.fc->NumSamples() > 1 && r.flip()) {  // another stored forest: its own fits, whatever the current partition
        TreeEnsemble* e = p.fc->GetEnsemble(r.in(0, p.fc->NumSamples() - 2)); std::function<double(double, double)> add = std::plus<double>(), sub = std::minus<double>();
        for (int z = 0; z < 2; z++) { bool plus = z ? !plus_first : plus_first; UpdateResidualEntireForest(*p.tr, p.d.ds, s.resid, e, p.basis(), plus ? add : sub);
          if (!z) for (int i = 0; i < s.n; i++) { double c = p.fit(e, i); if (!mon::close(s.resid.GetElement(i), before[i] + (plus ? c : -c), 1e-9, std::fabs(c) + s.ymag)) { cx.fail("C04", "stored-forest", "after %s: %s an earlier forest changed row %d from %.12g to %.12g; its contribution is %.12g", hist.c_str(), plus ? "adding" : "removing", i, before[i], s.resid.GetElement(i), c); return; } } }
        cx.count("stored_forest_round_trips"); for (int i = 0; i < s.n; i++) before[i] = s.resid.GetElement(i);
      }
      apply(plus_first);
      for (int i = 0; i < s.n; i++) { double c = single ? p.tree_fit(j, i) : p.fit(i); double want = before[i] + (plus_first ? c : -c); if (!mon::close(s.resid.GetElement(i), want, 1e-9, std::fabs(c) + s.ymag)) { cx.fail("C04", single ? "one-tree" : "whole-forest", "after %s: %s %s changed row %d from %.12g to %.12g; its contribution is %.12g", hist.c_str(), plus_first ? "adding" : "removing", single ? "a tree" : "a forest", i, before[i], s.resid.GetElement(i), c); return; } }
      apply(!plus_first); cx.count("contribution_round_trips");
      for (int i = 0; i < s.n; i++) if (!mon::close(s.resid.GetElement(i), before[i], 1e-9, s.ymag + std::fabs(p.fit(i)))) { cx.fail("C04", "restore", "after %s: adding and removing a contribution changed row %d from %.12g to %.12g", hist.c_str(), i, before[i], s.resid.GetElement(i)); return; }
      check_tracker(cx, p, false, hist);
      continue;
    }
    bool gfr = r.flip(0.4); int grid = r.pick({1, 2, 3, 7, 20, 100, 500});
    if (r.flip(0.3)) p.scale(r);
    if (p.kind > 0 && r.flip(0.25)) { hist += 'b'; p.new_basis(r); cx.count("basis_updates"); }
    if (gfr && p.started && r.flip(0.4)) { p.new_prior(r); for (double& v : p.d.vw) v = r.flip(0.7) ? r.uni(0.1, 1) : 0; double t = 0; for (double v : p.d.vw) t += v; if (t <= 0) p.d.vw[r.in(0, p.d.p - 1)] = t = 1; for (double& v : p.d.vw) v /= t; }
    if (p.kind == 2 && !p.started && !p.preinit) { double m = 0; for (int i = 0; i < s.n; i++) m += s.resid.GetElement(i); if (std::fabs(m / s.n / p.T) > 0.09) continue; }
    int before = p.started ? p.fc->NumSamples() : 0; double s2 = r.pick({0.02, 0.3, 2.0});
    int reps = gfr ? 1 : r.in(1, repmax);
    for (int q = 0; q < reps; q++) {
      p.pass(gfr, grid, s.resid, gen, s2); hist += gfr ? 'G' : 'M'; if (f) hist += '2'; cx.count(gfr ? "gfr_passes" : "mcmc_passes");
      if (p.fc->NumSamples() != before + 1) { cx.fail("C05", "append", "after %s: container holds %d samples, expected %d", hist.c_str(), p.fc->NumSamples(), before + 1); return; }
      before++;
      if ((int)dig[f].size() != before - 1) { cx.fail("C05", "append", "sample bookkeeping: %zu vs %d", dig[f].size(), before); return; }
      for (size_t g = 0; g < s.parts.size(); g++) for (size_t a = 0; a < dig[g].size(); a++) { cx.count("old_samples_rechecked"); if (digest(s.parts[g]->fc->GetEnsemble(a)) != dig[g][a]) { cx.fail("C05", "rewritten", "after %s: stored sample %zu of forest %zu changed", hist.c_str(), a, g); return; } }
      if (!gfr && before > 1) for (int j = 0; j < p.T; j++) { int e = edit_distance(p.fc->GetEnsemble(before - 2)->GetTree(j), 0, p.cur()->GetTree(j), 0); cx.count(e == 0 ? "mcmc_tree_unchanged" : "mcmc_tree_moved"); if (e < 0 || e > 1) { cx.fail("C05", "one-move", "after %s: a Metropolis pass changed tree %d by more than one split or prune: %s -> %s", hist.c_str(), j, digest(p.fc->GetEnsemble(before - 2)->GetTree(j), false, false).c_str(), digest(p.cur()->GetTree(j), false, false).c_str()); return; } }
      if (!gfr && before == 1) for (int j = 0; j < p.T; j++) if (p.cur()->GetTree(j)->NumLeaves() > 2) { cx.fail("C05", "one-move", "the first Metropolis pass gave a tree with %d leaves", p.cur()->GetTree(j)->NumLeaves()); return; }
      if (gfr) for (int j = 0; j < p.T; j++) if (p.cur()->GetTree(j)->NumDeletedNodes() != 0 || p.cur()->GetTree(j)->NumNodes() != p.cur()->GetTree(j)->NumValidNodes()) { cx.fail("C05", "fresh-tree", "after %s: a grow-from-root tree carries removed nodes", hist.c_str()); return; }
      dig[f].push_back(digest(p.cur()));
      check_tracker(cx, p, gfr, hist);
      if (!check_resid(cx, s, hist, gfr ? "gfr-pass" : "mcmc-pass")) return;
      if (cx.seen.size() > 8) return;
    }
  }
  // changing the newest sample through its own interface leaves all others and the containers apart
  Part& p = *s.parts[0];
  if (p.started && dig[0].size() > 1) {
    ForestContainer copy(1); copy.from_json(p.fc->to_json()); Tree* t = p.cur()->GetTree(0);
    RandTreeOpt o; o.p = p.d.p; o.grows = 3; rand_grow(r, t, o); p.fc->AddSamples(1); p.fc->CopyFromPreviousSample(dig[0].size(), 0); rand_grow(r, p.fc->GetEnsemble(dig[0].size())->GetTree(0), o);
    for (size_t a = 0; a + 1 < dig[0].size(); a++) if (digest(p.fc->GetEnsemble(a)) != dig[0][a]) { cx.fail("C05", "shared-state", "editing the newest sample or a copy of sample 0 changed stored sample %zu", a); return; }
    for (size_t a = 0; a < dig[0].size(); a++) if (digest(copy.GetEnsemble(a)) != dig[0][a]) { cx.fail("C05", "shared-state", "editing a container changed its copy"); return; }
    cx.count("independence_checks");
  }
  cx.dist("histories", hist + s.desc()); cx.sample(hist + " on " + s.desc());
}
// C15: a container reloaded in mid-chain continues exactly as the original would have (and the same seed repeats: C19)
SUITE(resume) {
  uint64_t seed = r.next(); int mid = r.in(1, 5), total = mid + r.in(1, 4); unsigned gs = (unsigned)r.next();
  vector<string> out[2];
  for (int run = 0; run < 2; run++) {
    Rng q(seed); Session s; s.build(q, 50, 3, false); std::mt19937 gen(gs);
    Part& p = *s.parts[0]; p.preinit = p.preinit;
    for (int k = 0; k < total; k++) {
      if (run == 1 && k == mid) {
        json j = p.fc->to_json(); string doc = j.dump();
        if (q.flip()) p.fc.reset(new ForestContainer(2, 1, true)); else { p.fc->AddSamples(1); }
        p.fc->from_json(json::parse(doc));
      } else if (k == mid) q.flip();
      bool gfr = q.flip(0.3); int grid = q.pick({3, 20, 100});
      p.pass(gfr, grid, s.resid, gen, 0.3);
      out[run].push_back(digest(p.cur())); cx.count("passes");
    }
    for (int a = 0; a < p.fc->NumSamples(); a++) out[run].push_back(digest(p.fc->GetEnsemble(a)));
    string rs; for (int i = 0; i < s.n; i++) rs += hexd(s.resid.GetElement(i)) + ","; out[run].push_back(rs);
    if (run == 0) { cx.dist("resumed", out[0].back()); cx.sample(s.desc()); }
  }
  for (size_t k = 0; k < out[0].size(); k++) if (k >= out[1].size() || out[0][k] != out[1][k]) {
    if ((int)k < mid) cx.fail("C19", "repeat", "the same chain run twice with the same seed differs at pass %zu", k);
    else cx.fail("C15", "resume", "a container reloaded after pass %d continues differently from the original (first difference at record %zu of %zu)", mid, k, out[0].size());
    break;
  }
}
// C03 the row-tracking structures, driven through every way of splitting and pruning, against plain sets of rows
SUITE(partition) {
  Data d; GenOpt o; o.nmin = 1; o.nmax = r.flip(0.05) ? 400 : 40; if (cx.kase % 150 == 75) { o.nmin = 800; o.nmax = 2500; cx.count("large_cases"); } o.pmax = 4; o.pw = 0; gen_data(r, d, o);
  if (r.flip(0.15)) for (int q = 0; q < 3; q++) { size_t at = r.next() % d.X.size(); d.X[at] = d.types[at % d.p] == FeatureType::kNumeric ? r.pick({-1.0, 0.0, 5e9, 1e300, -1e300, 2.5}) : r.pick({0.0, 4e9, 1e6, 2.5}); }
  d.ds = ForestDataset(); d.load();
  Eigen::MatrixXd& X = d.ds.GetCovariates(); int T = r.in(1, 3), n = d.n;
  ForestTracker tr(X, d.types, T, n); UnsortedNodeSampleTracker un(n, T); SampleNodeMapper map2(T, n), *map1 = tr.GetSampleNodeMapper();
  for (int j = 0; j < T; j++) map2.AssignAllSamplesToRoot(j);
  FeaturePresortRootContainer root(X, d.types); std::unique_ptr<SortedNodeSampleTracker> so(new SortedNodeSampleTracker(&root, X, d.types));
  struct Sh { std::map<int, vector<int>> rows; std::map<int, int> par, lt, rt; std::set<int> freed; int next = 1; vector<int> at; };
  auto fresh = [&]() { Sh s; s.rows[0].resize(n); std::iota(s.rows[0].begin(), s.rows[0].end(), 0); s.par[0] = -1; s.at.assign(n, 0); return s; };
  vector<Sh> sh(T); for (auto& s : sh) s = fresh();
  vector<std::unique_ptr<Tree>> trees; for (int j = 0; j < T; j++) { trees.emplace_back(new Tree()); trees[j]->Init(1); }
  std::map<int, vector<int>> srows; int snext = 1; srows[0] = sh[0].rows[0]; std::set<int> sleaf = {0};  // the presorted tracker belongs to one growing tree
  string hist; bool ok = true;
  auto bad = [&](const char* key, string msg) { if (ok) cx.fail("C03", key, "after %s: %s (%s)", hist.c_str(), msg.c_str(), d.desc().c_str()); ok = false; };
  auto num = [](double v) { return std::to_string(v); };
  auto compare = [&]() {
    for (int j = 0; j < T && ok; j++) {
      Sh& s = sh[j];
      for (int i = 0; i < n; i++) {
        if ((int)tr.GetNodeId(i, j) != s.at[i] || (int)map1->GetNodeId(i, j) != s.at[i]) { bad("partition-row", "row " + num(i) + " of tree " + num(j) + " is recorded in node " + num(tr.GetNodeId(i, j)) + ", it is in " + num(s.at[i])); return; }
        if ((int)map2.GetNodeId(i, j) != s.at[i]) { bad("partition-remap", "row " + num(i) + " of tree " + num(j) + " is mapped to node " + num(map2.GetNodeId(i, j)) + ", it is in " + num(s.at[i])); return; }
      }
      for (auto& kv : s.rows) {
        int nid = kv.first; bool leaf = !s.lt.count(nid); cx.count("partition_nodes");
        vector<int> want = kv.second, a = un.TreeNodeIndices(j, nid), b(tr.UnsortedNodeBeginIterator(j, nid), tr.UnsortedNodeEndIterator(j, nid)), c(un.NodeBeginIterator(j, nid), un.NodeEndIterator(j, nid)), e = tr.GetUnsortedNodeSampleTracker()->GetFeaturePartition(j)->NodeIndices(nid);
        for (auto* v : {&a, &b, &c, &e}) { std::sort(v->begin(), v->end()); if (*v != want) { bad("partition-rows", "tree " + num(j) + " node " + num(nid) + " holds " + num(v->size()) + " rows that are not the " + num(want.size()) + " rows reaching it"); return; } }
        if (un.NodeSize(j, nid) != (int)want.size() || un.NodeEnd(j, nid) - un.NodeBegin(j, nid) != (int)want.size() || tr.UnsortedNodeSize(j, nid) != (int)want.size() || tr.UnsortedNodeEnd(j, nid) - tr.UnsortedNodeBegin(j, nid) != (int)want.size()) { bad("partition-size", "tree " + num(j) + " node " + num(nid) + " reports the wrong size"); return; }
        if (!un.IsValidNode(j, nid) || un.IsLeaf(j, nid) != leaf || un.Parent(j, nid) != s.par[nid]) { bad("partition-links", "tree " + num(j) + " node " + num(nid) + " reports the wrong parent or status"); return; }
        if (!leaf && (un.LeftNode(j, nid) != s.lt[nid] || un.RightNode(j, nid) != s.rt[nid] || un.LeftNodeIsLeaf(j, nid) == (s.lt.count(s.lt[nid]) > 0) || un.RightNodeIsLeaf(j, nid) == (s.lt.count(s.rt[nid]) > 0))) { bad("partition-links", "tree " + num(j) + " node " + num(nid) + " reports the wrong children"); return; }
      }
      for (int f : s.freed) if (un.IsValidNode(j, f)) { bad("partition-links", "tree " + num(j) + " node " + num(f) + " was pruned and counts as valid"); return; }
      if (un.IsValidNode(j, -1) || un.IsValidNode(j, s.next + 5)) { bad("partition-links", "a node that never existed counts as valid"); return; }
    }
    for (auto& kv : srows) for (int f = 0; f < d.p && ok; f++) {
      int nid = kv.first; vector<int> a = so->NodeIndices(nid, f), b(so->NodeBeginIterator(nid, f), so->NodeEndIterator(nid, f)), w = a; std::sort(w.begin(), w.end()); cx.count("presorted_nodes");
      if (w != kv.second || b != a || so->NodeSize(nid, f) != (int)w.size() || so->NodeEnd(nid, f) - so->NodeBegin(nid, f) != (int)w.size()) { bad("presorted-rows", "presorted node " + num(nid) + " feature " + num(f) + " holds other rows than reach it"); return; }
      for (size_t q = 0; q < a.size(); q++) if ((int)so->SortIndex(so->NodeBegin(nid, f) + q, f) != a[q]) { bad("presorted-rows", "sort index disagrees with node rows"); return; }
      if (sleaf.count(nid)) for (size_t q = 1; q < a.size(); q++) if (auto key = [&](int i) { double v = d.x(i, f); return std::make_tuple(!std::isnan(v), std::isnan(v) ? 0.0 : v, i); }; key(a[q - 1]) > key(a[q])) { bad("presorted-order", "presorted node " + num(nid) + " feature " + num(f) + " is not in ascending order (missing values first, ties by row)"); return; }
    }
  };
  auto goes_left = [&](int i, int f, bool cat, double th, const vector<uint32_t>& cl) { double v = d.x(i, f); if (std::isnan(v)) return true; if (!cat) return v <= th; if (v < 0 || v > 4294967295.0) return false; for (auto c : cl) if ((double)c == std::floor(v)) return true; return false; };
  compare(); int steps = r.in(1, 25);
  for (int k = 0; k < steps && ok; k++) {
    int j = r.in(0, T - 1); Sh& s = sh[j]; vector<int> leaves, inner; for (auto& kv : s.rows) (s.lt.count(kv.first) ? inner : leaves).push_back(kv.first);
    double u = r.uni();
    if (u < 0.62) {
      int nid = r.pick(leaves), f = r.in(0, d.p - 1); bool cat = d.types[f] == FeatureType::kUnorderedCategorical ? r.flip(0.7) : r.flip(0.1);
      double th = r.flip(0.8) ? d.x(r.in(0, n - 1), f) : r.uni(-3, 3); vector<uint32_t> cl = rand_cats(r, 10); TreeSplit ts = cat ? TreeSplit(cl) : TreeSplit(th);
      trees[j]->ExpandNode(nid, f, ts, 0.0, 0.0); int l = trees[j]->LeftChild(nid), q = trees[j]->RightChild(nid);
      hist += cat ? 'c' : 's'; tr.AddSplit(X, ts, f, j, nid, l, q, false);
      if (r.flip(0.3)) un.PartitionTreeNode(X, j, nid, l, q, f, ts); else if (cat) un.PartitionTreeNode(X, j, nid, l, q, f, cl); else un.PartitionTreeNode(X, j, nid, l, q, f, th);
      s.freed.erase(l); s.freed.erase(q); s.next = std::max(s.next, std::max(l, q) + 1); s.lt[nid] = l; s.rt[nid] = q; s.par[l] = s.par[q] = nid; s.rows[l].clear(); s.rows[q].clear();
      for (int i : s.rows[nid]) { int g = goes_left(i, f, cat, th, cl) ? l : q; s.rows[g].push_back(i); s.at[i] = g; }
      if (r.flip(0.4)) { un.UpdateObservationMapping(l, j, &map2); un.UpdateObservationMapping(q, j, &map2); } else un.UpdateObservationMapping(trees[j].get(), j, &map2);
      cx.count(cat ? "category_splits" : "threshold_splits");
    } else if (u < 0.85 && !inner.empty()) {
      int nid = r.pick(inner); bool whole = s.lt.count(s.lt[nid]) || s.lt.count(s.rt[nid]); hist += whole ? 'P' : 'p'; int l = s.lt[nid], q = s.rt[nid];
      std::function<void(int)> drop = [&](int a) { if (s.lt.count(a)) { drop(s.lt[a]); drop(s.rt[a]); s.lt.erase(a); s.rt.erase(a); } s.rows.erase(a); s.par.erase(a); s.freed.insert(a); };
      drop(l); drop(q); s.lt.erase(nid); s.rt.erase(nid); for (int i : s.rows[nid]) s.at[i] = nid;
      trees[j]->CollapseToLeaf(nid, 0.0); tr.RemoveSplit(X, trees[j].get(), j, nid, l, q, false);
      un.PruneTreeNodeToLeaf(j, nid); if (r.flip(0.2)) un.PruneTreeNodeToLeaf(j, nid); un.UpdateObservationMapping(nid, j, &map2);
      cx.count(whole ? "subtree_prunes" : "prunes");
    } else if (u < 0.9) {
      hist += '0'; s = fresh(); trees[j].reset(new Tree()); trees[j]->Init(1); tr.ResetRoot(X, d.types, j); un.ResetTreeToRoot(j, n); map2.AssignAllSamplesToRoot(j); cx.count("resets");
    } else {  // the remembered predictions, and copies of the map
      double v = r.norm(); int who = r.flip(0.3) ? -1 : j; hist += 'v'; vector<vector<double>> before(T, vector<double>(n));
      for (int a = 0; a < T; a++) for (int i = 0; i < n; i++) { if (r.flip(0.2)) tr.SetTreeSamplePrediction(i, a, r.norm()); before[a][i] = tr.GetTreeSamplePrediction(i, a); }
      if (who < 0) tr.AssignAllSamplesToConstantPrediction(v); else tr.AssignAllSamplesToConstantPrediction(who, v);
      for (int a = 0; a < T; a++) for (int i = 0; i < n; i++) { double want = who < 0 || who == a ? v : before[a][i]; if (!same_bits(tr.GetTreeSamplePrediction(i, a), want) || !same_bits(tr.GetSamplePredMapper()->GetPred(i, a), want)) { bad("constant-prediction", "row " + num(i) + " of tree " + num(a) + " remembers another prediction than it was given"); break; } }
      SampleNodeMapper cp(*map1); for (int a = 0; a < T; a++) for (int i = 0; i < n; i++) if (cp.GetNodeId(i, a) != map1->GetNodeId(i, a) || cp.NumTrees() != T || (int)cp.NumObservations() != n) { bad("map-copy", "a copied row map differs"); break; }
      int a = r.in(0, T - 1), i = r.in(0, n - 1); int old = cp.GetNodeId(i, a); cp.SetNodeId(i, a, old + 7); if ((int)map1->GetNodeId(i, a) != old || (int)cp.GetNodeId(i, a) != old + 7) bad("map-copy", "a copied row map shares its memory");
      cx.count("constant_predictions");
    }
    if (r.flip(0.4)) {  // grow the presorted partition by one split
      vector<int> sl(sleaf.begin(), sleaf.end()); int nid = r.pick(sl), f = r.in(0, d.p - 1); bool cat = d.types[f] == FeatureType::kUnorderedCategorical && r.flip(0.7); double th = d.x(r.in(0, n - 1), f); vector<uint32_t> cl = rand_cats(r, 10); TreeSplit ts = cat ? TreeSplit(cl) : TreeSplit(th);
      if (r.flip(0.3)) so->PartitionNode(X, nid, f, ts); else if (cat) so->PartitionNode(X, nid, f, cl); else so->PartitionNode(X, nid, f, th);
      int l = snext++, q = snext++; srows[l]; srows[q]; for (int i : srows[nid]) srows[goes_left(i, f, cat, th, cl) ? l : q].push_back(i); sleaf.erase(nid); sleaf.insert(l); sleaf.insert(q); hist += 'o';
      SampleNodeMapper m(1, n); for (int g : {l, q}) { so->UpdateObservationMapping(g, 0, &m, r.in(0, d.p - 1)); for (int i : srows[g]) if ((int)m.GetNodeId(i, 0) != g) { bad("presorted-map", "a row of a presorted node is mapped elsewhere"); break; } }
      cx.count("presorted_splits");
    }
    compare();
    if (ok) { std::ostringstream z; for (int a = 0; a < T; a++) for (int v : sh[a].at) z << v << ','; cx.dist("partitions", z.str()); }
  }
  if (ok && r.flip(0.5)) { int j = r.in(-1, T - 1); if (j < 0) tr.AssignAllSamplesToRoot(); else tr.AssignAllSamplesToRoot(j); for (int a = 0; a < T; a++) for (int i = 0; i < n; i++) if ((int)tr.GetNodeId(i, a) != (j < 0 || j == a ? 0 : sh[a].at[i])) { bad("assign-root", "sending all rows to the root left row " + num(i) + " of tree " + num(a) + " elsewhere, or moved another tree"); break; } }
}
int main(int c, char** v) { return mon::main_(c, v); }
