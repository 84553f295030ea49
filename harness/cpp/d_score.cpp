// C07 candidate cutpoints, C08 split scores, C09 conditional leaf posteriors (deterministic part)
#include "chain.h"
using namespace mon;

struct Node { int id; vector<int> rows; };
// random tree grown through the tree and tracker interfaces (as grow-from-root does), returns leaves with their rows
static vector<Node> grown(Rng& r, Part& p, int grows, bool sorted) {
  Tree* t = p.cur()->GetTree(0); std::mt19937 gen((unsigned)r.next());
  auto rows_of = [&](int nid) { vector<int> v; for (int i = 0; i < p.d.n; i++) { int l = p.leaf(0, i); for (int a = l; a != -1; a = t->Parent(a)) if (a == nid) { v.push_back(i); break; } } return v; };
  for (int g = 0; g < grows; g++) {
    vector<int> lv(t->GetLeaves().begin(), t->GetLeaves().end()); int nid = sorted ? lv.back() : r.pick(lv); if (sorted && r.flip()) nid = r.pick(lv);
    auto rows = rows_of(nid); if (rows.empty()) continue;
    int f = r.in(0, p.d.p - 1); TreeSplit sp;
    if (p.d.types[f] == FeatureType::kUnorderedCategorical) { std::set<uint32_t> c; for (int i : rows) if (r.flip(0.4)) c.insert((uint32_t)p.d.x(i, f)); if (c.empty()) continue; vector<uint32_t> cl(c.begin(), c.end()); sp = TreeSplit(cl); }
    else sp = TreeSplit(p.d.x(r.pick(rows), f) + (r.flip(0.3) ? 1e-3 : 0));
    AddSplitToModel(*p.tr, p.d.ds, *p.prior, sp, gen, t, 0, nid, f, sorted);
  }
  vector<Node> out; vector<int> nodes(t->GetLeaves().begin(), t->GetLeaves().end());
  for (int nid : nodes) { Node q; q.id = nid; q.rows = rows_of(nid); if (!q.rows.empty()) out.push_back(q); }
  return out;
}
static void setup(Rng& r, Session& s, int nmax, int kind = -1) {
  s.build(r, nmax, 1, false, kind);
  s.parts.resize(1); Part& p = *s.parts[0];
  if (!p.preinit) { p.fc->AddSamples(1); p.started = true; }
  for (int i = 0; i < s.n; i++) s.resid.SetElement(i, s.y[i]);
}

SUITE(cutpoints) {
  Session s; setup(r, s, r.flip(0.15) ? 400 : 60, 0); Part& p = *s.parts[0]; int grid = r.pick({1, 2, 3, 5, 8, 20, 50, 100, 500});
  vector<Node> nodes = grown(r, p, r.in(0, 4), true);
  Eigen::MatrixXd& X = p.d.ds.GetCovariates(); Eigen::VectorXd& y = s.resid.GetData();
  CutpointGridContainer box(X, y, grid); if (r.flip(0.2)) box.Reset(X, y, grid);
  for (auto& nd : nodes) for (int f = 0; f < p.d.p; f++) {
    int nb = p.tr->SortedNodeBegin(nd.id, f), ne = p.tr->SortedNodeEnd(nd.id, f), m = nd.rows.size();
    if (ne - nb != m) { cx.fail("C07", "node-size", "node %d has %d sorted rows, %d reach it", nd.id, ne - nb, m); return; }
    vector<int> order(p.tr->SortedNodeBeginIterator(nd.id, f), p.tr->SortedNodeEndIterator(nd.id, f));
    FeatureCutpointGrid one(grid); bool single = r.flip(0.3); 
    if (single) one.CalculateStrides(X, y, p.tr->GetSortedNodeSampleTracker(), nd.id, nb, ne, f, p.d.types); else box.CalculateStrides(X, y, p.tr->GetSortedNodeSampleTracker(), nd.id, nb, ne, f, p.d.types);
    int K = single ? one.NumCutpoints() : box.NumCutpoints(f);
    auto beg = [&](int k) { return single ? one.BinStartIndex(k) : box.BinStartIndex(k, f); }; auto len = [&](int k) { return single ? one.BinLength(k) : box.BinLength(k, f); };
    auto end = [&](int k) { return single ? one.BinEndIndex(k) : box.BinEndIndex(k, f); }; auto val = [&](int k) { return single ? one.CutpointValue(k) : box.CutpointValue(k, f); };
    double least = kInf; for (int i : nd.rows) if (p.d.x(i, f) < least) least = p.d.x(i, f);
    auto value = [&](int i) { double v = p.d.x(i, f); return std::isnan(v) ? least : v; };  // missing values stay with the smallest value
    std::map<double, vector<int>> by; for (int i : nd.rows) by[value(i)].push_back(i);
    string what = "n=" + std::to_string(m) + " grid=" + std::to_string(grid) + " kind=" + string(1, "uneCbLhOUt"[p.d.kind[f]]) + " distinct=" + std::to_string(by.size());
    cx.count("grids"); cx.count("bins", K); cx.dist("grids", what + std::to_string(K));
    vector<vector<double>> groups; // values in each group
    if (K < 1) { cx.fail("C07", "no-groups", "%s: no candidate group", what.c_str()); return; }
    std::set<int> covered; size_t tot = 0;
    for (int k = 0; k < K; k++) {
      if (len(k) <= 0 || end(k) != beg(k) + len(k) || beg(k) < nb || end(k) > ne) { cx.fail("C07", "group-bounds", "%s: group %d is [%d,+%d) in a node at [%d,%d)", what.c_str(), k, beg(k), len(k), nb, ne); return; }
      std::set<double> v; for (int q = beg(k); q < end(k); q++) { covered.insert(q); tot++; v.insert(value(order[q - nb])); } groups.push_back(vector<double>(v.begin(), v.end()));
    }
    if ((int)covered.size() != m || (int)tot != m) { cx.fail("C07", "partition", "%s: groups cover %zu rows (%zu distinct) of %d", what.c_str(), tot, covered.size(), m); return; }
    if (p.d.types[f] == FeatureType::kUnorderedCategorical) {
      if (K != (int)by.size()) { cx.fail("C07", "categories", "%s: %d candidate categories, %zu present", what.c_str(), K, by.size()); return; }
      double prev = -kInf; vector<uint32_t> acc;
      for (int k = 0; k < K; k++) {
        if (groups[k].size() != 1 || groups[k][0] != val(k) || len(k) != (int)by[groups[k][0]].size()) { cx.fail("C07", "category-rows", "%s: group %d labelled %g holds other categories", what.c_str(), k, val(k)); return; }
        double mean = 0; for (int i : by[val(k)]) mean += s.y[i]; mean /= by[val(k)].size();
        if (mean < prev - 1e-9 * (1 + std::fabs(prev))) { cx.fail("C07", "category-order", "%s: category %g has mean outcome %.12g after a category with mean %.12g", what.c_str(), val(k), mean, prev); return; }
        prev = mean; acc.push_back((uint32_t)val(k)); auto cv = single ? one.CutpointVector(k) : box.CutpointVector(k, f); std::set<uint32_t> a(acc.begin(), acc.end()), b(cv.begin(), cv.end());
        if (a != b || cv.size() != acc.size()) { cx.fail("C07", "category-rule", "%s: rule of candidate %d is not the first %d categories", what.c_str(), k, k + 1); return; }
      }
      continue;
    }
    if (least == kInf) { if (K != 1) cx.fail("C07", "distinct-values", "%s: %d groups for missing values alone", what.c_str(), K); cx.count("missing_only"); continue; }
    for (int k = 0; k < K; k++) {
      if (beg(k) != (k ? end(k - 1) : nb)) { cx.fail("C07", "consecutive", "%s: group %d starts at %d, the previous ends at %d", what.c_str(), k, beg(k), k ? end(k - 1) : nb); return; }
      if (val(k) != groups[k].back()) { cx.fail("C07", "value", "%s: candidate %d is %.17g, the largest value of its group is %.17g", what.c_str(), k, val(k), groups[k].back()); return; }
      if (k && !(val(k - 1) < groups[k].front())) { cx.fail("C07", "tied-values", "%s: groups %d and %d share a value or are out of order", what.c_str(), k - 1, k); return; }
    }
    bool full = p.d.types[f] == FeatureType::kOrderedCategorical || m <= grid;
    if (full) { if (K != (int)by.size()) { cx.fail("C07", "distinct-values", "%s: %d groups for %zu distinct values", what.c_str(), K, by.size()); return; } cx.count("full_grids"); }
    else { int step = std::max(1, m / grid); cx.count("thinned_grids");
      for (int k = 0; k < K; k++) { int last = by[groups[k].back()].size(); if ((k + 1 < K && len(k) < step) || len(k) - last >= step + 1) { cx.fail("C07", "thinning", "%s: group %d of %d has %d rows (its last value %d), groups of about %d were asked for", what.c_str(), k, K, len(k), last, step); return; } }
      if (by.size() > 1 && grid >= 2 && K < 2) { bool first_small = (int)by.begin()->second.size() < m - (m % grid); if (first_small && (int)by.rbegin()->second.size() < m - step) cx.fail("C07", "thinning", "%s: a single group", what.c_str()); } }
  }
  cx.sample(p.d.desc() + " grid=" + std::to_string(grid));
}

// ------------------------------------------------ C08: dense Gaussian log density of a set of rows under the leaf prior
SUITE(scores) {
  Session s; setup(r, s, 45); Part& p = *s.parts[0]; double s2 = r.pick({0.05, 0.5, 3.0});
  bool sorted = r.flip(); vector<Node> nodes = grown(r, p, r.in(0, 3), sorted); Tree* t = p.cur()->GetTree(0);
  auto gap = [&](const vector<int>& L, const vector<int>& R, const vector<int>& A) { return logml(p, s.y, L, s2) + logml(p, s.y, R, s2) - logml(p, s.y, A, s2); };
  auto chk = [&](double got, double want, const char* what, int f) { cx.count("scores"); if (!mon::close(got, want, 1e-7, 0.1 * s.n)) { cx.fail("C08", what, "%s on variable %d scores %.12g above not splitting, the log marginal likelihood ratio is %.12g (sigma2=%g tau=%g %s)", what, f, got, want, s2, p.tau, s.desc().c_str()); return false; } return true; };
  auto proposed = [&](TreeSplit& sp, int leaf, int f) { return p.kind == 0 ? p.m0->EvaluateProposedSplit(p.d.ds, *p.tr, s.resid, sp, 0, leaf, f, s2) : p.kind == 1 ? p.m1->EvaluateProposedSplit(p.d.ds, *p.tr, s.resid, sp, 0, leaf, f, s2) : p.m2->EvaluateProposedSplit(p.d.ds, *p.tr, s.resid, sp, 0, leaf, f, s2); };
  auto existing = [&](int a, int l, int q) { return p.kind == 0 ? p.m0->EvaluateExistingSplit(p.d.ds, *p.tr, s.resid, s2, 0, a, l, q) : p.kind == 1 ? p.m1->EvaluateExistingSplit(p.d.ds, *p.tr, s.resid, s2, 0, a, l, q) : p.m2->EvaluateExistingSplit(p.d.ds, *p.tr, s.resid, s2, 0, a, l, q); };
  for (auto& nd : nodes) for (int k = 0; k < 3; k++) {
    int f = r.in(0, p.d.p - 1); vector<int> L, R; TreeSplit sp;
    if (p.d.types[f] == FeatureType::kUnorderedCategorical && r.flip(0.7)) { std::set<uint32_t> c; for (int i : nd.rows) if (r.flip(0.4)) c.insert((uint32_t)p.d.x(i, f)); if (c.empty()) c.insert(77); vector<uint32_t> cl(c.begin(), c.end()); sp = TreeSplit(cl); for (int i : nd.rows) (c.count((uint32_t)p.d.x(i, f)) ? L : R).push_back(i); }
    else { double th = p.d.x(r.pick(nd.rows), f) + (r.flip(0.3) ? 0.01 : 0); sp = TreeSplit(th); for (int i : nd.rows) (mon::goes_left(p.d.x(i, f), th) ? L : R).push_back(i); }
    auto e = proposed(sp, nd.id, f);
    if ((int)std::get<2>(e) != (int)L.size() || (int)std::get<3>(e) != (int)R.size()) { cx.fail("C08", "proposed-counts", "proposed split reports %d/%d rows, the rule sends %zu/%zu", (int)std::get<2>(e), (int)std::get<3>(e), L.size(), R.size()); return; }
    if (!chk(std::get<0>(e) - std::get<1>(e), gap(L, R, nd.rows), "proposed split", f)) return;
  }
  // existing splits with two leaf children
  for (int a : vector<int>(t->GetLeafParents().begin(), t->GetLeafParents().end())) {
    vector<int> L, R, A; for (int i = 0; i < s.n; i++) { int l = p.leaf(0, i); if (l == t->LeftChild(a)) { L.push_back(i); A.push_back(i); } if (l == t->RightChild(a)) { R.push_back(i); A.push_back(i); } }
    auto e = existing(a, t->LeftChild(a), t->RightChild(a));
    if ((int)std::get<2>(e) != (int)L.size() || (int)std::get<3>(e) != (int)R.size()) { cx.fail("C08", "existing-counts", "existing split reports %d/%d rows, it holds %zu/%zu", (int)std::get<2>(e), (int)std::get<3>(e), L.size(), R.size()); return; }
    if (!chk(std::get<0>(e) - std::get<1>(e), gap(L, R, A), "existing split", t->SplitIndex(a))) return;
  }
  if (!sorted) { cx.dist("problems", s.desc()); return; }
  int grid = r.pick({2, 5, 20, 500});
  for (auto& nd : nodes) {
    Eigen::MatrixXd& X = p.d.ds.GetCovariates(); Eigen::VectorXd& y = s.resid.GetData(); CutpointGridContainer box(X, y, grid);
    vector<double> ev; vector<int> feat; vector<double> cut; vector<FeatureType> ft; data_size_t cnt = -1; int nb = p.tr->SortedNodeBegin(nd.id, 0), ne = p.tr->SortedNodeEnd(nd.id, 0);
    if (p.kind == 0) p.m0->EvaluateAllPossibleSplits(p.d.ds, *p.tr, s.resid, *p.prior, s2, 0, nd.id, ev, feat, cut, ft, cnt, box, nb, ne, p.d.vw, p.d.types);
    else if (p.kind == 1) p.m1->EvaluateAllPossibleSplits(p.d.ds, *p.tr, s.resid, *p.prior, s2, 0, nd.id, ev, feat, cut, ft, cnt, box, nb, ne, p.d.vw, p.d.types);
    else p.m2->EvaluateAllPossibleSplits(p.d.ds, *p.tr, s.resid, *p.prior, s2, 0, nd.id, ev, feat, cut, ft, cnt, box, nb, ne, p.d.vw, p.d.types);
    if (ev.size() != (size_t)cnt + 1 || feat.size() != ev.size() || cut.size() != ev.size() || ft.size() != ev.size()) { cx.fail("C08", "candidate-count", "%zu scores, %d candidates reported", ev.size(), (int)cnt); return; }
    auto left_of = [&](int f, int k) { vector<int> L; if (p.d.types[f] == FeatureType::kUnorderedCategorical) { auto c = box.CutpointVector(k, f); for (int i : nd.rows) if (std::count(c.begin(), c.end(), (uint32_t)p.d.x(i, f))) L.push_back(i); } else { double th = box.CutpointValue(k, f); for (int i : nd.rows) if (mon::goes_left(p.d.x(i, f), th)) L.push_back(i); } return L; };
    std::set<std::pair<int, int>> offered; int stride = std::max(1, (int)cnt / 12);
    for (int c = 0; c < (int)cnt; c++) {
      int f = feat[c], k = (int)cut[c]; offered.insert({f, k});
      if (f < 0 || f >= p.d.p || p.d.vw[f] <= 0) { cx.fail("C08", "candidate-variable", "a candidate splits variable %d with weight %g", f, f >= 0 && f < p.d.p ? p.d.vw[f] : -1.0); return; }
      if (ft[c] != p.d.types[f]) { cx.fail("C08", "candidate-type", "a candidate's variable type is wrong"); return; }
      auto L = left_of(f, k); int ln = L.size(), rn = nd.rows.size() - ln;
      if (ln < p.min_leaf || rn < p.min_leaf || !ln || !rn) { cx.fail("C08", "candidate-size", "a candidate on variable %d leaves %d/%d rows, the floor is %d", f, ln, rn, p.min_leaf); return; }
      if (c % stride == r.in(0, stride - 1)) { vector<int> R; std::set<int> ls(L.begin(), L.end()); for (int i : nd.rows) if (!ls.count(i)) R.push_back(i); if (!chk(ev[c] - ev[cnt], gap(L, R, nd.rows), "candidate split", f)) return; }
    }
    if ((int)offered.size() != (int)cnt) { cx.fail("C08", "candidate-repeated", "a candidate is offered twice"); return; }
    for (int f = 0; f < p.d.p; f++) if (p.d.vw[f] > 1e-6) for (int k = 0; k + 1 < box.NumCutpoints(f); k++) { int ln = left_of(f, k).size(), rn = nd.rows.size() - ln; if (ln >= p.min_leaf && rn >= p.min_leaf && !offered.count({f, k})) { cx.fail("C07", "candidate-missing", "candidate %d of variable %d (%d/%d rows, floor %d) is not offered", k, f, ln, rn, p.min_leaf); return; } }
    cx.count("candidate_sets"); cx.count("candidates", cnt);
  }
  cx.dist("problems", s.desc()); cx.sample(s.desc());
}

// ------------------------------------------------ C09: posterior moments seen through paired draws with one seed
SUITE(leafdet) {
  Session s; setup(r, s, 40); Part& p = *s.parts[0]; double s2 = r.pick({0.05, 0.5, 3.0});
  vector<Node> nodes = grown(r, p, r.in(0, 4), false); Tree* t = p.cur()->GetTree(0);
  vector<int> lv(t->GetLeaves().begin(), t->GetLeaves().end());
  auto moments = [&](const vector<double>& y, const vector<int>& rows, double v, Eigen::VectorXd& m, Eigen::MatrixXd& V) {
    int k = p.dim; Eigen::MatrixXd A = p.kind == 2 ? Eigen::MatrixXd(p.Sig.inverse()) : Eigen::MatrixXd::Constant(1, 1, 1 / p.tau); Eigen::VectorXd b = Eigen::VectorXd::Zero(k);
    for (int i : rows) { Eigen::VectorXd x(k); for (int q = 0; q < k; q++) x(q) = p.kind == 0 ? 1 : p.d.b(i, q); double w = v * (p.d.has_w ? p.d.w[i] : 1); A += x * x.transpose() / w; b += x * y[i] / w; }
    V = A.inverse(); m = V * b; };
  auto draw = [&](const vector<double>& y, double v, unsigned seed) { std::mt19937 gen(seed); for (int i = 0; i < s.n; i++) s.resid.SetElement(i, y[i]); GaussianConstantLeafModel a(p.tau); GaussianUnivariateRegressionLeafModel b(p.tau); GaussianMultivariateRegressionLeafModel c(p.Sig);
    if (p.kind == 0) a.SampleLeafParameters(p.d.ds, *p.tr, s.resid, t, 0, v, gen); else if (p.kind == 1) b.SampleLeafParameters(p.d.ds, *p.tr, s.resid, t, 0, v, gen); else c.SampleLeafParameters(p.d.ds, *p.tr, s.resid, t, 0, v, gen);
    std::map<int, vector<double>> o; for (int l : lv) o[l] = leaf_of(t, l); return o; };
  auto rows_of = [&](int l) { for (auto& nd : nodes) if (nd.id == l) return nd.rows; return vector<int>(); };
  for (int rep = 0; rep < 3; rep++) {
    unsigned seed = (unsigned)r.next(); auto A = draw(s.y, s2, seed);
    vector<double> y2 = s.y; for (auto& v : y2) v += r.norm() * 3; auto B = draw(y2, s2, seed);
    double v3 = s2 * r.uni(0.3, 4); auto C = draw(s.y, v3, seed);
    auto A2 = draw(s.y, s2, seed); for (int l : lv) if (A2[l] != A[l]) { cx.fail("C09", "repeat", "the same draw with the same seed gives another leaf value"); return; }
    for (int l : lv) {
      auto rows = rows_of(l); Eigen::VectorXd ma, mb, mc; Eigen::MatrixXd va, vb, vc; moments(s.y, rows, s2, ma, va); moments(y2, rows, s2, mb, vb); moments(s.y, rows, v3, mc, vc); cx.count("leaf_draws");
      if (rows.empty()) cx.count("empty_leaves");
      for (int k = 0; k < p.dim; k++) { double got = B[l][k] - A[l][k], want = mb(k) - ma(k); if (!mon::close(got, want, 1e-8, 10 + s.ymag)) { cx.fail("C09", "mean", "with one seed, changing the outcomes moved leaf %d by %.12g; its posterior mean moved by %.12g (%zu rows, %s)", l, got, want, rows.size(), s.desc().c_str()); return; } }
      if (p.dim == 1) { double za = (A[l][0] - ma(0)) / std::sqrt(va(0, 0)), zc = (C[l][0] - mc(0)) / std::sqrt(vc(0, 0)); if (!mon::close(za, zc, 1e-7)) { cx.fail("C09", "spread", "with one seed, leaf %d stands %.12g posterior deviations off at sigma2=%g and %.12g at sigma2=%g", l, za, s2, zc, v3); return; } }
      else { Eigen::MatrixXd la = Eigen::LLT<Eigen::MatrixXd>(va).matrixL(), lc = Eigen::LLT<Eigen::MatrixXd>(vc).matrixL(); Eigen::VectorXd a(p.dim), c(p.dim); for (int k = 0; k < p.dim; k++) { a(k) = A[l][k] - ma(k); c(k) = C[l][k] - mc(k); }
        double da = a.dot(va.inverse() * a), dc = c.dot(vc.inverse() * c); if (!mon::close(da, dc, 1e-6)) { cx.fail("C09", "spread", "with one seed, leaf %d has squared posterior distance %.12g at sigma2=%g and %.12g at sigma2=%g", l, da, s2, dc, v3); return; } }
      // rows outside the leaf must not matter
      vector<double> y4 = s.y; std::set<int> in(rows.begin(), rows.end()); for (int i = 0; i < s.n; i++) if (!in.count(i)) y4[i] += r.norm() * 5;
      auto D = draw(y4, s2, seed); if (D[l] != A[l]) { cx.fail("C09", "other-rows", "changing outcomes outside leaf %d changed its value", l); return; }
    }
  }
  cx.dist("problems", s.desc() + digest(t, true, false)); cx.sample(s.desc());
}
int main(int c, char** v) { return mon::main_(c, v); }
