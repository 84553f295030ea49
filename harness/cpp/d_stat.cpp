#include <array>
// C09 leaf draws, C10 Metropolis invariance, C11 grow-from-root split weights, C12 variance draws, C14 random-effect draws: sampled distributions against exact ones
#include "stats.h"
using namespace mon;

// a small regression problem; kind of leaf model and everything else random
static void small_problem(Rng& r, Part& p, int nmin, int nmax, int pmax, bool cats, bool weights) {
  Data& d = p.d; d.n = r.in(nmin, nmax); d.p = r.in(1, pmax); d.X.assign((size_t)d.n * d.p, 0); d.kind.clear(); d.types.clear();
  for (int f = 0; f < d.p; f++) {
    int k = r.pick({0, 0, 1, 2, 3, 4, 5}); if (!cats && k == 5) k = 1; double off = r.norm() * 3, sc = r.pick({0.01, 1.0, 100.0});
    for (int i = 0; i < d.n; i++) d.X[(size_t)i * d.p + f] = k == 0 ? off + sc * r.uni() : k == 1 ? r.in(-3, 3) : k == 2 ? -1 - r.in(0, 3) : k == 3 ? (r.flip(0.15) ? 7.5 : (r.flip() ? r.in(0, 1) : 1)) : k == 4 ? r.in(0, 4) : r.in(0, 4);
    if (k == 3 && r.flip(0.3)) for (int i = 0; i < d.n; i++) d.X[(size_t)i * d.p + f] = 2.5;
    d.kind.push_back(k == 5 ? CAT : UNIF); d.types.push_back(k == 5 ? FeatureType::kUnorderedCategorical : k == 4 && r.flip() ? FeatureType::kOrderedCategorical : FeatureType::kNumeric);
  }
  d.nb = p.kind == 0 ? 0 : p.kind == 1 ? 1 : 2; d.B.resize((size_t)d.n * d.nb); for (auto& b : d.B) b = r.norm();
  d.has_w = weights && r.flip(0.3); d.w.resize(d.n); for (auto& w : d.w) w = r.uni(0.3, 3);
  d.y.resize(d.n); for (auto& v : d.y) v = r.norm();
  d.vw.assign(d.p, 1.0 / d.p); if (r.flip(0.5)) { double t = 0; for (auto& w : d.vw) { w = r.flip(0.75) ? r.uni(0.2, 1) : 0; t += w; } if (t <= 0) d.vw[r.in(0, d.p - 1)] = t = 1; for (auto& w : d.vw) w /= t; }
  d.load(); p.init(r); p.tau = r.uni(0.2, 1.5); for (int a = 0; a < p.dim; a++) p.Sig(a, a) *= 1;
  p.m0->SetScale(p.tau); p.m1->SetScale(p.tau);
}
static void fresh(Part& p) {
  p.fc.reset(new ForestContainer(p.T, p.dim, p.kind == 0)); p.tr.reset(new ForestTracker(p.d.ds.GetCovariates(), p.d.types, p.T, p.d.n)); p.fc->AddSamples(1); p.started = true; p.preinit = false;
}
static void draw_leaves(Part& p, Tree* t, int j, ColumnVector& resid, double s2, std::mt19937& gen) {
  if (p.kind == 0) p.m0->SampleLeafParameters(p.d.ds, *p.tr, resid, t, j, s2, gen); else if (p.kind == 1) p.m1->SampleLeafParameters(p.d.ds, *p.tr, resid, t, j, s2, gen); else p.m2->SampleLeafParameters(p.d.ds, *p.tr, resid, t, j, s2, gen);
}
static void take_out(Part& p, ColumnVector& resid, int j) { std::function<double(double, double)> op = std::minus<double>(); UpdateResidualTree(*p.tr, p.d.ds, resid, p.cur()->GetTree(j), j, p.basis(), op, true); }
static void moments(Part& p, const vector<double>& y, const vector<int>& rows, double s2, Eigen::VectorXd& m, Eigen::MatrixXd& V) {
  int k = p.dim; Eigen::MatrixXd A = p.kind == 2 ? Eigen::MatrixXd(p.Sig.inverse()) : Eigen::MatrixXd::Constant(1, 1, 1 / p.tau); Eigen::VectorXd b = Eigen::VectorXd::Zero(k);
  for (int i : rows) { Eigen::VectorXd x(k); for (int q = 0; q < k; q++) x(q) = p.kind == 0 ? 1 : p.d.b(i, q); double w = s2 * (p.d.has_w ? p.d.w[i] : 1); A += x * x.transpose() / w; b += x * y[i] / w; }
  V = A.inverse(); m = V * b;
}
static void whiten(Pit& pit, const Eigen::VectorXd& v, const Eigen::VectorXd& m, const Eigen::MatrixXd& V) {
  Eigen::MatrixXd L = Eigen::LLT<Eigen::MatrixXd>(V).matrixL(); Eigen::VectorXd z = L.triangularView<Eigen::Lower>().solve(v - m); for (int k = 0; k < z.size(); k++) pit.add(z(k));
}
static string pdesc(Part& p) { std::ostringstream o; o << "leaf model " << p.kind << " n=" << p.d.n << " p=" << p.d.p << (p.d.has_w ? " weighted" : "") << " min=" << p.min_leaf << " tau=" << p.tau; return o.str(); }

// ------------------------------------------------ C09
SUITE(leafdist) {
  Pit pit, chain; Part p; p.kind = r.in(0, 2); p.T = r.in(1, 4); small_problem(r, p, 3, 25, 3, false, true);
  std::mt19937 gen((unsigned)r.next()); double s2 = r.pick({0.1, 0.7, 3.0}); int n = p.d.n;
  fresh(p); ColumnVector resid(p.d.y.data(), n);
  // (a) one tree, repeated draws, each with new outcomes
  Tree* t = p.cur()->GetTree(0);
  for (int g = r.in(0, 4); g > 0; g--) { vector<int> lv(t->GetLeaves().begin(), t->GetLeaves().end()); int f = r.in(0, p.d.p - 1), nid = r.pick(lv); TreeSplit sp(p.d.x(r.in(0, n - 1), f)); AddSplitToModel(*p.tr, p.d.ds, *p.prior, sp, gen, t, 0, nid, f, false); }
  std::map<int, vector<int>> rows; for (int l : t->GetLeaves()) rows[l]; for (int i = 0; i < n; i++) rows[p.leaf(0, i)].push_back(i);
  for (int q = 0; q < 1500; q++) {
    vector<double> y(n); for (int i = 0; i < n; i++) { y[i] = 2 * r.norm(); resid.SetElement(i, y[i]); } double v = s2 * r.uni(0.5, 2);
    draw_leaves(p, t, 0, resid, v, gen);
    for (auto& l : rows) { Eigen::VectorXd m, x(p.dim); Eigen::MatrixXd V; moments(p, y, l.second, v, m, V); for (int k = 0; k < p.dim; k++) x(k) = t->LeafValue(l.first, k); whiten(pit, x, m, V); }
  }
  pit.test(cx, "C09", "one-tree", pdesc(p) + " leaves=" + std::to_string(rows.size()));
  // (b) inside Metropolis passes over several trees: each leaf against the partial residual it was drawn from
  fresh(p); for (int i = 0; i < n; i++) resid.SetElement(i, p.d.y[i]); bool ok = true;
  for (int j = 0; j < p.T; j++) { draw_leaves(p, p.cur()->GetTree(j), j, resid, s2, gen); take_out(p, resid, j); }
  vector<vector<double>> old(p.T, vector<double>(n));
  for (int q = 0; q < 500 && ok; q++) {
    for (int j = 0; j < p.T; j++) for (int i = 0; i < n; i++) old[j][i] = p.tree_fit(j, i);
    vector<double> y(n); for (int i = 0; i < n; i++) { double nv = r.norm() * 1.5, f = 0; for (int j = 0; j < p.T; j++) f += old[j][i]; y[i] = nv; resid.SetElement(i, nv - f); }
    bool gfr = r.flip(0.2); double v = s2 * r.uni(0.5, 2); p.pass(gfr, 50, resid, gen, v);
    vector<double> part = y; for (int i = 0; i < n; i++) for (int j = 0; j < p.T; j++) part[i] -= old[j][i];
    for (int j = 0; j < p.T; j++) {
      for (int i = 0; i < n; i++) part[i] += old[j][i];
      std::map<int, vector<int>> rw; Tree* t = p.cur()->GetTree(j); for (int l : t->GetLeaves()) rw[l]; for (int i = 0; i < n; i++) rw[p.leaf(j, i)].push_back(i);
      for (auto& l : rw) { Eigen::VectorXd m, x(p.dim); Eigen::MatrixXd V; moments(p, part, l.second, v, m, V); for (int k = 0; k < p.dim; k++) x(k) = t->LeafValue(l.first, k); whiten(chain, x, m, V); }
      for (int i = 0; i < n; i++) part[i] -= p.tree_fit(j, i);
    }
  }
  chain.test(cx, "C09", "in-chain", pdesc(p) + " trees=" + std::to_string(p.T));
  cx.dist("problems", pdesc(p) + std::to_string(pit.z[0])); cx.sample(pdesc(p));
}

// ------------------------------------------------ C10: exact draws from the posterior stay distributed as the posterior
static bool space(Rng& r, Part& p, TreeSpace& ts, size_t cap) { ts.p = &p; ts.alpha = p.prior->GetAlpha(); ts.beta = p.prior->GetBeta(); ts.min_leaf = p.min_leaf; ts.cap = cap; return ts.build(); }
static int key_depth(const string& k) { // pre-order key: a stack of open splits
  int best = 0; vector<int> open; int d = 0; for (char c : k) { if (c == 'S') { open.push_back(2); d++; } else if (c == 'L') { best = std::max(best, d); while (!open.empty() && --open.back() == 0) { open.pop_back(); d--; } } } return best; }
SUITE(mcmc) {
  std::unique_ptr<Part> pp; std::unique_ptr<TreeSpace> ts; double s2 = r.pick({0.5, 1.0, 2.0}); string what;
  for (int tries = 0;; tries++) {
    pp.reset(new Part()); pp->kind = r.in(0, 2); pp->T = 1; small_problem(r, *pp, 2, tries > 5 ? 5 : 8, tries > 5 ? 2 : 3, false, true);
    pp->min_leaf = r.pick({1, 1, 2, 3}); double al = r.pick({0.5, 0.8, 0.95}), be = r.pick({0.5, 1.0, 2.0}); pp->prior.reset(new TreePrior(al, be, pp->min_leaf));
    ts.reset(new TreeSpace()); ts->y = &pp->d.y; ts->s2 = s2; ts->prior_only = false; if (space(r, *pp, *ts, 2500) && (ts->all.size() > 1 || r.flip(0.15))) break;
  }
  bool deep = cx.kase % 6 == 3; // one covariate whose gaps shrink geometrically: most of the posterior is on long, one-sided trees
  if (deep) for (;;) {
    pp.reset(new Part()); pp->kind = r.in(0, 2); pp->T = 1; small_problem(r, *pp, 7, 8, 1, false, true); Data& d = pp->d; double q = r.pick({2.0, 3.0, 5.0}), sg = r.flip() ? 1 : -1; for (int i = 0; i < d.n; i++) d.X[i] = sg * std::pow(q, i); d.types = {FeatureType::kNumeric}; d.kind = {UNIF}; d.vw = {1.0}; double amp = r.pick({1.5, 2.0, 2.5}); for (int i = 0; i < d.n; i++) d.y[i] = 0.5 * d.y[i] + (i % 2 ? amp : -amp); d.load();
    s2 = 1; pp->tau = 4; pp->m0->SetScale(4); pp->m1->SetScale(4); pp->min_leaf = 1; pp->prior.reset(new TreePrior(r.pick({0.95, 0.99}), r.pick({0.2, 0.5, 1.0, 1.5}), 1)); ts.reset(new TreeSpace()); ts->y = &d.y; ts->s2 = s2; ts->prior_only = false; if (space(r, *pp, *ts, 3000)) break; }
  Part& p = *pp; int n = p.d.n; uint32_t full = (1u << n) - 1; std::mt19937 gen((unsigned)r.next());
  what = pdesc(p) + (deep ? " geometric gaps" : "") + " alpha=" + std::to_string(ts->alpha) + " beta=" + std::to_string(ts->beta) + " trees=" + std::to_string(ts->all.size());
  ColumnVector resid(p.d.y.data(), n); int steps = deep ? r.pick({4, 10, 20}) : r.pick({1, 2, 4, 10}); std::map<string, long> obs; long moved = 0, reps = (deep ? 40000 : 16000) / (steps > 4 ? 2 : 1);
  for (long q = 0; q < reps; q++) {
    fresh(p); for (int i = 0; i < n; i++) resid.SetElement(i, p.d.y[i]);
    const string& k0 = ts->draw(r); size_t pos = 0; build_tree(r, p, p.cur()->GetTree(0), 0, gen, k0, pos, 0, full);
    draw_leaves(p, p.cur()->GetTree(0), 0, resid, s2, gen); take_out(p, resid, 0);
    for (int s = 0; s < steps; s++) p.pass(false, 0, resid, gen, s2);
    string k1 = tree_key(p, p.cur()->GetTree(0), 0, full); obs[k1]++; moved += k1 != k0;
  }
  cx.count("replicates", reps); cx.count("replicates_moved", moved);
  freq_test(cx, "C10", "invariance", ts->prob, obs, what + " after " + std::to_string(steps) + " steps from posterior draws");
  { // the same by the depth of the deepest leaf and by the number of leaves, where rare structures add up
    std::map<string, double> pd; std::map<string, long> od; for (auto& q : ts->prob) { pd["depth " + std::to_string(key_depth(q.first))] += q.second; } for (auto& q : obs) od["depth " + std::to_string(key_depth(q.first))] += q.second; freq_test(cx, "C10", "invariance-depth", pd, od, what + " after " + std::to_string(steps) + " steps from posterior draws");
    pd.clear(); od.clear(); for (auto& q : ts->prob) pd["leaves " + std::to_string(std::count(q.first.begin(), q.first.end(), 'L'))] += q.second; for (auto& q : obs) od["leaves " + std::to_string(std::count(q.first.begin(), q.first.end(), 'L'))] += q.second; freq_test(cx, "C10", "invariance-leaves", pd, od, what + " after " + std::to_string(steps) + " steps from posterior draws");
    for (auto& q : obs) if (key_depth(q.first) >= 5) cx.count("replicates_depth5", q.second); }
  // single moves between two chosen trees (deep ones too, however improbable): as frequent in equilibrium one way as the other
  vector<std::pair<string, string>> pairs;
  for (int tries = 0; tries < 300 && (int)pairs.size() < (deep ? 4 : 1); tries++) {
    const string& B = r.pick(ts->all).key; if (deep && tries < 200 && key_depth(B) < 5) continue; string A; int best = 0;
    for (size_t at = B.find(";LL"); at != string::npos; at = B.find(";LL", at + 1)) { size_t s0 = B.rfind('S', at); int d = 0; { vector<int> open; for (size_t q = 0; q < s0; q++) { if (B[q] == 'S') open.push_back(2); else if (B[q] == 'L') while (!open.empty() && --open.back() == 0) open.pop_back(); } d = open.size() + 1; } if (d > best) { string c = B.substr(0, s0) + "L" + B.substr(at + 3); if (ts->prob.count(c) && ts->prob[c] > 0 && ts->prob[B] > 0) { best = d; A = c; } } }
    if (best) pairs.push_back({A, B}); }
  for (auto& ab : pairs) {
    double n2[2]; long R = deep ? 60000 : 20000;
    for (int way = 0; way < 2; way++) { n2[way] = 0; for (long q = 0; q < R; q++) {
      fresh(p); for (int i = 0; i < n; i++) resid.SetElement(i, p.d.y[i]); size_t pos = 0; build_tree(r, p, p.cur()->GetTree(0), 0, gen, way ? ab.second : ab.first, pos, 0, full); draw_leaves(p, p.cur()->GetTree(0), 0, resid, s2, gen); take_out(p, resid, 0);
      p.pass(false, 0, resid, gen, s2); n2[way] += tree_key(p, p.cur()->GetTree(0), 0, full) == (way ? ab.first : ab.second); } }
    double pa = ts->prob[ab.first], pb = ts->prob[ab.second], flow = (n2[0] + n2[1]) / (1 / pa + 1 / pb), e0 = flow / pa, e1 = flow / pb, z = (n2[0] * pa - n2[1] * pb) / std::sqrt(flow * (pa + pb)); cx.count("move_pairs"); cx.count("moves_between_pairs", n2[0] + n2[1]);
    if (e0 > 40 && e1 > 40) { cx.count("move_pairs_compared"); if (std::fabs(z) > 7.5) cx.fail("C10", "balance", "%s: trees %s and %s: %.0f moves up (%.1f expected) and %.0f down (%.1f expected) in %ld starts each: %.1f standard errors from balance", what.c_str(), ab.first.c_str(), ab.second.c_str(), n2[0], e0, n2[1], e1, R, z); }
  }
  // from the root: the chain must get everywhere the posterior puts weight
  fresh(p); for (int i = 0; i < n; i++) resid.SetElement(i, p.d.y[i]); obs.clear(); long L = 40000;
  draw_leaves(p, p.cur()->GetTree(0), 0, resid, s2, gen); take_out(p, resid, 0);
  for (long s = 0; s < L; s++) { p.pass(false, 0, resid, gen, s2); obs[tree_key(p, p.cur()->GetTree(0), 0, full)]++; if (p.fc->NumSamples() >= 200) { // keep the history short: continue from the newest tree in a container of one
      std::unique_ptr<ForestContainer> nf(new ForestContainer(p.T, p.dim, p.kind == 0)); nf->AddSamples(1); nf->GetEnsemble(0)->GetTree(0)->CloneFromTree(p.cur()->GetTree(0)); p.fc = std::move(nf); } }
  double tv = 0; for (auto& q : ts->prob) { auto it = obs.find(q.first); double o = it == obs.end() ? 0 : it->second / (double)L; tv += std::fabs(o - q.second) / 2; }
  for (auto& o : obs) if (!ts->prob.count(o.first)) { cx.fail("C10", "forbidden", "%s: the chain visits a tree outside the posterior's support: %s", what.c_str(), o.first.c_str()); break; }
  cx.count("chain_steps", L); cx.count("trees_enumerated", ts->all.size()); cx.count("trees_visited", obs.size());
  if (tv > 0.5 && !deep) cx.fail("C10", "long-run", "%s: after %ld steps the visited frequencies are %.3f (total variation) from the posterior", what.c_str(), L, tv);
  for (auto& o : obs) cx.dist("trees", what + o.first);
  cx.sample(what);
}
// several trees: parameters from the prior, outcomes from the model, then sweeps: the trees must still follow the prior
SUITE(joint) {
  std::unique_ptr<Part> pp; std::unique_ptr<TreeSpace> ts; double s2 = r.uni(0.3, 2);
  for (int tries = 0;; tries++) {
    pp.reset(new Part()); pp->kind = r.in(0, 2); pp->T = r.in(2, 3); small_problem(r, *pp, 3, tries > 5 ? 5 : 7, 2, false, true);
    pp->min_leaf = r.pick({1, 1, 2}); double al = r.pick({0.5, 0.8, 0.95}), be = r.pick({0.5, 1.0, 2.0}); pp->prior.reset(new TreePrior(al, be, pp->min_leaf));
    ts.reset(new TreeSpace()); ts->y = &pp->d.y; ts->s2 = s2; ts->prior_only = true; if (space(r, *pp, *ts, 1500) && ts->all.size() > 1) break;
  }
  Part& p = *pp; int n = p.d.n; uint32_t full = (1u << n) - 1; std::mt19937 gen((unsigned)r.next()); ColumnVector resid(p.d.y.data(), n);
  int steps = r.pick({1, 3, 6}); long reps = 8000; std::map<string, long> obs; std::map<string, long> pairs; Pit leaf;
  Eigen::MatrixXd L = Eigen::LLT<Eigen::MatrixXd>(p.Sig).matrixL();
  for (long q = 0; q < reps; q++) {
    fresh(p);
    for (int j = 0; j < p.T; j++) { Tree* t = p.cur()->GetTree(j); size_t pos = 0; build_tree(r, p, t, j, gen, ts->draw(r), pos, 0, full);
      for (int l : vector<int>(t->GetLeaves().begin(), t->GetLeaves().end())) { Eigen::VectorXd z(p.dim); for (int k = 0; k < p.dim; k++) z(k) = r.norm(); if (p.kind == 2) z = L * z; else z *= std::sqrt(p.tau); vector<double> v(z.data(), z.data() + p.dim); set_leaf(t, l, v); } }
    for (int i = 0; i < n; i++) { double sd = std::sqrt(s2 * (p.d.has_w ? p.d.w[i] : 1)); resid.SetElement(i, p.fit(i) + sd * r.norm()); }
    for (int j = 0; j < p.T; j++) take_out(p, resid, j);
    for (int s = 0; s < steps; s++) p.pass(false, 0, resid, gen, s2);
    for (int j = 0; j < p.T; j++) obs[tree_key(p, p.cur()->GetTree(j), 0, full)] += j == (int)(q % p.T);
    for (int j = 0; j < p.T; j++) { int nid = p.leaf(j, (int)(q % n)); Eigen::VectorXd v(p.dim); for (int k = 0; k < p.dim; k++) v(k) = p.cur()->GetTree(j)->LeafValue(nid, k); if (p.kind == 2) whiten(leaf, v, Eigen::VectorXd::Zero(p.dim), p.Sig); else leaf.add(v(0) / std::sqrt(p.tau)); }
  }
  for (auto it = obs.begin(); it != obs.end();) if (!it->second) it = obs.erase(it); else ++it;
  string what = pdesc(p) + " T=" + std::to_string(p.T) + " after " + std::to_string(steps) + " sweeps of jointly drawn parameters and outcomes";
  freq_test(cx, "C10", "joint-trees", ts->prob, obs, what); leaf.test(cx, "C10", "joint-leaves", what);
  for (auto& o : obs) cx.dist("trees", what + o.first); cx.sample(what);
}

// ------------------------------------------------ C11: every choice made by grow-from-root, tallied by node and compared with its exact weights
SUITE(gfr) {
  Part p; p.kind = r.in(0, 2); p.T = 1; small_problem(r, p, cx.kase % 4 == 3 ? 13 : 2, 16, 3, true, true); int n = p.d.n; bool deep = cx.kase % 4 == 3, sharp = cx.kase % 8 == 5; double s2 = deep ? 1e4 : sharp ? r.pick({1e-4, 1e-6}) : r.pick({0.3, 1.0, 3.0}); std::mt19937 gen((unsigned)r.next());
  p.min_leaf = deep ? 1 : r.pick({1, 1, 2, 4}); double alpha = deep ? r.pick({0.9, 0.99}) : r.pick({0.5, 0.8, 0.95}), beta = deep ? r.pick({0.05, 0.2, 0.5}) : r.pick({0.0, 0.5, 1.0, 2.0}); p.prior.reset(new TreePrior(alpha, beta, p.min_leaf)); int grid = deep ? 100 : r.pick({2, 4, 8, 100, 500});
  fresh(p); ColumnVector resid(p.d.y.data(), n); draw_leaves(p, p.cur()->GetTree(0), 0, resid, s2, gen); take_out(p, resid, 0);
  struct Choice { std::map<string, long> n; int depth; uint32_t m; }; std::map<string, Choice> tally; long reps = deep ? 50000 : 12000;
  for (long q = 0; q < reps; q++) {
    p.pass(true, grid, resid, gen, s2); if (p.fc->NumSamples() >= 50) { std::unique_ptr<ForestContainer> nf(new ForestContainer(1, p.dim, p.kind == 0)); nf->AddSamples(1); nf->GetEnsemble(0)->GetTree(0)->CloneFromTree(p.cur()->GetTree(0)); p.fc = std::move(nf); }
    Tree* t = p.cur()->GetTree(0);
    std::function<void(int, uint32_t, int)> walk = [&](int nid, uint32_t m, int d) {
      Choice& c = tally[std::to_string(m) + "@" + std::to_string(d)]; c.depth = d; c.m = m; cx.count("choices");
      if (t->IsLeaf(nid)) { c.n["stop"]++; return; }
      int f = t->SplitIndex(nid); uint32_t l = 0; for (int i = 0; i < n; i++) if (m >> i & 1) { bool left = t->NodeType(nid) == TreeNodeType::kCategoricalSplitNode ? [&] { auto v = t->CategoryList(nid); return std::count(v.begin(), v.end(), (uint32_t)p.d.x(i, f)) > 0; }() : p.d.x(i, f) <= t->Threshold(nid); if (left) l |= 1u << i; }
      c.n[std::to_string(f) + ":" + std::to_string(l)]++; walk(t->LeftChild(nid), l, d + 1); walk(t->RightChild(nid), m & ~l, d + 1); };
    walk(0, (1u << n) - 1, 0);
  }
  string what0 = pdesc(p) + " grid=" + std::to_string(grid) + " alpha=" + std::to_string(alpha) + " beta=" + std::to_string(beta);
  // nodes seen often are compared one by one; of the others some of each depth are pooled
  std::map<int, int> pooled; std::map<int, Pit> pool; std::map<int, std::array<double, 3>> stops;
  for (auto& kv : tally) {
    Choice& c = kv.second; long tot = 0; for (auto& o : c.n) tot += o.second; bool rare = tot < (deep ? 2000 : 300); if (rare && (__builtin_popcount(c.m) < 2 || pooled[c.depth]++ >= (deep ? 600 : 100))) continue;
    vector<int> rows; for (int i = 0; i < n; i++) if (c.m >> i & 1) rows.push_back(i); int m = rows.size();
    auto lm = [&](uint32_t s) { vector<int> v; for (int i = 0; i < n; i++) if (s >> i & 1) v.push_back(i); return logml(p, p.d.y, v, s2); };
    std::map<string, double> lw; std::set<string> names;
    auto offer = [&](int f, uint32_t l) { int a = __builtin_popcount(l), b = m - a; if (a < p.min_leaf || b < p.min_leaf || !a || !b) return; lw[std::to_string(f) + ":" + std::to_string(l)] = lm(l) + lm(c.m & ~l); };
    for (int f = 0; f < p.d.p; f++) {
      if (p.d.vw[f] <= 0) continue;
      if (p.d.types[f] == FeatureType::kUnorderedCategorical) { std::map<double, std::pair<double, int>> by; for (int i : rows) { auto& e = by[p.d.x(i, f)]; e.first += p.d.y[i]; e.second++; } vector<std::pair<double, double>> o; for (auto& e : by) o.push_back({e.second.first / e.second.second, e.first}); std::sort(o.begin(), o.end()); uint32_t l = 0; for (size_t k = 0; k + 1 < o.size(); k++) { for (int i : rows) if (p.d.x(i, f) == o[k].second) l |= 1u << i; offer(f, l); } continue; }
      vector<double> cuts;
      if (p.d.types[f] == FeatureType::kOrderedCategorical || m <= grid) { std::set<double> v; for (int i : rows) v.insert(p.d.x(i, f)); cuts.assign(v.begin(), v.end()); }
      else { // the candidates the library's own grid offers for exactly these rows (their correctness is C07's subject)
        ForestDataset sub; vector<double> X, y; for (int i : rows) { for (int g = 0; g < p.d.p; g++) X.push_back(p.d.x(i, g)); y.push_back(p.d.y[i]); } sub.AddCovariates(X.data(), m, p.d.p, true); ColumnVector ys(y.data(), m); ForestTracker tr(sub.GetCovariates(), p.d.types, 1, m);
        CutpointGridContainer box(sub.GetCovariates(), ys.GetData(), grid); box.CalculateStrides(sub.GetCovariates(), ys.GetData(), tr.GetSortedNodeSampleTracker(), 0, 0, m, f, p.d.types); for (int k = 0; k < box.NumCutpoints(f); k++) cuts.push_back(box.CutpointValue(k, f)); cx.count("thinned_nodes"); }
      for (double v : cuts) { uint32_t l = 0; for (int i : rows) if (p.d.x(i, f) <= v) l |= 1u << i; offer(f, l); }
    }
    size_t cands = lw.size(); lw["stop"] = lm(c.m) + std::log(std::pow(1.0 + c.depth, beta) / alpha - 1) + std::log((double)std::max<size_t>(1, cands));
    double mx = -kInf; for (auto& e : lw) mx = std::max(mx, e.second); double t = 0; for (auto& e : lw) t += std::exp(e.second - mx); std::map<string, double> pr; for (auto& e : lw) pr[e.first] = std::exp(e.second - mx) / t;
    if (rare) {
      vector<std::pair<double, string>> o; for (auto& e : pr) o.push_back({-e.second, e.first}); std::sort(o.begin(), o.end());
      for (auto& e : c.n) { if (!pr.count(e.first)) { cx.fail("C11", "split-choice", "%s node rows %s: impossible outcome %s seen %ld times", what0.c_str(), kv.first.c_str(), e.first.c_str(), e.second); return; }
        double lo = 0, hi = 0; for (auto& q : o) { hi = lo - q.first; if (q.second == e.first) break; lo = hi; } for (long k = 0; k < e.second; k++) pool[c.depth].u(std::min(1 - 1e-13, std::max(1e-13, r.uni(lo, hi)))); }
      auto& st = stops[c.depth]; st[0] += c.n.count("stop") ? c.n["stop"] : 0; st[1] += tot * pr["stop"]; st[2] += tot * pr["stop"] * (1 - pr["stop"]); cx.count("nodes_pooled"); continue;
    }
    freq_test(cx, "C11", "split-choice", pr, c.n, what0 + " node rows " + kv.first); cx.count("nodes_compared"); cx.dist("nodes", what0 + kv.first);
  }
  for (auto& kv : pool) { string w = what0 + " nodes of depth " + std::to_string(kv.first); for (size_t k = kv.second.z.size(); k > 1; k--) std::swap(kv.second.z[k - 1], kv.second.z[r.in(0, (int)k - 1)]); kv.second.test(cx, "C11", "pooled-choice", w); auto& st = stops[kv.first];
    if (st[2] > 20) { cx.count("pooled_depths"); if (std::fabs(st[0] - st[1]) > 7.5 * std::sqrt(st[2])) cx.fail("C11", "pooled-stop", "%s: %.0f nodes not split, expected %.1f (%.1f standard errors)", w.c_str(), st[0], st[1], (st[0] - st[1]) / std::sqrt(st[2])); } }
  cx.sample(what0);
}

// ------------------------------------------------ C12
static double rand_ig(std::mt19937& g, double a, double b) { std::gamma_distribution<double> d(a, 1.0 / b); return 1.0 / d(g); }
SUITE(variance) {
  std::mt19937 gen((unsigned)r.next()); Pit glob, leaf; string what;
  for (int c = 0; c < 6; c++) {
    int n = r.pick({1, 1, 2, 3, 5, 10, 40, 200}); double nu = r.pick({0.0, 0.5, 3.0, 1.0, 6.0}), lam = r.uni(0.1, 3), sd = r.pick({0.1, 1.0, 10.0}); GlobalHomoskedasticVarianceModel g; Pit one;
    vector<double> e(n);
    for (int q = 0; q < 4000; q++) { double ss = 0; if (q % 50 == 0) for (auto& v : e) v = sd * r.norm() + 0.3; for (double v : e) ss += v * v; Eigen::VectorXd ev = Eigen::Map<Eigen::VectorXd>(e.data(), n); double x = g.SampleVarianceParameter(ev, nu, lam, gen); one.u(ig_cdf(x, nu + n / 2.0, nu * lam + ss / 2)); }
    std::ostringstream o; o << "error variance n=" << n << " nu=" << nu << " lambda=" << lam; one.test(cx, "C12", "error-variance", o.str()); what += o.str() + "; "; cx.dist("settings", o.str());
    // leaf scale of random forests
    int T = r.in(1, 5); double a = r.pick({0.5, 1.0, 3.0}), b = r.uni(0.1, 2); LeafNodeHomoskedasticVarianceModel lm; Pit two; std::unique_ptr<TreeEnsemble> en;
    for (int q = 0; q < 4000; q++) {
      if (q % 100 == 0) { en.reset(new TreeEnsemble(T, 1, r.flip())); for (int j = 0; j < T; j++) { RandTreeOpt ro; ro.p = 3; ro.grows = r.in(0, 4); rand_grow(r, en->GetTree(j), ro); for (int l : vector<int>(en->GetTree(j)->GetLeaves().begin(), en->GetTree(j)->GetLeaves().end())) en->GetTree(j)->SetLeaf(l, r.norm()); } }
      double L = 0, ss = 0; for (int j = 0; j < T; j++) { Tree* t = en->GetTree(j); vector<int> nodes; reachable(t, 0, nodes); for (int nid : nodes) if (t->IsLeaf(nid)) { L++; ss += t->LeafValue(nid) * t->LeafValue(nid); } }
      two.u(ig_cdf(lm.SampleVarianceParameter(en.get(), a, b, gen), a + L / 2, b + ss / 2)); }
    std::ostringstream o2; o2 << "leaf scale trees=" << T << " a=" << a << " b=" << b; two.test(cx, "C12", "leaf-scale", o2.str()); cx.dist("settings", o2.str());
  }
  cx.sample(what);
}
// variances inside full sweeps: parameters from the prior, outcomes from the model, sweeps over trees and variances: the variances must still follow their priors
SUITE(jointvar) {
  std::unique_ptr<Part> pp; std::unique_ptr<TreeSpace> ts;
  for (;;) { pp.reset(new Part()); pp->kind = r.in(0, 1); pp->T = r.in(1, 2); small_problem(r, *pp, 3, 6, 2, false, false); pp->min_leaf = 1; pp->prior.reset(new TreePrior(0.8, 1.0, 1)); ts.reset(new TreeSpace()); ts->y = &pp->d.y; ts->s2 = 1; ts->prior_only = true; if (space(r, *pp, *ts, 1500)) break; }
  Part& p = *pp; int n = p.d.n; uint32_t full = (1u << n) - 1; std::mt19937 gen((unsigned)r.next()); ColumnVector resid(p.d.y.data(), n); double nu = r.uni(2, 6), lam = r.uni(0.3, 2), a = r.uni(2, 5), b = r.uni(0.3, 3);
  Pit ps, pt; GlobalHomoskedasticVarianceModel gv; LeafNodeHomoskedasticVarianceModel lv; int steps = r.in(1, 3);
  for (long q = 0; q < 6000; q++) {
    double s2 = rand_ig(gen, nu, nu * lam), tau = rand_ig(gen, a, b); p.tau = tau; p.m0->SetScale(tau); p.m1->SetScale(tau); fresh(p);
    for (int j = 0; j < p.T; j++) { Tree* t = p.cur()->GetTree(j); size_t pos = 0; build_tree(r, p, t, j, gen, ts->draw(r), pos, 0, full); for (int l : vector<int>(t->GetLeaves().begin(), t->GetLeaves().end())) t->SetLeaf(l, std::sqrt(tau) * r.norm()); }
    for (int i = 0; i < n; i++) resid.SetElement(i, p.fit(i) + std::sqrt(s2) * r.norm());
    for (int j = 0; j < p.T; j++) take_out(p, resid, j);
    for (int s = 0; s < steps; s++) { p.pass(false, 0, resid, gen, s2); s2 = gv.SampleVarianceParameter(resid.GetData(), nu, lam, gen); tau = lv.SampleVarianceParameter(p.cur(), a, b, gen); p.tau = tau; p.m0->SetScale(tau); p.m1->SetScale(tau); }
    ps.u(ig_cdf(s2, nu, nu * lam)); pt.u(ig_cdf(tau, a, b));
  }
  ps.test(cx, "C12", "joint-error-variance", pdesc(p)); pt.test(cx, "C12", "joint-leaf-scale", pdesc(p)); cx.dist("settings", "joint " + pdesc(p) + std::to_string(nu)); cx.sample("joint " + pdesc(p));
}

// ------------------------------------------------ C14
SUITE(rfxdist) {
  int n = r.in(1, 30); Rfx x; x.init(r, n); std::mt19937 gen((unsigned)r.next()); ColumnVector resid; vector<double> y(n); resid = ColumnVector(y.data(), n); Pit g, w, v; int C = x.C, G = x.G;
  if (C > 1 && r.flip()) { double c = 0.3 * std::sqrt(x.wcov(0, 0) * x.wcov(1, 1)); x.wcov(0, 1) = x.wcov(1, 0) = c; x.m->SetWorkingParameterCovariance(x.wcov); }
  std::map<int32_t, vector<int>> rows; for (int i = 0; i < n; i++) rows[x.lab[i]].push_back(i);
  for (int q = 0; q < 1200; q++) {
    for (int i = 0; i < n; i++) resid.SetElement(i, r.norm() * 1.5); double s2 = r.uni(0.3, 2); bool reset = q % 40 == 0;
    if (reset) { Eigen::VectorXd a(C); for (int k = 0; k < C; k++) a(k) = r.uni(-1.5, 1.5); x.m->SetWorkingParameter(a); Eigen::MatrixXd S = Eigen::MatrixXd::Identity(C, C); for (int k = 0; k < C; k++) S(k, k) = r.uni(0.3, 2); x.m->SetGroupParameterCovariance(S); }
    Eigen::VectorXd a0 = x.m->GetWorkingParameter(); Eigen::MatrixXd S0 = x.m->GetGroupParameterCovariance(); vector<double> part(n); for (int i = 0; i < n; i++) part[i] = resid.GetElement(i) + x.tr->GetPrediction(i);
    x.m->SampleRandomEffects(x.ds, resid, *x.tr, s2, gen);
    Eigen::MatrixXd xi = x.m->GetGroupParameters(); Eigen::VectorXd a1 = x.m->GetWorkingParameter(); Eigen::MatrixXd S1 = x.m->GetGroupParameterCovariance();
    Eigen::MatrixXd A = x.wcov.inverse(); Eigen::VectorXd B = Eigen::VectorXd::Zero(C);
    for (auto& kv : rows) { int k0 = x.idx(kv.first); Eigen::MatrixXd P = S0.inverse(); Eigen::VectorXd b = Eigen::VectorXd::Zero(C);
      for (int i : kv.second) { Eigen::VectorXd z(C), u(C); for (int k = 0; k < C; k++) { double bi = x.B[(size_t)i * C + k]; z(k) = bi * a0(k); u(k) = bi * xi(k, k0); } P += z * z.transpose() / s2; b += z * part[i] / s2; A += u * u.transpose() / s2; B += u * part[i] / s2; }
      Eigen::MatrixXd V = P.inverse(); whiten(g, xi.col(k0), V * b, V); }
    Eigen::MatrixXd VA = A.inverse(); whiten(w, a1, VA * B, VA);
    for (int k = 0; k < C; k++) { double ss = 0; for (int q2 = 0; q2 < G; q2++) ss += xi(k, q2) * xi(k, q2); v.u(ig_cdf(S1(k, k), x.shape + G / 2.0, x.scale + ss / 2)); for (int k2 = 0; k2 < C; k2++) if (k2 != k && S1(k, k2) != 0) { cx.fail("C14", "off-diagonal", "component covariance has an off-diagonal entry"); return; } }
    cx.count("rfx_passes");
  }
  std::ostringstream o; o << "n=" << n << " components=" << C << " groups=" << G; g.test(cx, "C14", "group-effects", o.str()); w.test(cx, "C14", "multiplier", o.str()); v.test(cx, "C14", "component-variance", o.str()); cx.dist("problems", o.str() + std::to_string(x.B[0] + x.shape)); cx.sample(o.str());
}
// parameters from the prior, outcomes from the model, sweeps: parameters must still follow the prior
SUITE(jointrfx) {
  int n = r.in(2, 12); Rfx x; x.init(r, n, 2); std::mt19937 gen((unsigned)r.next()); int C = x.C, G = x.G; vector<double> y(n); Pit pa, pv, px; double s2 = r.uni(0.3, 2); int steps = r.in(1, 4); x.shape = r.uni(2, 4); x.m->SetVariancePriorShape(x.shape);
  for (int q = 0; q < 6000; q++) {
    Eigen::VectorXd a(C); Eigen::MatrixXd S = Eigen::MatrixXd::Zero(C, C), xi(C, G); for (int k = 0; k < C; k++) { a(k) = std::sqrt(x.wcov(k, k)) * r.norm(); S(k, k) = rand_ig(gen, x.shape, x.scale); for (int g = 0; g < G; g++) xi(k, g) = std::sqrt(S(k, k)) * r.norm(); }
    x.m->SetWorkingParameter(a); x.m->SetGroupParameters(xi); x.m->SetGroupParameterCovariance(S); x.started = true; ColumnVector resid(y.data(), n);
    for (int i = 0; i < n; i++) { double f = x.fit(i); x.tr->SetPrediction(i, f); resid.SetElement(i, std::sqrt(s2) * r.norm()); }
    for (int s = 0; s < steps; s++) x.m->SampleRandomEffects(x.ds, resid, *x.tr, s2, gen);
    for (int k = 0; k < C; k++) { double v = x.m->GetGroupParameterCovariance()(k, k); pa.add(x.m->GetWorkingParameter()(k) / std::sqrt(x.wcov(k, k))); pv.u(ig_cdf(v, x.shape, x.scale)); px.add(x.m->GetGroupParameters()(k, q % G) / std::sqrt(v)); }
  }
  std::ostringstream o; o << "joint n=" << n << " components=" << C << " groups=" << G << " sweeps=" << steps; pa.test(cx, "C14", "joint-multiplier", o.str()); pv.test(cx, "C14", "joint-variance", o.str()); px.test(cx, "C14", "joint-group", o.str()); cx.dist("problems", o.str() + std::to_string(s2)); cx.sample(o.str());
}
int main(int c, char** v) { return mon::main_(c, v); }
