// A posterior-sampling session built from the public sampler classes: forests sharing one residual, optional random effects.
#pragma once
#include "mon.h"
namespace mon {
struct Part {  // one forest term of the model
  int kind = 0;  // 0 constant leaves, 1 one coefficient, 2 several
  Data d; int T = 1; int dim = 1;
  std::unique_ptr<ForestContainer> fc; std::unique_ptr<ForestTracker> tr;
  std::unique_ptr<GaussianConstantLeafModel> m0; std::unique_ptr<GaussianUnivariateRegressionLeafModel> m1; std::unique_ptr<GaussianMultivariateRegressionLeafModel> m2;
  MCMCForestSampler<GaussianConstantLeafModel> mc0; MCMCForestSampler<GaussianUnivariateRegressionLeafModel> mc1; MCMCForestSampler<GaussianMultivariateRegressionLeafModel> mc2;
  std::unique_ptr<TreePrior> prior; double tau = 1; Eigen::MatrixXd Sig;
  bool preinit = false; bool started = false;
  void init(Rng& r) {
    dim = kind == 2 ? d.nb : 1;
    fc.reset(new ForestContainer(T, dim, kind == 0));
    tr.reset(new ForestTracker(d.ds.GetCovariates(), d.types, T, d.n));
    scale(r);
    m0.reset(new GaussianConstantLeafModel(tau)); m1.reset(new GaussianUnivariateRegressionLeafModel(tau)); m2.reset(new GaussianMultivariateRegressionLeafModel(Sig));
    new_prior(r);
  }
  void scale(Rng& r) {
    tau = r.pick({0.05, 0.5, 2.0}) * r.uni(0.5, 2) / T;
    Sig = Eigen::MatrixXd::Zero(dim, dim);
    for (int i = 0; i < dim; i++) Sig(i, i) = tau * r.uni(0.5, 2);
    if (dim > 1) { double c = r.uni(-0.5, 0.5) * std::sqrt(Sig(0, 0) * Sig(1, 1)); Sig(0, 1) = Sig(1, 0) = c; }
    if (m0) { m0->SetScale(tau); m1->SetScale(tau); m2->SetScale(Sig); }
  }
  int min_leaf = 1;
  void new_prior(Rng& r) { min_leaf = r.pick({1, 1, 1, 2, 3, 5}); prior.reset(new TreePrior(r.pick({0.5, 0.95, 0.99}), r.pick({0.3, 1.0, 2.0}), min_leaf)); }
  bool basis() const { return kind > 0; }
  void pass(bool gfr, int grid, ColumnVector& resid, std::mt19937& gen, double s2) {
    bool pi = preinit && !started;
    if (gfr) {
      if (kind == 0) GFRForestSampler<GaussianConstantLeafModel>(grid).SampleOneIter(*tr, *fc, *m0, d.ds, resid, *prior, gen, d.vw, s2, d.types, pi);
      else if (kind == 1) GFRForestSampler<GaussianUnivariateRegressionLeafModel>(grid).SampleOneIter(*tr, *fc, *m1, d.ds, resid, *prior, gen, d.vw, s2, d.types, pi);
      else GFRForestSampler<GaussianMultivariateRegressionLeafModel>(grid).SampleOneIter(*tr, *fc, *m2, d.ds, resid, *prior, gen, d.vw, s2, d.types, pi);
    } else {
      if (kind == 0) mc0.SampleOneIter(*tr, *fc, *m0, d.ds, resid, *prior, gen, d.vw, s2, pi);
      else if (kind == 1) mc1.SampleOneIter(*tr, *fc, *m1, d.ds, resid, *prior, gen, d.vw, s2, pi);
      else mc2.SampleOneIter(*tr, *fc, *m2, d.ds, resid, *prior, gen, d.vw, s2, pi);
    }
    started = true;
  }
  TreeEnsemble* cur() { return fc->GetEnsemble(started ? fc->NumSamples() - 1 : 0); }
  int leaf(int j, int i) { return route(cur()->GetTree(j), [&](int f) { return d.x(i, f); }); }
  double tree_fit(int j, int i) { Tree* t = cur()->GetTree(j); int nid = leaf(j, i); if (kind == 0) return t->LeafValue(nid, 0); double s = 0; for (int k = 0; k < dim; k++) s += t->LeafValue(nid, k) * d.b(i, k); return s; }
  double fit(TreeEnsemble* e, int i) { double s = 0; for (int j = 0; j < T; j++) { Tree* t = e->GetTree(j); int nid = route(t, [&](int f) { return d.x(i, f); }); if (kind == 0) s += t->LeafValue(nid, 0); else for (int k = 0; k < dim; k++) s += t->LeafValue(nid, k) * d.b(i, k); } return s; }
  double fit(int i) { double s = 0; for (int j = 0; j < T; j++) s += tree_fit(j, i); return s; }
  void new_basis(Rng& r) { int z = r.in(0, 5); for (auto& v : d.B) v = z == 1 ? (double)r.in(0, 1) : z == 2 && r.flip(0.3) ? 0.0 : r.norm();
    if (z == 3) for (int i = 0; i < d.n; i++) if (r.flip(0.4)) for (int k = 0; k < d.nb; k++) d.B[(size_t)i * d.nb + k] = r.flip() ? 0.0 : -0.0;  // rows that leave the model
    if (z == 4) for (auto& v : d.B) v = 0;
    bool rm = r.flip(); vector<double> c(d.B.size()); for (int i = 0; i < d.n; i++) for (int k = 0; k < d.nb; k++) c[(size_t)k * d.n + i] = d.b(i, k); d.ds.UpdateBasis(rm ? d.B.data() : c.data(), d.n, d.nb, rm); }
};
struct Rfx {
  int C = 1, G = 0; vector<int32_t> lab; vector<double> B; vector<int32_t> labels;
  RandomEffectsDataset ds; std::unique_ptr<RandomEffectsTracker> tr; std::unique_ptr<MultivariateRegressionRandomEffectsModel> m; std::unique_ptr<RandomEffectsContainer> cont; bool started = false;
  Eigen::MatrixXd wcov, gcov; double shape = 1, scale = 1;
  void init(Rng& r, int n, int maxc = 3, int maxg = 6) {
    C = r.in(maxc > 3 ? maxc / 2 : 1, maxc); int g = r.in(maxg > 6 ? maxg / 2 : 1, std::min(n, maxg));
    vector<int32_t> pool; while ((int)pool.size() < g) { int32_t v = r.pick({r.in(-5, 20), r.in(0, 3), r.in(1000, 100000), -r.in(1, 1000)}); if (std::find(pool.begin(), pool.end(), v) == pool.end()) pool.push_back(v); }
    lab.resize(n); for (auto& l : lab) l = r.pick(pool);
    if (r.flip(0.3)) { std::sort(lab.begin(), lab.end()); if (n > 1 && r.flip()) lab[n - 1] = 200000; }
    std::set<int32_t> u(lab.begin(), lab.end()); labels.assign(u.begin(), u.end()); G = labels.size();
    B.resize((size_t)n * C); for (int i = 0; i < n; i++) for (int k = 0; k < C; k++) B[(size_t)i * C + k] = k == 0 ? 1.0 : r.norm();
    ds.AddBasis(B.data(), n, C, true); ds.AddGroupLabels(lab);
    tr.reset(new RandomEffectsTracker(lab)); m.reset(new MultivariateRegressionRandomEffectsModel(C, G)); cont.reset(new RandomEffectsContainer(C, G));
    Eigen::VectorXd a(C); for (int k = 0; k < C; k++) a(k) = r.uni(0.5, 1.5);
    Eigen::MatrixXd xi(C, G); for (int k = 0; k < C; k++) for (int q = 0; q < G; q++) xi(k, q) = r.norm();
    wcov = Eigen::MatrixXd::Identity(C, C) * r.uni(0.5, 2); gcov = Eigen::MatrixXd::Identity(C, C) * r.uni(0.5, 2);
    shape = r.uni(1, 3); scale = r.uni(0.5, 2);
    m->SetWorkingParameter(a); m->SetGroupParameters(xi); m->SetWorkingParameterCovariance(wcov); m->SetGroupParameterCovariance(gcov); m->SetVariancePriorShape(shape); m->SetVariancePriorScale(scale);
  }
  int idx(int32_t l) const { return std::lower_bound(labels.begin(), labels.end(), l) - labels.begin(); }
  double fit(int i) { if (!started) return 0; double s = 0; int g = idx(lab[i]); for (int k = 0; k < C; k++) s += B[(size_t)i * C + k] * m->GetWorkingParameter()(k) * m->GetGroupParameters()(k, g); return s; }
};
// sizes asked of a large case; 0 leaves the choice to the session
struct Large { int n = 0, T = 0, p = 0, ncat = 0, dim = 0; };

struct Session {
  vector<std::unique_ptr<Part>> parts; std::unique_ptr<Rfx> rfx; int n = 0; vector<double> y; ColumnVector resid; double ymag = 1;
  void build(Rng& r, int nmax, int tmax, bool allow_rfx = true, int only_kind = -1, Large L = Large()) {
    int F = r.flip(0.3) ? 2 : 1;
    for (int f = 0; f < F; f++) {
      parts.emplace_back(new Part()); Part& p = *parts.back();
      p.kind = only_kind >= 0 ? only_kind : r.pick({0, 0, 1, 1, 2});
      GenOpt o; o.nb = p.kind == 0 ? (r.flip(0.2) ? 1 : 0) : p.kind == 1 ? 1 : L.dim ? L.dim : r.in(2, 3);
      o.nmax = p.kind == 2 ? std::min(nmax, 30) : nmax; o.nmin = 1;
      if (r.flip(0.1)) o.nmax = 4;
      if (L.n) { o.nmax = L.n; o.nmin = L.n / 2; } if (L.p) { o.pmin = L.p / 2; o.pmax = L.p; } if (L.ncat) { o.ncat = L.ncat; o.nmin = o.nmax = 4 * L.ncat; }
      if (f) o.nmin = o.nmax = n;
      gen_data(r, p.d, o); n = p.d.n; p.T = L.T ? r.in(L.T / 2, L.T) : r.in(1, tmax); p.init(r);
      if (L.n && r.flip()) { p.min_leaf = r.in(1, L.n / 8); p.prior.reset(new TreePrior(0.95, r.pick({0.3, 1.0}), p.min_leaf)); }
    }
    y = parts[0]->d.y;
    bool centred = r.flip(0.5);
    if (centred) { double m = 0; for (double v : y) m += v; m /= n; for (double& v : y) v -= m; }
    resid = ColumnVector(y.data(), n); for (double v : y) ymag = std::max(ymag, std::fabs(v));
    for (auto& p : parts) {
      p->preinit = r.flip(0.4) || (p->kind == 2 && !(F == 1 && centred));
      if (p->preinit) {
        auto v = rand_leaf(r, p->dim); for (auto& q : v) if (std::fabs(q) > 100) q = 1;
        if (p->dim == 1) p->fc->InitializeRoot(v[0]); else p->fc->InitializeRoot(v);
        UpdateResidualEntireForest(*p->tr, p->d.ds, resid, p->fc->GetEnsemble(0), p->basis(), std::minus<double>());
      }
    }
    if (allow_rfx && r.flip(0.3)) { rfx.reset(new Rfx()); rfx->init(r, n); }
  }
  double fitted(int i) { double s = 0; for (auto& p : parts) if (p->started || p->preinit) s += p->fit(i); if (rfx) s += rfx->fit(i); return s; }
  string desc() { std::ostringstream o; for (auto& p : parts) o << "[kind " << p->kind << " T=" << p->T << " min=" << p->min_leaf << (p->preinit ? " preinit " : " ") << p->d.desc() << "]"; if (rfx) o << " rfx C=" << rfx->C << " G=" << rfx->G; return o.str(); }
};
// log density (up to row constants shared by all partitions) of a set of rows under the leaf prior
inline double logml(Part& p, const vector<double>& y, const vector<int>& rows, double s2) {
  int m = rows.size(); if (!m) return 0;
  typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> M;
  M K(m, m); Eigen::Matrix<long double, Eigen::Dynamic, 1> v(m);
  for (int a = 0; a < m; a++) { v(a) = y[rows[a]]; for (int b = 0; b < m; b++) {
    long double c = 0;
    if (p.kind == 0) c = p.tau; else if (p.kind == 1) c = (long double)p.tau * p.d.b(rows[a], 0) * p.d.b(rows[b], 0);
    else for (int k = 0; k < p.dim; k++) for (int q = 0; q < p.dim; q++) c += (long double)p.Sig(k, q) * p.d.b(rows[a], k) * p.d.b(rows[b], q);
    if (a == b) c += (long double)s2 * (p.d.has_w ? p.d.w[rows[a]] : 1.0); K(a, b) = c; } }
  Eigen::LLT<M> L(K); long double ld = 0; M l = L.matrixL(); for (int a = 0; a < m; a++) ld += 2 * std::log(l(a, a));
  return (double)(-0.5L * (ld + v.dot(L.solve(v))));
}
}  // namespace mon
