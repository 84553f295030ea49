// C18 data objects hold what they are given; C28 arguments that cannot be honoured are refused and change nothing; CSV reading under the sanitizers
#include "chain.h"
#include <climits>
#include <fstream>
#include <unistd.h>
namespace StochTree { void LoadData(double*, int, int, bool, Eigen::MatrixXd&); void LoadData(double*, int, Eigen::VectorXd&); }
using namespace mon;

static double any(Rng& r) { return r.flip(0.15) ? r.pick({0.0, -0.0, 5e-324, -1e300, kInf, -kInf, std::nan(""), 1.0, 0.1}) : r.norm() * r.pick({1e-6, 1.0, 1e9}); }
struct Mat { int n, p; vector<double> v; double at(int i, int j) const { return v[(size_t)i * p + j]; } };
static Mat rmat(Rng& r, int n, int p) { Mat m{n, p, vector<double>((size_t)n * p)}; for (auto& x : m.v) x = any(r); return m; }
static vector<double> layout(const Mat& m, bool rm) { if (rm) return m.v; vector<double> c(m.v.size()); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) c[(size_t)j * m.n + i] = m.at(i, j); return c; }
template <class F> static bool same(const Mat& m, F get, int& bi, int& bj) { for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) if (!same_bits(m.at(i, j), get(i, j))) { bi = i; bj = j; return false; } return true; }
static void check_eigen(Ctx& cx, const char* key, const Mat& m, const Eigen::MatrixXd& e) {
  cx.count("matrices_checked");
  if (e.rows() != m.n || e.cols() != m.p) { cx.fail("C18", key, "holds %ld x %ld, given %d x %d", (long)e.rows(), (long)e.cols(), m.n, m.p); return; }
  int i = 0, j = 0; if (!same(m, [&](int a, int b) { return e(a, b); }, i, j)) cx.fail("C18", key, "row %d column %d holds %g, given %g (%d x %d)", i, j, e(i, j), m.at(i, j), m.n, m.p);
}
static void check_vec(Ctx& cx, const char* key, const vector<double>& v, const Eigen::VectorXd& e) {
  cx.count("vectors_checked");
  if ((size_t)e.size() != v.size()) { cx.fail("C18", key, "holds %ld values, given %zu", (long)e.size(), v.size()); return; }
  for (size_t i = 0; i < v.size(); i++) if (!same_bits(e(i), v[i])) { cx.fail("C18", key, "element %zu holds %g, given %g", i, e(i), v[i]); return; }
}

SUITE(data) {
  int n = r.pick({1, 2, r.in(1, 40)}), p = r.pick({1, r.in(1, 7)}), q = r.pick({1, r.in(1, 4)});
  if (cx.kase % 200 == 100) { cx.count("large_cases"); if (r.flip()) { n = r.in(500, 4000); p = r.in(1, 20); } else { n = r.in(1, 100); p = r.in(30, 120); q = r.in(1, 40); } }
  std::ostringstream o; o << n << "x" << p << "," << q; cx.dist("shapes", o.str()); cx.sample(o.str());
  Mat X = rmat(r, n, p), B = rmat(r, n, q); vector<double> w(n), y(n); for (auto& v : w) v = any(r); for (auto& v : y) v = any(r);
  bool rx = r.flip(), rb = r.flip(); vector<double> lx = layout(X, rx), lb = layout(B, rb), lx0 = lx, lb0 = lb, w0 = w, y0 = y;
  auto scribble = [&]() { for (auto& v : lx) v = -12345; for (auto& v : lb) v = -12345; for (auto& v : w) v = -12345; for (auto& v : y) v = -12345; };
  auto unchanged = [&](const char* k) { auto eq = [](const vector<double>& a, const vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }; if (!eq(lx, lx0) || !eq(lb, lb0) || !eq(w, w0) || !eq(y, y0)) cx.fail("C18", k, "the caller's array was modified"); };
  int used = r.in(0, 1);
  {  // plain holders
    ColumnMatrix m; ColumnVector v; Eigen::MatrixXd em; Eigen::VectorXd ev;
    if (used) { Mat Z = rmat(r, r.in(1, 9), r.in(1, 5)); m = ColumnMatrix(Z.v.data(), Z.n, Z.p, true); v = ColumnVector(Z.v.data(), Z.n); em = Eigen::MatrixXd::Constant(2, 3, 7); ev = Eigen::VectorXd::Constant(2, 7); }
    m.LoadData(lx.data(), n, p, rx); v.LoadData(y.data(), n); ColumnMatrix m2(lx.data(), n, p, rx); ColumnVector v2(y.data(), n); LoadData(lx.data(), n, p, rx, em); LoadData(y.data(), n, ev);
    unchanged("caller-array"); scribble();
    check_eigen(cx, "matrix", X, m.GetData()); check_eigen(cx, "matrix", X, m2.GetData()); check_eigen(cx, "load-matrix", X, em); check_vec(cx, "vector", y0, v.GetData()); check_vec(cx, "vector", y0, v2.GetData()); check_vec(cx, "load-vector", y0, ev);
    if ((int)m.NumRows() != n || (int)m.NumCols() != p || (int)v.NumRows() != n) cx.fail("C18", "dimensions", "reported %d x %d, %d; given %d x %d", (int)m.NumRows(), (int)m.NumCols(), (int)v.NumRows(), n, p);
    int i = r.in(0, n - 1), j = r.in(0, p - 1); for (int a = 0; a < n; a++) { for (int b = 0; b < p; b++) if (!same_bits(m.GetElement(a, b), X.at(a, b))) { cx.fail("C18", "element", "element (%d,%d)", a, b); a = n - 1; break; } if (!same_bits(v.GetElement(a), y0[a])) cx.fail("C18", "element", "element %d", a); }
    Mat X2 = X; X2.v[(size_t)i * p + j] = 4.25; m.SetElement(i, j, 4.25); auto y2 = y0; y2[i] = -8.5; v.SetElement(i, -8.5); check_eigen(cx, "set-element", X2, m.GetData()); check_vec(cx, "set-element", y2, v.GetData()); check_eigen(cx, "copies-independent", X, m2.GetData()); check_vec(cx, "copies-independent", y0, v2.GetData());
    lx = lx0; lb = lb0; w = w0; y = y0;
  }
  {  // forest data
    ForestDataset d; if (d.HasCovariates() || d.HasBasis() || d.HasVarWeights()) cx.fail("C18", "presence", "an empty dataset reports content");
    if (used) { Mat Z = rmat(r, r.in(1, 9), r.in(1, 5)); d.AddCovariates(Z.v.data(), Z.n, Z.p, r.flip()); }
    bool hb = r.flip(0.7), hw = r.flip(0.7); d.AddCovariates(lx.data(), n, p, rx); if (hb) d.AddBasis(lb.data(), n, q, rb); if (hw) d.AddVarianceWeights(w.data(), n);
    unchanged("caller-array"); scribble(); Mat Bc = B;
    for (int k = r.in(0, 3); k >= 0; k--) {
      check_eigen(cx, "covariates", X, d.GetCovariates()); if (hb) check_eigen(cx, "basis", Bc, d.GetBasis()); if (hw) check_vec(cx, "weights", w0, d.GetVarWeights());
      if (!d.HasCovariates() || d.HasBasis() != hb || d.HasVarWeights() != hw || (int)d.NumObservations() != n || d.NumCovariates() != p || (hb && d.NumBasis() != q)) cx.fail("C18", "presence", "dataset misreports what it holds (%s)", o.str().c_str());
      int i = r.in(0, n - 1); if (!same_bits(d.CovariateValue(i, p - 1), X.at(i, p - 1)) || (hb && !same_bits(d.BasisValue(i, q - 1), Bc.at(i, q - 1))) || (hw && !same_bits(d.VarWeightValue(i), w0[i]))) cx.fail("C18", "element", "row %d misreported", i);
      if (k && hb) {
        Mat N = rmat(r, n, q); bool rn = r.flip(); auto ln = layout(N, rn), ln0 = ln; d.UpdateBasis(ln.data(), n, q, rn); if (memcmp(ln.data(), ln0.data(), 8 * ln.size())) cx.fail("C18", "caller-array", "basis update modified the caller's array"); for (auto& v : ln) v = -9; Bc = N; cx.count("basis_updates");
        bool refused = false; Mat Z = rmat(r, n + 2, q + 2); int dn = r.pick({n, n - 1, n + 1}), dq = r.pick({q, q - 1, q + 1}); if (dn == n && dq == q) dn = n + 1;
        try { d.UpdateBasis(Z.v.data(), dn, dq, r.flip()); } catch (std::exception&) { refused = true; }
        if (!refused) { cx.fail("C28", "basis-update", "a %d x %d basis was accepted in place of a %d x %d one", dn, dq, n, q); return; }
        check_eigen(cx, "basis", Bc, d.GetBasis());
      } else if (k) { bool refused = false; try { d.UpdateBasis(B.v.data(), n, q, true); } catch (std::exception&) { refused = true; } if (!refused) cx.fail("C28", "basis-update", "a basis update without a basis was accepted"); }
    }
    lx = lx0; lb = lb0; w = w0; y = y0;
  }
  {  // random-effects data
    vector<int32_t> g(n); for (auto& v : g) v = r.in(-5, 5); auto g0 = g; RandomEffectsDataset d; bool hw = r.flip();
    d.AddBasis(lb.data(), n, q, rb); d.AddGroupLabels(g); if (hw) d.AddVarianceWeights(w.data(), n); unchanged("caller-array"); scribble(); for (auto& v : g) v = 99;
    check_eigen(cx, "rfx-basis", B, d.GetBasis()); if (d.GetGroupLabels() != g0) cx.fail("C18", "rfx-labels", "group labels differ from those given"); if (hw) check_vec(cx, "rfx-weights", w0, d.GetVarWeights());
    for (int i = 0; i < n; i++) if (d.GroupId(i) != g0[i] || !same_bits(d.BasisValue(i, q - 1), B.at(i, q - 1)) || (hw && !same_bits(d.VarWeightValue(i), w0[i]))) { cx.fail("C18", "rfx-element", "row %d misreported", i); break; }
    if (!d.HasBasis() || !d.HasGroupLabels() || d.HasVarWeights() != hw || (int)d.NumObservations() != n) cx.fail("C18", "presence", "random-effects data misreports what it holds");
  }
}

// ---------------------------------------------------------------- C28
static string tmpdir() { const char* t = getenv("STVERIF_TMP"); string d = (t ? string(t) : string("/tmp")) + "/stv_data_" + std::to_string(getpid()); return d; }
static string state(Part& p) { std::ostringstream o; o << p.fc->NumSamples() << "/" << p.fc->NumTrees() << "/" << p.fc->OutputDimension() << "/" << p.fc->IsLeafConstant(); for (int i = 0; i < p.fc->NumSamples(); i++) o << "\n" << digest(p.fc->GetEnsemble(i)); if (p.fc->NumSamples() == 0 && p.preinit) o << digest(p.fc->GetEnsemble(0)); return o.str(); }
static string vec(const Eigen::MatrixXd& m) { std::ostringstream o; o << m.rows() << "x" << m.cols(); for (long i = 0; i < m.size(); i++) o << "," << hexd(m.data()[i]); return o.str(); }
static string tracker_state(Part& p) { std::ostringstream o; for (int j = 0; j < p.T; j++) for (int i = 0; i < p.d.n; i++) o << p.tr->GetNodeId(i, j) << ":" << hexd(p.tr->GetTreeSamplePrediction(i, j)) << ","; return o.str(); }

static const char* sampler_call(Rng& r, Part& p, ColumnVector& resid, std::mt19937& gen, std::function<void()>& call) {
  int n = p.d.n, P = p.d.p; bool gfr = r.flip(); auto d = std::make_shared<Data>(p.d); d->load(); auto rs = std::make_shared<ColumnVector>(resid);
  auto run = [&p, d, rs, gfr, &gen](ForestTracker& t, ForestContainer& f, vector<double> vw, vector<FeatureType> ty, int kind, int grid) {
    bool pi = p.preinit && !p.started;
    if (gfr) { if (kind == 0) GFRForestSampler<GaussianConstantLeafModel>(grid).SampleOneIter(t, f, *p.m0, d->ds, *rs, *p.prior, gen, vw, 1.0, ty, pi); else if (kind == 1) GFRForestSampler<GaussianUnivariateRegressionLeafModel>(grid).SampleOneIter(t, f, *p.m1, d->ds, *rs, *p.prior, gen, vw, 1.0, ty, pi); else GFRForestSampler<GaussianMultivariateRegressionLeafModel>(grid).SampleOneIter(t, f, *p.m2, d->ds, *rs, *p.prior, gen, vw, 1.0, ty, pi); }
    else { if (kind == 0) MCMCForestSampler<GaussianConstantLeafModel>().SampleOneIter(t, f, *p.m0, d->ds, *rs, *p.prior, gen, vw, 1.0, pi); else if (kind == 1) MCMCForestSampler<GaussianUnivariateRegressionLeafModel>().SampleOneIter(t, f, *p.m1, d->ds, *rs, *p.prior, gen, vw, 1.0, pi); else MCMCForestSampler<GaussianMultivariateRegressionLeafModel>().SampleOneIter(t, f, *p.m2, d->ds, *rs, *p.prior, gen, vw, 1.0, pi); }
  };
  switch (r.in(0, 12)) {
    case 11: { if (p.kind != 2) return nullptr; int m = d->nb + r.pick({-1, 1}); Eigen::MatrixXd V = Eigen::MatrixXd::Identity(m, m); if (r.flip()) V = Eigen::MatrixXd::Ones(d->nb, m); auto lm = std::make_shared<GaussianMultivariateRegressionLeafModel>(V); call = [&p, d, rs, lm, gfr, &gen]() { bool pi = p.preinit && !p.started; if (gfr) GFRForestSampler<GaussianMultivariateRegressionLeafModel>(20).SampleOneIter(*p.tr, *p.fc, *lm, d->ds, *rs, *p.prior, gen, d->vw, 1.0, d->types, pi); else MCMCForestSampler<GaussianMultivariateRegressionLeafModel>().SampleOneIter(*p.tr, *p.fc, *lm, d->ds, *rs, *p.prior, gen, d->vw, 1.0, pi); }; return "leaf scale of another size"; }
    case 10: { if (!gfr) return nullptr; int g = r.pick({0, -1, -500}); call = [&p, d, run, g]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, g); }; return "cutpoint grid size below one"; }
    case 7: { auto ty = d->types; ty.resize(P + r.pick({-1, 1}), FeatureType::kNumeric); int T = p.T; call = [d, ty, T, n]() { auto t2 = ty; ForestTracker t(d->ds.GetCovariates(), t2, T, n); }; return "tracker with feature types of another length"; }
    case 8: { int m = n + r.pick({-1, 1, 5}), T = p.T; call = [d, T, m]() { ForestTracker t(d->ds.GetCovariates(), d->types, T, m); }; return "tracker for another number of rows"; }
    case 9: { int m = P + (P > 1 && r.flip() ? -1 : 1); vector<double> z((size_t)n * m, 0.25); d->ds.AddCovariates(z.data(), n, m, true); auto v = d->vw; v.resize(m, 0.1); auto ty = d->types; ty.resize(m, FeatureType::kNumeric); call = [&p, d, run, v, ty]() { run(*p.tr, *p.fc, v, ty, p.kind, 20); }; return "covariates with other columns than the tracker"; }
    case 0: { int m = r.pick({n - 1, n + 1, n + 7}); vector<double> z(m + 1, 0.5); *rs = ColumnVector(z.data(), m); call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "residual of another length"; }
    case 1: { auto t = std::make_shared<ForestTracker>(d->ds.GetCovariates(), d->types, p.T + r.pick({-1, 1, 2}), n); call = [&p, d, run, t]() { run(*t, *p.fc, d->vw, d->types, p.kind, 20); }; return "tracker for another number of trees"; }
    case 2: { vector<double> z((size_t)(n + 3) * P, 0.25); int m = n + r.pick({1, 3}); d->ds.AddCovariates(z.data(), m, P, true); call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "covariates with more rows than the tracker"; }
    case 3: { d->ds = ForestDataset(); d->ds.AddCovariates(d->X.data(), n, P, true); if (p.kind == 0) { vector<double> w(n + 2, 1.0); d->ds.AddVarianceWeights(w.data(), r.pick({n - 1, n + 2})); call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "row weights of another length"; } call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "no leaf basis"; }
    case 4: { if (p.kind == 0) { auto v = d->vw; v.resize(P + r.pick({-1, 1})); call = [&p, d, run, v]() { run(*p.tr, *p.fc, v, d->types, p.kind, 20); }; return "variable weights of another length"; } vector<double> b((size_t)(n + 2) * (d->nb + 1), 1.0); int m = r.pick({n - 1, n + 2}); d->ds.AddBasis(b.data(), m, d->nb, true); call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "leaf basis with other rows"; }
    case 5: { if (p.kind == 0) return nullptr; vector<double> b((size_t)n * (d->nb + 2), 1.0); int m = d->nb + r.pick({1, 2}); if (p.kind == 2 && d->nb > 1 && r.flip()) m = d->nb - 1; d->ds.AddBasis(b.data(), n, m, true); call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "leaf basis with other columns"; }
    case 6: { if (!gfr) return nullptr; auto ty = d->types; ty.resize(P + r.pick({-1, 1}), FeatureType::kNumeric); call = [&p, d, run, ty]() { run(*p.tr, *p.fc, d->vw, ty, p.kind, 20); }; return "feature types of another length"; }
    default: { if (p.kind != 2 || p.started || p.preinit) return nullptr; vector<double> z(n, (0.2 + r.uni()) * 10 * p.T); *rs = ColumnVector(z.data(), n); call = [&p, d, run]() { run(*p.tr, *p.fc, d->vw, d->types, p.kind, 20); }; return "outcome too far from zero for vector leaves"; }
  }
}

static const double kNan = std::numeric_limits<double>::quiet_NaN();
// calls of the right shape with a number that has no meaning there
static const char* number_call(Rng& r, Part& p, ColumnVector& resid, std::mt19937& gen, std::function<void()>& call) {
  int n = p.d.n, P = p.d.p; bool gfr = r.flip(); auto d = std::make_shared<Data>(p.d); d->load(); auto rs = std::make_shared<ColumnVector>(resid); auto tau = std::make_shared<double>(0.3); auto V = std::make_shared<Eigen::MatrixXd>(Eigen::MatrixXd::Identity(std::max(1, d->nb), std::max(1, d->nb)) * 0.3);
  auto run = [&p, d, rs, gfr, &gen, tau, V](vector<double> vw, double s2) {
    bool pi = p.preinit && !p.started; GaussianConstantLeafModel m0(*tau); GaussianUnivariateRegressionLeafModel m1(*tau); GaussianMultivariateRegressionLeafModel m2(*V);
    if (gfr) { if (p.kind == 0) GFRForestSampler<GaussianConstantLeafModel>(20).SampleOneIter(*p.tr, *p.fc, m0, d->ds, *rs, *p.prior, gen, vw, s2, d->types, pi); else if (p.kind == 1) GFRForestSampler<GaussianUnivariateRegressionLeafModel>(20).SampleOneIter(*p.tr, *p.fc, m1, d->ds, *rs, *p.prior, gen, vw, s2, d->types, pi); else GFRForestSampler<GaussianMultivariateRegressionLeafModel>(20).SampleOneIter(*p.tr, *p.fc, m2, d->ds, *rs, *p.prior, gen, vw, s2, d->types, pi); }
    else { if (p.kind == 0) MCMCForestSampler<GaussianConstantLeafModel>().SampleOneIter(*p.tr, *p.fc, m0, d->ds, *rs, *p.prior, gen, vw, s2, pi); else if (p.kind == 1) MCMCForestSampler<GaussianUnivariateRegressionLeafModel>().SampleOneIter(*p.tr, *p.fc, m1, d->ds, *rs, *p.prior, gen, vw, s2, pi); else MCMCForestSampler<GaussianMultivariateRegressionLeafModel>().SampleOneIter(*p.tr, *p.fc, m2, d->ds, *rs, *p.prior, gen, vw, s2, pi); }
  };
  switch (r.in(0, 9)) {
    case 0: { double v = r.pick({0.0, -1.0, -1e-12, kNan, kInf}); call = [d, run, v]() { run(d->vw, v); }; return "error variance that is no variance"; }
    case 1: { auto w = d->vw; w[r.in(0, P - 1)] = r.pick({-1.0, -1e-9, kNan, kInf}); call = [run, w]() { run(w, 1.0); }; return "variable weight that is no weight"; }
    case 2: { vector<double> w(P, 0.0); call = [run, w]() { run(w, 1.0); }; return "variable weights that are all zero"; }
    case 3: { if (p.kind == 2) { int q = d->nb, c = r.in(0, 3); if (c == 0) *V = -*V; else if (c == 1) (*V)(r.in(0, q - 1), r.in(0, q - 1)) = r.pick({kNan, kInf}); else if (c == 2) V->setZero(); else { if (q < 2) return nullptr; if (r.flip()) (*V)(0, q - 1) += 0.1; else { (*V)(0, q - 1) = (*V)(q - 1, 0) = 0.5; } } } else *tau = r.pick({-1.0, -1e-9, kNan, kInf}); call = [d, run]() { run(d->vw, 1.0); }; return "leaf scale that is no variance"; }
    case 4: { vector<double> z(n, 0.5); z[r.in(0, n - 1)] = r.pick({kNan, kInf, -kInf}); *rs = ColumnVector(z.data(), n); call = [d, run]() { run(d->vw, 1.0); }; return "residual that is not finite"; }
    case 5: { if (p.kind == 0) return nullptr; vector<double> b(d->B.begin(), d->B.end()); b[r.in(0, (int)b.size() - 1)] = r.pick({kNan, kInf, -kInf}); d->ds.AddBasis(b.data(), n, d->nb, true); call = [d, run]() { run(d->vw, 1.0); }; return "leaf basis that is not finite"; }
    case 6: { vector<double> w(n, 1.0); w[r.in(0, n - 1)] = r.pick({0.0, -1.0, kNan, kInf}); d->ds.AddVarianceWeights(w.data(), n); call = [d, run]() { run(d->vw, 1.0); }; return "row weight that is no weight"; }
    case 7: { int c = r.in(0, 2); double a = r.pick({-0.1, 1.1, kNan, kInf}), b = r.pick({-0.1, -5.0, kNan}); int m = r.pick({0, -1, -1000}); bool set = r.flip(); call = [c, a, b, m, set]() { TreePrior q(0.9, 2.0, 1); if (set) { if (c == 0) q.SetAlpha(a); else if (c == 1) q.SetBeta(b); else q.SetMinSamplesLeaf(m); } else TreePrior z(c == 0 ? a : 0.9, c == 1 ? b : 2.0, c == 2 ? m : 1); }; return "tree prior outside its range"; }
    case 8: { int c = r.in(0, 3); double v = r.pick({-1.0, -1e-9, kNan, kInf}); if (c > 1 && (p.kind == 2 || !p.fc->NumSamples())) return nullptr; call = [&p, rs, c, v, &gen]() { if (c < 2) { GlobalHomoskedasticVarianceModel g; g.SampleVarianceParameter(rs->GetData(), c ? 1.0 : v, c ? v : 1.0, gen); } else { LeafNodeHomoskedasticVarianceModel g; g.SampleVarianceParameter(p.fc->GetEnsemble(p.fc->NumSamples() - 1), c == 3 ? 1.0 : v, c == 3 ? v : 1.0, gen); } }; return "variance prior outside its range"; }
    default: { int c = r.in(0, P - 1); auto ty = d->types; ty[c] = r.flip() ? FeatureType::kOrderedCategorical : FeatureType::kUnorderedCategorical; Eigen::MatrixXd X = d->ds.GetCovariates(); for (int i = 0; i < n; i++) X(i, c) = i % 3; X(r.in(0, n - 1), c) = r.pick({kNan, -1.0, 4294967296.0, kInf, -kInf}); int T = p.T; call = [X, ty, T, n]() { auto X2 = X; auto t2 = ty; ForestTracker t(X2, t2, T, n); }; return "category code that is no category"; }
  }
}

SUITE(invalid) {
  Session s; s.build(r, 25, 3, false); std::mt19937 gen((unsigned)r.next()); Part& p = *s.parts[0];
  int passes = r.in(0, 3); for (int k = 0; k < passes; k++) { p.pass(r.flip(0.4), 20, s.resid, gen, 1.0); }
  int n = p.d.n, S = p.fc->NumSamples(), T = p.T; ForestContainer& f = *p.fc; ForestDataset& ds = p.d.ds; bool wide = p.dim > 1;
  string st = state(p), tr = tracker_state(p), res = vec(s.resid.GetData()), X = vec(ds.GetCovariates()), B = p.basis() ? vec(ds.GetBasis()) : "";
  string dir = tmpdir();
  for (int k = 0; k < 10; k++) {
    std::function<void()> call; const char* what = nullptr; int bad = r.pick({-1, S, S + 1, S + 100, -2000000000, 2000000000}); if (S == 0 && p.preinit && bad == 0) bad = 1; int badt = r.pick({-1, T, T + 5, 1000000}); int last = S - 1;
    std::mt19937 g2((unsigned)r.next());
    vector<double> dummy(4, 0.0);
    switch (r.in(0, 25)) {
      case 23: case 24: case 25: what = number_call(r, p, s.resid, g2, call); break;
      case 22: if (S || p.preinit) break; what = "initial leaf value of the wrong dimension"; call = [&]() { vector<double> v(p.dim + (p.dim > 1 && r.flip() ? -1 : 1), 1.0); if (wide && r.flip()) f.InitializeRoot(1.0); else f.InitializeRoot(v); }; break;
      case 0: what = "forest sample number"; call = [&, bad]() { f.GetEnsemble(bad); }; break;
      case 1: what = "sample number for prediction"; call = [&, bad]() { f.PredictRaw(ds, bad); }; break;
      case 2: { what = "sample number in a query"; int c = r.in(0, 4); call = [&, bad, c]() { if (c == 0) f.NumLeaves(bad); else if (c == 1) f.NumTrees(bad); else if (c == 2) f.OutputDimension(bad); else if (c == 3) f.IsLeafConstant(bad); else f.AllRoots(bad); }; break; }
      case 3: what = "sample number in a leaf update"; call = [&, bad]() { vector<double> v(p.dim, 1.0); if (wide) f.SetLeafVector(bad, v); else f.SetLeafValue(bad, 1.0); }; break;
      case 4: what = "sample number in a copy"; call = [&, bad]() { if (r.flip()) f.CopyFromPreviousSample(0, bad); else f.CopyFromPreviousSample(bad, 0); }; break;
      case 5: if (!S) break; what = "tree number"; call = [&, badt, last]() { f.GetEnsemble(last)->GetTree(badt); }; break;
      case 6: if (!S) break; what = "leaf vector of the wrong size"; call = [&, last]() { vector<double> v(p.dim + (r.flip() ? 1 : -1) + (p.dim == 1 ? 1 : 0), 1.0); if (p.dim == 1) f.GetEnsemble(last)->GetTree(0)->SetLeafVector(f.GetEnsemble(last)->GetTree(0)->GetLeaves()[0], v); else f.GetEnsemble(last)->GetTree(0)->SetLeafVector(f.GetEnsemble(last)->GetTree(0)->GetLeaves()[0], v); }; break;
      case 7: if (!S || !wide) break; what = "one leaf value for vector leaves"; call = [&, last]() { f.GetEnsemble(last)->GetTree(0)->SetLeaf(f.GetEnsemble(last)->GetTree(0)->GetLeaves()[0], 1.0); }; break;
      case 8: if (!S || f.AllRoots(last)) break; what = "forest-wide leaf value on a split tree"; call = [&, last]() { vector<double> v(p.dim, 1.0); if (wide) f.SetLeafVector(last, v); else f.SetLeafValue(last, 1.0); }; break;
      case 9: if (!S && !p.preinit) break; what = "initial leaf value after sampling or initialising"; call = [&]() { vector<double> v(p.dim, 1.0); if (wide) f.InitializeRoot(v); else f.InitializeRoot(1.0); }; break;
      case 10: if (!S) break; { what = "expansion with values of the wrong size"; call = [&, last]() { Tree* t = f.GetEnsemble(last)->GetTree(0); int l = t->GetLeaves()[0]; vector<double> v(p.dim + 1, 1.0), u(p.dim, 1.0); vector<uint32_t> c{1}; if (wide) { if (r.flip()) t->ExpandNode(l, 0, 0.5, u, v); else t->ExpandNode(l, 0, c, v, u); } else { if (r.flip()) t->ExpandNode(l, 0, 0.5, v, v); else t->ExpandNode(l, 0, c, v, v); } }; break; }
      case 11: if (!S || !wide) break; what = "scalar expansion of vector leaves"; call = [&, last]() { Tree* t = f.GetEnsemble(last)->GetTree(0); int l = t->GetLeaves()[0]; vector<uint32_t> c{1}; if (r.flip()) t->ExpandNode(l, 0, 0.5, 1.0, 2.0); else t->ExpandNode(l, 0, c, 1.0, 2.0); }; break;
      case 12: { int mx = -1; for (int i = 0; i < S; i++) for (int j = 0; j < T; j++) for (int nid : f.GetEnsemble(i)->GetTree(j)->GetInternalNodes()) mx = std::max(mx, (int)f.GetEnsemble(i)->GetTree(j)->SplitIndex(nid)); if (mx < 1) break; int si = -1; for (int i = 0; i < S && si < 0; i++) for (int j = 0; j < T; j++) for (int nid : f.GetEnsemble(i)->GetTree(j)->GetInternalNodes()) if (f.GetEnsemble(i)->GetTree(j)->SplitIndex(nid) == mx) si = i;
        what = "covariates lacking a split variable"; int c = r.in(0, 5); call = [&, mx, si, c]() { ForestDataset d2; d2.AddCovariates(p.d.X.data(), n, mx, true); if (p.basis()) d2.AddBasis(p.d.B.data(), n, p.d.nb, true); vector<int32_t> li(n * T); vector<double> out(n * std::max(1, p.dim)); Eigen::MatrixXd C = d2.GetCovariates(); Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> M(C.data(), C.rows(), C.cols());
          if (c == 0) f.Predict(d2); else if (c == 1) f.PredictRaw(d2); else if (c == 2) f.PredictRaw(d2, si); else if (c == 3) f.GetEnsemble(si)->PredictLeafIndices(&d2); else if (c == 4) f.GetEnsemble(si)->PredictLeafIndicesInplace(M, li, T, n); else f.GetEnsemble(si)->PredictInplace(d2, out); }; break; }
      case 13: if (!S || !p.basis()) break; { what = "prediction with a basis that does not fit"; int c = r.in(0, 2); call = [&, c]() { ForestDataset d2; d2.AddCovariates(p.d.X.data(), n, p.d.p, true); vector<double> b((size_t)(n + 1) * (p.d.nb + 1), 1.0); if (c == 1) d2.AddBasis(b.data(), n + (r.flip() ? 1 : -1), p.d.nb, true); else if (c == 2) d2.AddBasis(b.data(), n, p.d.nb + (r.flip() ? 1 : -1), true); f.Predict(d2); }; break; }
      case 14: if (!S) break; { what = "output that is too short"; int c = r.in(0, 2); call = [&, c, last]() { vector<double> out(c == 0 ? n - 1 : c == 1 ? n * p.dim - 1 : n); vector<int32_t> li(n * T - 1); if (c == 0) f.GetEnsemble(last)->PredictInplace(ds, out); else if (c == 1) f.GetEnsemble(last)->PredictRawInplace(ds, out); else f.GetEnsemble(last)->PredictLeafIndicesInplace(&ds, li, T, n); }; break; }
      case 15: if (!S) break; { what = "tree range outside the forest"; call = [&, last]() { vector<double> out((size_t)n * std::max(1, p.dim)); if (r.flip()) f.GetEnsemble(last)->PredictInplace(ds, out, 0, T + 1); else if (r.flip()) f.GetEnsemble(last)->PredictInplace(ds, out, -1, T); else f.GetEnsemble(last)->PredictRawInplace(ds, out, 0, T + 2); }; break; }
      case 16: { what = "damaged forest document"; auto j = std::make_shared<nlohmann::json>(nlohmann::json::parse(f.to_json().dump())); if (S == 0) { j->erase(r.pick({"num_samples", "num_trees", "output_dimension", "is_leaf_constant", "initialized"})); }
        else { string fk = "forest_" + std::to_string(r.in(0, S - 1)), tk = "tree_" + std::to_string(r.in(0, T - 1)); nlohmann::json& fj = j->at(fk); nlohmann::json& tj = fj.at(tk); vector<string> ks; for (auto& e : tj.items()) ks.push_back(e.key()); string tkk = r.pick(ks);
          switch (r.in(0, 7)) { case 0: j->erase(fk); break; case 1: fj.erase(tk); break; case 2: tj.erase(tkk); break; case 3: tj["threshold"] = "x"; break; case 4: tj["left"].erase(tj["left"].size() - 1); break; case 5: (*j)["num_samples"] = S + 1; break; case 6: fj["num_trees"] = T + 1; break; default: tj["leaf_value"][0] = "seven"; } }
        call = [&, j]() { f.from_json(*j); }; break; }
      case 17: what = "missing or malformed model file"; call = [&, dir]() { if (r.flip()) f.LoadFromJsonFile("/nonexistent/dir/model.json"); string fn = dir + ".json"; std::ofstream(fn) << r.pick({string(""), string("{"), string("[]"), string("nonsense"), f.to_json().dump().substr(0, 60)}); try { f.LoadFromJsonFile(fn); } catch (...) { ::unlink(fn.c_str()); throw; } ::unlink(fn.c_str()); }; break;
      case 18: what = "path that cannot be written"; call = [&]() { f.SaveToJsonFile("/nonexistent/dir/model.json"); }; break;
      case 19: { what = "residual update with data that does not fit"; if (!S) { what = nullptr; break; } int c = r.in(0, 1); call = [&, c, last]() { vector<double> z(n + 1, 1.0); ColumnVector rs(z.data(), c ? n + 1 : n - 1); UpdateResidualEntireForest(*p.tr, ds, rs, f.GetEnsemble(last), p.basis(), std::minus<double>()); }; break; }
      default: what = sampler_call(r, p, s.resid, g2, call); break;
    }
    if (!what || !call) continue;
    bool refused = false; string err;
    try { call(); } catch (std::exception& e) { refused = true; err = e.what(); }
    cx.count("refusals"); cx.dist("refused", string(what) + "/" + std::to_string(p.kind) + "/" + std::to_string(std::min(S, 2)) + (p.preinit ? "i" : ""));
    if (!refused) { cx.fail("C28", what, "accepted: %s (%s, %d samples, bad number %d/%d)", what, s.desc().c_str(), S, bad, badt); return; }
    if (state(p) != st) { cx.fail("C28", (string("state-") + what).c_str(), "refusing %s changed the forests (%s, %d samples)", what, s.desc().c_str(), S); return; }
    if (tracker_state(p) != tr || vec(s.resid.GetData()) != res || vec(ds.GetCovariates()) != X || (p.basis() && vec(ds.GetBasis()) != B)) { cx.fail("C28", (string("data-") + what).c_str(), "refusing %s changed the data (%s)", what, s.desc().c_str()); return; }
  }
  cx.sample(s.desc());
  // the model still works after all refusals
  p.pass(r.flip(), 20, s.resid, gen, 1.0); if (f.NumSamples() != S + 1) cx.fail("C28", "usable", "after refusals a pass left %d samples, expected %d", f.NumSamples(), S + 1);
}

SUITE(invalid_rfx) {
  int n = r.in(1, 20); Rfx x; x.init(r, n); std::mt19937 gen((unsigned)r.next()); vector<double> y(n, 1.0); ColumnVector resid(y.data(), n); for (int k = r.in(0, 2); k > 0; k--) { x.m->SampleRandomEffects(x.ds, resid, *x.tr, 1.0, gen); x.cont->AddSample(*x.m); }
  auto st = [&]() { return x.cont->to_json().dump() + vec(x.m->GetWorkingParameter()) + vec(x.m->GetGroupParameters()) + vec(resid.GetData()) + vec(x.ds.GetBasis()); }; string s0 = st(); LabelMapper lm(x.tr->GetLabelMap()); int S = x.cont->NumSamples();
  for (int k = 0; k < 8; k++) {
    const char* what = nullptr; std::function<void()> call; vector<double> z((size_t)(n + 2) * (x.C + 2), 1.0);
    switch (r.in(0, 12)) {
      case 8: { what = "random effects number that is no such number"; int c = r.in(0, 6); double v = r.pick({-1.0, -1e-9, kNan, kInf}); call = [&, c, v]() { MultivariateRegressionRandomEffectsModel m(*x.m); Eigen::MatrixXd I = Eigen::MatrixXd::Identity(x.C, x.C); double s2 = 1.0; if (c == 0) m.SetVariancePriorShape(v); else if (c == 1) m.SetVariancePriorScale(v); else if (c == 2) { I(0, 0) = v; m.SetWorkingParameterCovariance(I); } else if (c == 3) { I(x.C - 1, x.C - 1) = v; m.SetGroupParameterCovariance(I); } else if (c == 4) s2 = v; else if (c == 5) { Eigen::VectorXd a = Eigen::VectorXd::Ones(x.C); a(0) = v < 0 ? kNan : v; m.SetWorkingParameter(a); } else { Eigen::MatrixXd xi = Eigen::MatrixXd::Ones(x.C, x.G); xi(0, x.G - 1) = v < 0 ? -kInf : v; m.SetGroupParameters(xi); } m.SampleRandomEffects(x.ds, resid, *x.tr, s2, gen); }; break; }
      case 9: { what = "random effects data that are not finite"; bool basis = r.flip(); double v = r.pick({kNan, kInf, -kInf}); int i = r.in(0, n - 1); call = [&, basis, v, i]() { RandomEffectsDataset d; if (basis) z[i * x.C] = v; d.AddBasis(z.data(), n, x.C, true); d.AddGroupLabels(x.lab); vector<double> w(n, 1.0); if (!basis) w[i] = v; ColumnVector rs(w.data(), n); x.m->SampleRandomEffects(d, rs, *x.tr, 1.0, gen); }; break; }
      case 10: what = "model without its parameters"; call = [&]() { MultivariateRegressionRandomEffectsModel m(x.C, x.G); m.SampleRandomEffects(x.ds, resid, *x.tr, 1.0, gen); }; break;
      case 11: { auto l = x.lab; if (r.flip()) { l[r.in(0, n - 1)] = 123456789; } else { if (x.G < 2) break; int a = r.in(0, n - 1), b = r.in(0, n - 1); for (int q = 0; q < n && l[a] == l[b]; q++) b = (b + 1) % n; std::swap(l[a], l[b]); }
        what = "labels other than those of the tracker"; call = [&, l]() { RandomEffectsDataset d; d.AddBasis(z.data(), n, x.C, true); auto m = l; d.AddGroupLabels(m); x.m->SampleRandomEffects(d, resid, *x.tr, 1.0, gen); }; break; }
      case 12: { int c = r.in(0, 2), off = r.pick({-1, -1000000, 1000000, INT_MIN, 0}); what = "parameter of a group or component that does not exist"; call = [&, c, off]() { MultivariateRegressionRandomEffectsModel& m = *x.m; Eigen::VectorXd v = Eigen::VectorXd::Ones(x.C + (c == 1 ? r.pick({1, -1, 5}) : 0)); if (c == 0) m.SetGroupParameter(v, off ? off : x.G); else if (c == 1) m.SetGroupParameter(v, r.in(0, x.G - 1)); else m.SetGroupParameterVarianceComponent(1.5, off ? off : x.C); }; break; }
      case 0: what = "residual of another length"; call = [&]() { ColumnVector rs(z.data(), n + (r.flip() ? 1 : -1)); x.m->SampleRandomEffects(x.ds, rs, *x.tr, 1.0, gen); }; break;
      case 1: what = "basis with other columns"; call = [&]() { RandomEffectsDataset d; d.AddBasis(z.data(), n, x.C + (r.flip() || x.C == 1 ? 1 : -1), true); d.AddGroupLabels(x.lab); x.m->SampleRandomEffects(d, resid, *x.tr, 1.0, gen); }; break;
      case 2: what = "labels of another length"; call = [&]() { RandomEffectsDataset d; d.AddBasis(z.data(), n, x.C, true); auto l = x.lab; if (r.flip()) l.push_back(l[0]); else l.pop_back(); d.AddGroupLabels(l); if (r.flip()) x.m->SampleRandomEffects(d, resid, *x.tr, 1.0, gen); else x.m->Predict(d, *x.tr); }; break;
      case 3: what = "model for another number of groups"; call = [&]() { MultivariateRegressionRandomEffectsModel m(x.C, x.G + (r.flip() || x.G == 1 ? 1 : -1)); Eigen::VectorXd a = Eigen::VectorXd::Ones(x.C); Eigen::MatrixXd xi = Eigen::MatrixXd::Ones(x.C, m.NumGroups()), I = Eigen::MatrixXd::Identity(x.C, x.C); m.SetWorkingParameter(a); m.SetGroupParameters(xi); m.SetWorkingParameterCovariance(I); m.SetGroupParameterCovariance(I); m.SetVariancePriorShape(1); m.SetVariancePriorScale(1); int c = r.in(0, 2); if (c == 0) m.SampleRandomEffects(x.ds, resid, *x.tr, 1.0, gen); else if (c == 1) m.Predict(x.ds, *x.tr); else x.cont->AddSample(m); }; break;
      case 4: if (!S) break; what = "stored prediction with other columns"; call = [&]() { RandomEffectsDataset d; d.AddBasis(z.data(), n, x.C + (r.flip() || x.C == 1 ? 1 : -1), true); d.AddGroupLabels(x.lab); vector<double> out((size_t)n * S); x.cont->Predict(d, lm, out); }; break;
      case 5: what = "prediction output of another length"; call = [&]() { vector<double> out((size_t)n * S + 1); if (r.flip()) x.cont->Predict(x.ds, lm, out); else { out.resize(n + 1); x.m->PredictInplace(x.ds, *x.tr, out); } }; break;
      case 6: what = "parameters of another size"; call = [&]() { MultivariateRegressionRandomEffectsModel m(*x.m); Eigen::VectorXd a = Eigen::VectorXd::Ones(x.C + 1); Eigen::MatrixXd xi = Eigen::MatrixXd::Ones(x.C + 1, x.G), I = Eigen::MatrixXd::Identity(x.C + 1, x.C + 1); int c = r.in(0, 3); if (c == 0) m.SetWorkingParameter(a); else if (c == 1) m.SetGroupParameters(xi); else if (c == 2) m.SetWorkingParameterCovariance(I); else m.SetGroupParameterCovariance(I); m.SampleRandomEffects(x.ds, resid, *x.tr, 1.0, gen); }; break;
      default: what = "unseen label"; call = [&]() { RandomEffectsDataset d; d.AddBasis(z.data(), n, x.C, true); auto l = x.lab; l[r.in(0, n - 1)] = 123456789; d.AddGroupLabels(l); if (S && r.flip()) { vector<double> out((size_t)n * S); x.cont->Predict(d, lm, out); } else x.m->Predict(d, *x.tr); }; break;
    }
    if (!what) continue;
    bool refused = false; try { call(); } catch (std::exception&) { refused = true; }
    cx.count("refusals"); cx.dist("refused", what);
    if (!refused) { cx.fail("C28", what, "random effects: accepted %s (n=%d components=%d groups=%d)", what, n, x.C, x.G); return; }
    if (st() != s0) { cx.fail("C28", (string("state-") + what).c_str(), "random effects: refusing %s changed the model", what); return; }
  }
}

// ---------------------------------------------------------------- CSV reading (C20)
SUITE(csv) {
  string fn = tmpdir() + ".csv"; int n = r.in(1, 40), p = r.in(2, 6); bool header = r.flip(), crlf = r.flip(0.3), lastnl = r.flip(0.8); const char* nl = crlf ? "\r\n" : "\n"; vector<double> v((size_t)n * p); std::ostringstream o; o.precision(17);
  bool big = cx.kase % 500 == 0;  // a file whose last newline is the last byte of a read block
  if (header) { for (int j = 0; j < p; j++) o << (j ? ",x" : "x") << j; o << nl; }
  for (int i = 0; i < n; i++) { for (int j = 0; j < p; j++) { double x = r.flip(0.2) ? r.in(-5, 5) : r.uni(-1000, 1000); v[(size_t)i * p + j] = x; o << (j ? "," : ""); if (r.flip(0.1)) o << std::scientific << x << std::defaultfloat; else o << x; } if (i + 1 < n || lastnl || big) o << nl; }
  string text = o.str(); if (big) { header = false; text = text.substr(text.find('\n') + 1); string row; for (int j = 0; j < p; j++) row += j ? ",1" : "1"; row += "\n"; size_t B = 16u * 1024 * 1024; string body; body.reserve(B); while (body.size() + row.size() <= B) body += row; body.pop_back(); body += string(B - body.size() - 1, '0') + "\n"; text = body + (r.flip() ? "" : text); cx.count("block_sized_files"); }
  { std::ofstream f(fn, std::ios::binary); f << text; }
  long lines = 0; { bool in = false; for (char c : text) { if (c == '\n' || c == '\r') { if (in) lines++; in = false; } else in = true; } if (in) lines++; } if (header) lines--;
  {
    TextReader<data_size_t> rd(fn.c_str(), header); long got = rd.ReadAllLines(); if (got != lines || (long)rd.Lines().size() != lines) cx.fail("C20", "csv-lines", "%ld lines read, file has %ld", got, lines);
    if (lines > 1 && !big) { std::unique_ptr<Parser> ps(Parser::CreateParser(fn.c_str(), header, p, r.flip())); for (long i = 0; i < lines; i++) { vector<std::pair<int, double>> row; ps->ParseOneLine(rd.Lines()[i].c_str(), &row); if ((int)row.size() != p || ps->NumFeatures() != p) { cx.fail("C20", "csv-columns", "line %ld parsed into %zu values, has %d", i, row.size(), p); break; } for (int j = 0; j < p; j++) if (row[j].first != j || !mon::close(row[j].second, v[(size_t)i * p + j], 1e-6)) { cx.fail("C20", "csv-value", "line %ld column %d read as %g, is %g", i, j, row[j].second, v[(size_t)i * p + j]); i = lines; break; } cx.count("csv_rows"); } }
    size_t len; auto all = rd.ReadContent(&len); if (len != text.size()) cx.fail("C20", "csv-content", "%zu bytes read of %zu", len, text.size());
  }
  ::unlink(fn.c_str()); cx.dist("files", text.substr(0, 200));
}
int main(int c, char** v) { return mon::main_(c, v); }
