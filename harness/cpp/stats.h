// Statistical oracles: probability-integral-transform samples and observed frequencies against exact distributions.
// Alarm thresholds are set so that one run of a check on a correct tree fails with probability below about 1e-6.
#pragma once
#include <boost/math/special_functions/gamma.hpp>
#include "chain.h"
namespace mon {
inline double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
inline double ig_cdf(double x, double shape, double scale) { return boost::math::gamma_q(shape, scale / x); }
// inverse of Phi (Acklam) with one Newton-like correction
inline double probit(double u) {
  u = std::min(std::max(u, 1e-300), 1 - 1e-16); double z;
  if (u < 0.02425) { double q = std::sqrt(-2 * std::log(u)); z = -(((((-7.784894002430293e-03 * q - 3.223964580411365e-01) * q - 2.400758277161838) * q - 2.549732539343734) * q + 4.374664141464968) * q + 2.938163982698783) / ((((7.784695709041462e-03 * q + 3.224671290700398e-01) * q + 2.445134137142996) * q + 3.754408661907416) * q + 1); z = -z; z = -z; if (z > 0) z = -z; }
  else if (u <= 1 - 0.02425) { double q = u - 0.5, t = q * q; z = (((((-3.969683028665376e+01 * t + 2.209460984245205e+02) * t - 2.759285104469687e+02) * t + 1.383577518672690e+02) * t - 3.066479806614716e+01) * t + 2.506628277459239) * q / (((((-5.447609879822406e+01 * t + 1.615858368580409e+02) * t - 1.556989798598866e+02) * t + 6.680131188771972e+01) * t - 1.328068155288572e+01) * t + 1); }
  else return -probit(1 - u);
  return z;
}
struct Pit {
  vector<double> z;  // should be independent standard normals
  void u(double p) { z.push_back(probit(p)); }
  void add(double v) { z.push_back(v); }
  void test(Ctx& cx, const char* prop, const char* key, const string& what) {
    size_t n = z.size(); if (n < 200) return;
    cx.count(string("draws_") + key, n); cx.count("distribution_tests");
    double m = 0, s = 0, c = 0; for (double v : z) { if (!std::isfinite(v)) { cx.fail(prop, key, "a draw is not finite (%s)", what.c_str()); return; } m += v; s += v * v; }
    for (size_t i = 1; i < n; i++) c += z[i] * z[i - 1];
    double zm = m / std::sqrt(n), zs = (s - n) / std::sqrt(2.0 * n), zc = c / std::sqrt((double)n);
    vector<double> t = z; std::sort(t.begin(), t.end()); double D = 0; for (size_t i = 0; i < n; i++) { double u = Phi(t[i]); D = std::max(D, std::max(u - i / (double)n, (i + 1) / (double)n - u)); } D *= std::sqrt(n);
    if (std::fabs(zm) > 7) cx.fail(prop, key, "mean of %zu standardised draws is %.4f (%.1f standard errors off): %s", n, m / n, zm, what.c_str());
    else if (std::fabs(zs) > 8) cx.fail(prop, key, "variance of %zu standardised draws is %.4f (%.1f standard errors off): %s", n, s / n, zs, what.c_str());
    else if (D > 3.6) cx.fail(prop, key, "the distribution of %zu standardised draws is off (KS %.2f): %s", n, D, what.c_str());
    else if (std::fabs(zc) > 7.5) cx.fail(prop, key, "consecutive standardised draws are correlated (%.4f, %.1f standard errors): %s", c / n, zc, what.c_str());
  }
};
// observed counts against exact probabilities
inline void freq_test(Ctx& cx, const char* prop, const char* key, const std::map<string, double>& prob, const std::map<string, long>& obs, const string& what) {
  double n = 0; for (auto& o : obs) n += o.second; if (n < 100) return;
  cx.count("frequency_tests"); cx.count("frequency_events", n);
  for (auto& o : obs) if (!prob.count(o.first)) { cx.fail(prop, key, "%s: impossible outcome %s seen %ld times in %.0f", what.c_str(), o.first.c_str(), o.second, n); return; }
  double chi = 0; int df = -1; double re = 0, ro = 0;
  for (auto& q : prob) {
    double e = n * q.second; auto it = obs.find(q.first); double o = it == obs.end() ? 0 : it->second;
    if (e < 40) { re += e; ro += o; continue; }
    double z = (o - e) / std::sqrt(std::max(e * (1 - q.second), 1.0)); chi += (o - e) * (o - e) / e; df++; cx.count("outcomes_compared");
    if (std::fabs(z) > 7.5) { cx.fail(prop, key, "%s: outcome %s seen %.0f times in %.0f, expected %.1f (%.1f standard errors)", what.c_str(), q.first.c_str(), o, n, e, z); return; }
  }
  if (re >= 40) { chi += (ro - re) * (ro - re) / re; df++; }
  if (df >= 1) { double h = 2.0 / (9 * df), z = (std::cbrt(chi / df) - (1 - h)) / std::sqrt(h); if (z > 7) cx.fail(prop, key, "%s: chi-square %.1f on %d degrees of freedom over %.0f events", what.c_str(), chi, df, n); }
}
// ---- all trees a Metropolis sampler may visit on a few rows, with their posterior (or prior) probabilities
struct TreeSpace {
  Part* p; const vector<double>* y; double s2, alpha, beta; int min_leaf; bool prior_only; size_t cap;
  struct St { string key; double lw; bool ok; };
  std::map<std::pair<uint32_t, int>, vector<St>> memo; std::map<uint32_t, double> ml; bool overflow = false;
  vector<St> all; std::map<string, double> prob; vector<double> cum;
  double lml(uint32_t m) { if (prior_only) return 0; auto it = ml.find(m); if (it != ml.end()) return it->second; vector<int> rows; for (int i = 0; i < p->d.n; i++) if (m >> i & 1) rows.push_back(i); return ml[m] = logml(*p, *y, rows, s2); }
  const vector<St>& rec(uint32_t m, int depth) {
    auto k = std::make_pair(m, depth); auto it = memo.find(k); if (it != memo.end()) return it->second;
    vector<St> out; double ps = alpha * std::pow(1.0 + depth, -beta); int sz = __builtin_popcount(m);
    out.push_back({"L", std::log(1 - ps) + lml(m), depth == 0 || sz >= min_leaf});
    double W = 0; for (double w : p->d.vw) W += w;
    if (sz >= 2 && sz >= 2 * min_leaf) for (int f = 0; f < p->d.p; f++) {
      if (p->d.vw[f] <= 0) continue;
      std::set<double> vs; for (int i = 0; i < p->d.n; i++) if (m >> i & 1) vs.insert(p->d.x(i, f));
      vector<double> v(vs.begin(), vs.end()); if (v.size() < 2) continue;
      for (size_t g = 0; g + 1 < v.size(); g++) {
        uint32_t l = 0; for (int i = 0; i < p->d.n; i++) if ((m >> i & 1) && p->d.x(i, f) <= v[g]) l |= 1u << i;
        if (__builtin_popcount(l) < min_leaf || sz - __builtin_popcount(l) < min_leaf) continue;
        double lw = std::log(ps) + std::log(p->d.vw[f] / W) + std::log((v[g + 1] - v[g]) / (v.back() - v[0]));
        for (auto& a : vector<St>(rec(l, depth + 1))) for (auto& b : vector<St>(rec(m & ~l, depth + 1))) { if (!a.ok || !b.ok) continue; out.push_back({"S" + std::to_string(f) + "," + std::to_string(l) + ";" + a.key + b.key, lw + a.lw + b.lw, true}); if (out.size() > cap) { overflow = true; return memo[k] = out; } }
      }
    }
    return memo[k] = out;
  }
  bool build() {
    all = rec((1u << p->d.n) - 1, 0); if (overflow) return false;
    double mx = -kInf; for (auto& s : all) mx = std::max(mx, s.lw); double t = 0; for (auto& s : all) t += std::exp(s.lw - mx);
    double c = 0; for (auto& s : all) { double q = std::exp(s.lw - mx) / t; prob[s.key] = q; c += q; cum.push_back(c); } return true;
  }
  const string& draw(Rng& r) { double u = r.uni() * cum.back(); return all[std::min<size_t>(std::upper_bound(cum.begin(), cum.end(), u) - cum.begin(), all.size() - 1)].key; }
};
inline string tree_key(Part& p, Tree* t, int nid, uint32_t m) {
  if (t->IsLeaf(nid)) return "L";
  int f = t->SplitIndex(nid); uint32_t l = 0;
  for (int i = 0; i < p.d.n; i++) if (m >> i & 1) { bool left = t->NodeType(nid) == TreeNodeType::kCategoricalSplitNode ? [&] { auto c = t->CategoryList(nid); return std::count(c.begin(), c.end(), (uint32_t)p.d.x(i, f)) > 0; }() : p.d.x(i, f) <= t->Threshold(nid); if (left) l |= 1u << i; }
  return "S" + std::to_string(f) + "," + std::to_string(l) + ";" + tree_key(p, t, t->LeftChild(nid), l) + tree_key(p, t, t->RightChild(nid), m & ~l);
}
// grow the tree a key names, with uniform thresholds inside their gaps
inline void build_tree(Rng& r, Part& p, Tree* t, int j, std::mt19937& gen, const string& key, size_t& pos, int nid, uint32_t m) {
  if (key[pos] == 'L') { pos++; return; }
  size_t c = key.find(',', pos), e = key.find(';', pos); int f = std::stoi(key.substr(pos + 1, c - pos - 1)); uint32_t l = std::stoul(key.substr(c + 1, e - c - 1)); pos = e + 1;
  double lo = -kInf, hi = kInf; for (int i = 0; i < p.d.n; i++) if (m >> i & 1) { if (l >> i & 1) lo = std::max(lo, p.d.x(i, f)); else hi = std::min(hi, p.d.x(i, f)); }
  double th = r.uni(lo, hi); if (!(th < hi)) th = lo; TreeSplit sp(th);
  AddSplitToModel(*p.tr, p.d.ds, *p.prior, sp, gen, t, j, nid, f, false);
  int L = t->LeftChild(nid), R = t->RightChild(nid);
  build_tree(r, p, t, j, gen, key, pos, L, l); build_tree(r, p, t, j, gen, key, pos, R, m & ~l);
}
}  // namespace mon
