// Shared machinery of the native monitors: case driver, deterministic inputs, reference routing, tree digests.
// Everything here observes the library through its public accessors only.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <Eigen/Dense>
#include <stochtree/category_tracker.h>
#include <stochtree/common.h>
#include <stochtree/container.h>
#include <stochtree/cutpoint_candidates.h>
#include <stochtree/data.h>
#include <stochtree/ensemble.h>
#include <stochtree/io.h>
#include <stochtree/kernel.h>
#include <stochtree/leaf_model.h>
#include <stochtree/meta.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
#include <stochtree/random_effects.h>
#include <stochtree/tree.h>
#include <stochtree/tree_sampler.h>
#include <stochtree/variance_model.h>

namespace mon {
using namespace StochTree;
using std::string;
using std::vector;

constexpr double kInf = std::numeric_limits<double>::infinity();
inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hstr(const string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed ^ 0x5bf03635ull)) {}
  uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }  // inclusive
  bool flip(double p = 0.5) { return uni() < p; }
  double norm() {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + (next() % l.size())); }
  template <class T> const T& pick(const vector<T>& l) { return l[next() % l.size()]; }
  template <class T> void shuffle(vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]); }
};

struct Ctx {
  string suite; uint64_t seed = 0; long kase = 0; long scale = 1;
  std::map<string, double> counters;
  std::map<string, std::unordered_set<uint64_t>> distinct;
  std::map<string, int> seen;
  void count(const string& k, double v = 1) { counters[k] += v; }
  void dist(const string& k, const string& what) { if (distinct[k].size() < 2000000) distinct[k].insert(hstr(what)); }
  void sample(const string& s) { if (seen["sample"]++ < 2) printf("S\t%s\n", s.c_str()); }
  void fail(const char* prop, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
    if (seen[string(prop) + key]++ > 2) return;
    char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    for (char* c = b; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
    printf("V\t%s\t%s\t%s:%llu:%ld\t%s\n", prop, key, suite.c_str(), (unsigned long long)seed, kase, b);
    fflush(stdout);
  }
};

struct Suite { std::function<void(Ctx&, Rng&)> fn; };
inline std::map<string, Suite>& suites() { static std::map<string, Suite> s; return s; }
struct Reg { Reg(const char* n, std::function<void(Ctx&, Rng&)> f) { suites()[n] = Suite{f}; } };
#define SUITE(name) static void suite_##name(mon::Ctx&, mon::Rng&); static mon::Reg reg_##name(#name, suite_##name); static void suite_##name(mon::Ctx& cx, mon::Rng& r)

// <driver> suite seed first count : one "B" line per case begun, V/C/D lines as results, "E" when finished.
inline int main_(int argc, char** argv) {
  if (argc < 5 || !suites().count(argv[1])) { fprintf(stderr, "usage: suite seed first count\n"); return 64; }
  Ctx cx; cx.suite = argv[1]; cx.seed = strtoull(argv[2], 0, 10);
  long first = atol(argv[3]), cnt = atol(argv[4]);
  for (long k = first; k < first + cnt; k++) {
    cx.kase = k;
    printf("B\t%ld\n", k); fflush(stdout);
    Rng r(hstr(cx.suite) ^ mix(cx.seed * 1000003ull + (uint64_t)k));
    try { suites()[cx.suite].fn(cx, r); }
    catch (std::exception& e) { cx.fail("*", "exception", "unexpected exception: %s", e.what()); }
    cx.count("cases");
  }
  for (auto& c : cx.counters) printf("C\t%s\t%.17g\n", c.first.c_str(), c.second);
  for (auto& d : cx.distinct) {
    printf("D\t%s\t%zu\n", d.first.c_str(), d.second.size());
    if (d.second.size() <= 100000) { printf("H\t%s", d.first.c_str()); for (auto h : d.second) printf("\t%llx", (unsigned long long)(h & 0xffffffffffull)); printf("\n"); }
  }
  printf("E\n"); fflush(stdout);
  return 0;
}

// ---------------------------------------------------------------- numbers
inline bool close(double a, double b, double tol = 1e-9, double scale = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol * (1 + std::max(scale, std::max(std::fabs(a), std::fabs(b))));
}
inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
inline string hexd(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

// ---------------------------------------------------------------- data
enum Kind { UNIF, NEG, TIES, CONSTC, BIN, LARGE, HEAVY, ORD, CAT, NEGTIES, NKIND };
struct Data {
  int n = 0, p = 0, nb = 0; bool has_w = false;
  vector<int> kind; vector<FeatureType> types;
  vector<double> X, B, y, w, vw;  // row-major X and B
  ForestDataset ds; ColumnVector resid;
  double x(int i, int j) const { return X[(size_t)i * p + j]; }
  double b(int i, int k) const { return B[(size_t)i * nb + k]; }
  void load() {
    ds.AddCovariates(X.data(), n, p, true);
    if (nb) ds.AddBasis(B.data(), n, nb, true);
    if (has_w) ds.AddVarianceWeights(w.data(), n);
    resid = ColumnVector(y.data(), n);
  }
  string desc() const {
    std::ostringstream o; o << "n=" << n << " p=" << p << " kinds=";
    for (int k : kind) o << "uneCbLhOUt"[k];
    o << " basis=" << nb << (has_w ? " weighted" : ""); return o.str();
  }
};
inline FeatureType kind_type(int k) { return k == ORD ? FeatureType::kOrderedCategorical : k == CAT ? FeatureType::kUnorderedCategorical : FeatureType::kNumeric; }
inline double draw(Rng& r, int kind, const vector<double>& codes) {
  switch (kind) {
    case UNIF: return r.uni();
    case NEG: return -r.uni(0.5, 3.0);
    case TIES: return r.in(0, 5);
    case NEGTIES: return -1.0 - r.in(0, 4);
    case CONSTC: return codes[0];
    case BIN: return r.in(0, 1);
    case LARGE: return 1e6 + 1000 * r.norm();
    case HEAVY: { double z = r.norm(); return z * z * z * 10; }
    default: return r.pick(codes);
  }
}
struct GenOpt { int nmin = 2, nmax = 60, pmin = 1, pmax = 5; int nb = 0; double pw = 0.3; bool cat = true; bool signal = true; double miss = 0.12; int ncat = 9; };
inline void gen_data(Rng& r, Data& d, const GenOpt& o) {
  d.n = r.in(o.nmin, o.nmax); d.p = r.in(o.pmin, o.pmax); d.nb = o.nb;
  d.X.resize((size_t)d.n * d.p); d.kind.clear(); d.types.clear();
  vector<int> pool = {UNIF, UNIF, NEG, TIES, CONSTC, BIN, LARGE, HEAVY, NEGTIES};
  if (o.cat) { pool.push_back(ORD); pool.push_back(CAT); pool.push_back(CAT); }
  for (int j = 0; j < d.p; j++) {
    int k = r.pick(pool); d.kind.push_back(k); d.types.push_back(kind_type(k));
    vector<double> codes;
    if (k == CONSTC) codes = {r.pick({0.0, -2.5, 7.0})};
    else if (k == ORD) { bool odd = r.flip(0.2); int m = odd ? r.in(2, 80) : r.in(2, 7), c = odd ? r.pick({0, 1, 250, 65530, 3000000}) : 0; for (int i = 0; i < m; i++) { codes.push_back(c); c += odd && r.flip(0.3) ? r.in(2, 50) : 1; } }
    else if (k == CAT) { int m = r.flip(0.04) ? r.in(30, 150) : r.in(o.ncat > 9 ? o.ncat / 2 : 2, o.ncat); int c = r.flip(0.08) ? r.pick({250, 65530, 3000000}) : r.in(0, 3); for (int i = 0; i < m; i++) { codes.push_back(c); c += r.flip(0.8) ? 1 : r.in(2, 40); } }
    for (int i = 0; i < d.n; i++) d.X[(size_t)i * d.p + j] = draw(r, k, codes);
    if (kind_type(k) == FeatureType::kNumeric && r.flip(o.miss)) {   // missing values
      double q = r.pick({0.05, 0.3, 0.9, 1.0});
      for (int i = 0; i < d.n; i++) if (r.flip(q)) d.X[(size_t)i * d.p + j] = std::nan("");
    }
  }
  d.B.resize((size_t)d.n * d.nb);
  int bk = r.in(0, 2);
  for (int i = 0; i < d.n; i++) for (int k = 0; k < d.nb; k++) d.B[(size_t)i * d.nb + k] = bk == 0 ? r.norm() : bk == 1 ? r.in(0, 1) : r.uni(0.2, 2);
  d.y.resize(d.n);
  double off = r.pick({0.0, 0.0, 5.0, -3.0});
  for (int i = 0; i < d.n; i++) {
    double f = 0;
    if (o.signal) { double v = d.x(i, 0); f = d.kind[0] == LARGE ? (v > 1e6 ? 2 : -2) : (v > 0.5 ? 1.5 : -1.0) + (d.p > 1 && d.x(i, 1) > d.x(0, 1) ? 1 : 0); }
    d.y[i] = off + f * (d.nb ? d.b(i, 0) : 1) + r.norm() * 0.5;
  }
  d.has_w = r.flip(o.pw);
  if (d.has_w) { d.w.resize(d.n); for (int i = 0; i < d.n; i++) d.w[i] = r.uni(0.3, 3.0); }
  d.vw.assign(d.p, 0);
  for (int j = 0; j < d.p; j++) d.vw[j] = r.flip(0.8) ? r.uni(0.05, 1) : 0;
  double s = 0; for (double v : d.vw) s += v;
  if (s <= 0) { d.vw[r.in(0, d.p - 1)] = 1; s = 1; }
  for (double& v : d.vw) v /= s;
  d.load();
}

// ---------------------------------------------------------------- reference routing and digests
inline bool goes_left(double v, double threshold) { return std::isnan(v) || v <= threshold; }  // missing values go left
template <class RowFn> int route(Tree* t, RowFn x) {
  int nid = 0, steps = 0;
  while (!t->IsLeaf(nid)) {
    double v = x(t->SplitIndex(nid));
    bool left;
    if (std::isnan(v)) left = true;
    else if (t->NodeType(nid) == TreeNodeType::kCategoricalSplitNode) {
      left = false;
      if (v >= 0 && v <= 4294967295.0) {
        double fl = std::floor(v);
        for (auto c : t->CategoryList(nid)) if ((double)c == fl) { left = true; break; }
      }
    } else left = v <= t->Threshold(nid);
    nid = left ? t->LeftChild(nid) : t->RightChild(nid);
    if (++steps > 1000000) throw std::runtime_error("routing does not terminate");
  }
  return nid;
}
inline vector<double> leaf_of(Tree* t, int nid) {
  vector<double> v;
  for (int k = 0; k < t->OutputDimension(); k++) v.push_back(t->LeafValue(nid, k));
  return v;
}
// canonical text of the tree reachable from the root; ids: include node numbering
inline void digest_node(Tree* t, int nid, std::ostringstream& o, bool ids, bool leaves) {
  if (ids) o << '#' << nid;
  if (t->IsLeaf(nid)) { o << 'L'; if (leaves) { for (double v : leaf_of(t, nid)) o << hexd(v) << ','; } return; }
  o << '(' << t->SplitIndex(nid);
  if (t->NodeType(nid) == TreeNodeType::kCategoricalSplitNode) { o << 'c'; for (auto c : t->CategoryList(nid)) o << c << '.'; }
  else o << "n" << hexd(t->Threshold(nid));
  o << ':'; digest_node(t, t->LeftChild(nid), o, ids, leaves); o << '|'; digest_node(t, t->RightChild(nid), o, ids, leaves); o << ')';
}
inline string digest(Tree* t, bool ids = true, bool leaves = true) { std::ostringstream o; digest_node(t, 0, o, ids, leaves); return o.str(); }
inline string digest(TreeEnsemble* e, bool ids = true, bool leaves = true) { string s; for (int i = 0; i < e->NumTrees(); i++) s += digest(e->GetTree(i), ids, leaves) + ";"; return s; }

inline void reachable(Tree* t, int nid, vector<int>& out) {
  out.push_back(nid);
  if ((int)out.size() > 200000) throw std::runtime_error("tree has a cycle");
  if (!t->IsLeaf(nid)) { reachable(t, t->LeftChild(nid), out); reachable(t, t->RightChild(nid), out); }
}

// Structural monitor (C02): returns "" or what is wrong.
inline string tree_check(Tree* t) {
  std::ostringstream o;
  int nn = t->NumNodes();
  if (nn < 1) return "tree has no nodes";
  vector<int> re; 
  std::function<string(int, int, int)> walk = [&](int nid, int parent, int depth) -> string {
    std::ostringstream e;
    if (nid < 0 || nid >= nn) { e << "child id " << nid << " out of range (parent " << parent << ")"; return e.str(); }
    re.push_back(nid);
    if ((int)re.size() > nn) return "more nodes reachable than exist (cycle or shared child)";
    if (t->Parent(nid) != parent) { e << "node " << nid << " reports parent " << t->Parent(nid) << " but is the child of " << parent; return e.str(); }
    if (t->GetDepth(nid) != depth) { e << "node " << nid << " depth " << t->GetDepth(nid) << " expected " << depth; return e.str(); }
    if (t->IsRoot(nid) != (parent == -1)) { e << "node " << nid << " root status wrong"; return e.str(); }
    if (t->IsLeaf(nid)) {
      if (t->RightChild(nid) != -1) { e << "leaf " << nid << " has a right child"; return e.str(); }
      if (t->NodeType(nid) != TreeNodeType::kLeafNode) { e << "leaf " << nid << " has split type"; return e.str(); }
      return "";
    }
    if (t->NodeType(nid) == TreeNodeType::kLeafNode) { e << "internal node " << nid << " is typed as a leaf"; return e.str(); }
    if (t->LeftChild(nid) == t->RightChild(nid)) { e << "node " << nid << " has one node as both children"; return e.str(); }
    string s = walk(t->LeftChild(nid), nid, depth + 1);
    if (!s.empty()) return s;
    return walk(t->RightChild(nid), nid, depth + 1);
  };
  string s = walk(0, -1, 0);
  if (!s.empty()) return s;
  std::set<int> rs(re.begin(), re.end());
  if (rs.size() != re.size()) return "a node is reachable twice";
  vector<int> L, I, P;
  for (int v : re) {
    if (t->IsLeaf(v)) L.push_back(v);
    else {
      I.push_back(v);
      bool lp = t->IsLeaf(t->LeftChild(v)) && t->IsLeaf(t->RightChild(v));
      if (lp) P.push_back(v);
      if (t->IsLeafParent(v) != lp) return "leaf-parent status wrong";
    }
  }
  auto cmp = [&](const vector<int32_t>& got, vector<int>& want, const char* what) -> string {
    vector<int> g(got.begin(), got.end()); std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end());
    if (g == want) return "";
    std::ostringstream e; e << what << " reported as {"; for (int v : g) e << v << ' '; e << "} but is {"; for (int v : want) e << v << ' '; e << "}"; return e.str();
  };
  if (!(s = cmp(t->GetLeaves(), L, "leaf list")).empty()) return s;
  if (!(s = cmp(t->GetInternalNodes(), I, "internal node list")).empty()) return s;
  if (!(s = cmp(t->GetLeafParents(), P, "last-level parent list")).empty()) return s;
  if (t->NumLeaves() != (int)L.size()) { o << "leaf count " << t->NumLeaves() << " expected " << L.size(); return o.str(); }
  if (t->NumLeafParents() != (int)P.size()) { o << "leaf-parent count " << t->NumLeafParents() << " expected " << P.size(); return o.str(); }
  if (t->NumSplitNodes() != (int)I.size()) { o << "split count " << t->NumSplitNodes() << " expected " << I.size(); return o.str(); }
  if (t->NumValidNodes() != (int)re.size()) { o << "valid node count " << t->NumValidNodes() << " expected " << re.size() << " (nodes " << nn << ", deleted " << t->NumDeletedNodes() << ")"; return o.str(); }
  if (t->IsRoot() != (re.size() == 1)) return "single-node status wrong";
  return "";
}

// random structure on a tree by growing (and sometimes pruning) through the public API
struct RandTreeOpt { int p = 3; int grows = 6; bool cat = true; double lo = -2, hi = 2; int ncat = 8; double prune = 0.25; };
inline vector<double> rand_leaf(Rng& r, int dim) { vector<double> v(dim); for (auto& x : v) x = r.flip(0.1) ? r.pick({0.0, -0.0, 1e-12, 1e6}) : r.norm(); return v; }
inline void set_leaf(Tree* t, int nid, const vector<double>& v) { if (t->OutputDimension() == 1) t->SetLeaf(nid, v[0]); else t->SetLeafVector(nid, v); }
inline vector<uint32_t> rand_cats(Rng& r, int ncat) { vector<uint32_t> c; for (int i = 0; i < ncat; i++) if (r.flip(0.4)) c.push_back(i); if (c.empty()) c.push_back(r.in(0, ncat - 1)); if (r.flip(0.1)) c.push_back(r.pick({4000000000u, 70000u})); if (r.flip(0.3)) r.shuffle(c); return c; }
inline void rand_grow(Rng& r, Tree* t, const RandTreeOpt& o) {
  int dim = t->OutputDimension();
  for (int g = 0; g < o.grows; g++) {
    vector<int> lv(t->GetLeaves().begin(), t->GetLeaves().end());
    int nid = r.pick(lv); int f = r.in(0, o.p - 1);
    auto a = rand_leaf(r, dim), b = rand_leaf(r, dim);
    bool c = o.cat && r.flip(0.35);
    if (c) { auto cl = rand_cats(r, o.ncat); if (dim == 1) t->ExpandNode(nid, f, cl, a[0], b[0]); else t->ExpandNode(nid, f, cl, a, b); }
    else { double th = r.flip(0.3) ? (double)r.in((int)o.lo, (int)o.hi) : r.uni(o.lo, o.hi); if (dim == 1) t->ExpandNode(nid, f, th, a[0], b[0]); else t->ExpandNode(nid, f, th, a, b); }
    if (r.flip(o.prune) && t->NumLeafParents() > 0) {
      vector<int> lp(t->GetLeafParents().begin(), t->GetLeafParents().end());
      int q = r.pick(lp); auto v = rand_leaf(r, dim);
      if (dim == 1) t->CollapseToLeaf(q, v[0]); else t->CollapseToLeaf(q, v);
    }
  }
}
}  // namespace mon
