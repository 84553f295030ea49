// C19 same seed, same samples: repeated, interleaved with other models, in a fresh process with scribbled memory, and concurrently with other threads
#include "chain.h"
#include <stochtree/variance_model.h>
#include <stochtree/category_tracker.h>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>
using namespace mon;

// One self-contained model whose whole history is a function of its seed; every step appends what it observed to the log.
struct Model {
  Rng r; Session s; std::mt19937 gen; vector<string> log; int k = 0; double s2 = 0.5; GlobalHomoskedasticVarianceModel gv; LeafNodeHomoskedasticVarianceModel lv; string name, dir;
  Model(uint64_t seed, const string& dir) : r(mix(seed)), gen((unsigned)seed), dir(dir) { s.build(r, 40, 3); s2 = r.uni(0.2, 1); name = s.desc(); }
  void put(const vector<double>& v) { string o; for (double x : v) o += hexd(x) + ","; log.push_back(o); }
  void step() {
    k++; Part& p = *s.parts[r.in(0, (int)s.parts.size() - 1)]; double u = r.uni();
    if (s.rfx && u < 0.15) { s.rfx->m->SampleRandomEffects(s.rfx->ds, s.resid, *s.rfx->tr, s2, gen); s.rfx->cont->AddSample(*s.rfx->m); s.rfx->started = true; vector<double> o((size_t)s.n * s.rfx->cont->NumSamples()); LabelMapper lm(s.rfx->tr->GetLabelMap()); s.rfx->cont->Predict(s.rfx->ds, lm, o); put(o); log.push_back(s.rfx->cont->to_json().dump()); return; }
    if (u < 0.25 && p.started) { int S = p.fc->NumSamples(), q = r.in(0, S - 1); put(r.flip() ? p.fc->Predict(p.d.ds) : p.fc->PredictRaw(p.d.ds, q)); log.push_back(digest(p.fc->GetEnsemble(q))); auto li = p.fc->GetEnsemble(q)->PredictLeafIndices(&p.d.ds); string o; for (auto x : li) o += std::to_string(x) + ","; log.push_back(o); return; }
    if (u < 0.32 && p.started) { string j = p.fc->to_json().dump(); log.push_back(j); ForestContainer c(p.T, p.dim, p.kind == 0); c.from_json(nlohmann::json::parse(j)); log.push_back(digest(c.GetEnsemble(c.NumSamples() - 1))); return; }
    if (u < 0.36 && p.started) { string f = dir + "/m" + std::to_string(k) + ".json"; p.fc->SaveToJsonFile(f); ForestContainer c(p.T, p.dim, p.kind == 0); c.LoadFromJsonFile(f); ::unlink(f.c_str()); log.push_back(digest(c.GetEnsemble(0))); return; }
    if (u < 0.40) { string err; try { vector<double> o(1); p.fc->GetEnsemble(p.fc->NumSamples() + 7)->GetTree(0); } catch (std::exception& e) { err = e.what(); } log.push_back(err); return; }
    if (u < 0.46) { s2 = gv.SampleVarianceParameter(s.resid.GetData(), 3.0, 1.0, gen); log.push_back(hexd(s2)); return; }
    if (u < 0.52 && p.started && p.kind != 2) { double t = lv.SampleVarianceParameter(p.cur(), 3.0, 0.5, gen); log.push_back(hexd(t)); p.tau = t; p.m0->SetScale(t); p.m1->SetScale(t); return; }
    if (u < 0.55) { vector<int32_t> c(r.in(1, 30)); for (auto& x : c) x = r.in(0, 6); SampleCategoryMapper m(c); string o; for (size_t i = 0; i < c.size(); i++) o += std::to_string(m.GetCategoryId(i)) + ","; log.push_back(o); return; }
    if (u < 0.60 && p.kind > 0) { p.new_basis(r); return; }
    if (p.kind == 2 && !p.started && !p.preinit) { double m = 0; for (int i = 0; i < s.n; i++) m += s.resid.GetElement(i); if (std::fabs(m / s.n / p.T) > 0.09) return; }
    p.pass(r.flip(0.4), r.pick({1, 3, 20, 100}), s.resid, gen, s2); log.push_back(digest(p.cur())); put(vec_of(s.resid));
  }
  static vector<double> vec_of(ColumnVector& v) { vector<double> o(v.NumRows()); for (size_t i = 0; i < o.size(); i++) o[i] = v.GetElement(i); return o; }
};
static string tmpdir() { const char* d = getenv("STVERIF_TMP"); return d ? d : "/tmp"; }
static int first_diff(const vector<string>& a, const vector<string>& b) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if (i >= a.size() || i >= b.size() || a[i] != b[i]) return i; return -1; }
static vector<string> alone(uint64_t seed, int steps) { Model m(seed, tmpdir()); for (int i = 0; i < steps; i++) m.step(); return m.log; }

SUITE(interleave) {  // several models advanced in turn, and again one after another
  int M = r.in(2, 4), steps = r.in(3, 25); vector<uint64_t> seeds(M); for (auto& q : seeds) q = r.next() >> 1; if (r.flip(0.3)) seeds[1] = seeds[0];
  vector<std::unique_ptr<Model>> ms(M); vector<int> left(M, steps); string order; int tot = M * steps;
  while (tot) { int i = r.in(0, M - 1); if (!left[i]) continue; if (!ms[i]) ms[i].reset(new Model(seeds[i], tmpdir())); for (int q = r.in(1, 3); q > 0 && left[i]; q--) { ms[i]->step(); left[i]--; tot--; order += (char)('a' + i); } }
  for (int i = 0; i < M; i++) { auto a = alone(seeds[i], steps); cx.count("records_compared", a.size()); int d = first_diff(a, ms[i]->log); if (d >= 0) { cx.fail("C19", "interleaved", "model %d (%s) gives other results at record %d of %zu when %d models are advanced in turn (%s)", i, ms[i]->name.c_str(), d, a.size(), M, order.c_str()); return; } for (auto& q : a) cx.dist("records", q); }
  cx.dist("interleavings", order); cx.sample(order);
}
SUITE(fresh) {  // the same model in a fresh process whose heap is filled with other bytes
  if (getenv("STVERIF_CHILD")) { auto a = alone(strtoull(getenv("STVERIF_CHILD"), 0, 10), atoi(getenv("STVERIF_STEPS"))); uint64_t h = 0; for (auto& q : a) { h = mix(h ^ hstr(q)); printf("R %llx\n", (unsigned long long)h); } return; }
  int steps = r.in(3, 40); uint64_t seed = r.next() >> 1; auto a = alone(seed, steps); { auto other = alone(seed + 1, r.in(1, 20)); (void)other; }
  auto again = alone(seed, steps); int d0 = first_diff(a, again); if (d0 >= 0) cx.fail("C19", "repeat", "the same model run again in the same process differs at record %d of %zu", d0, a.size());
  char exe[4096]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1); if (l < 0) return; exe[l] = 0;
  std::ostringstream cmd; cmd << "STVERIF_CHILD=" << seed << " STVERIF_STEPS=" << steps << " MALLOC_PERTURB_=" << r.in(1, 254) << " '" << exe << "' fresh 1 0 1 2>/dev/null";
  FILE* f = popen(cmd.str().c_str(), "r"); if (!f) return; vector<unsigned long long> got; char line[256]; bool ended = false; while (fgets(line, sizeof line, f)) { if (line[0] == 'R') got.push_back(strtoull(line + 2, 0, 16)); if (line[0] == 'E') ended = true; } pclose(f);
  if (!ended) { cx.fail("C19", "fresh-process", "the same model does not finish in a fresh process"); return; }
  uint64_t h = 0; cx.count("records_compared", a.size()); size_t k = 0; for (auto& q : a) { h = mix(h ^ hstr(q)); if (k >= got.size() || got[k] != h) { cx.fail("C19", "fresh-process", "the same model in a fresh process with other heap contents differs at record %zu of %zu", k, a.size()); return; } k++; cx.dist("records", q); }
  cx.count("fresh_processes");
}
SUITE(threads) {  // models in different threads, started together, against the same models run alone
  int M = r.in(2, 8), steps = r.in(3, 14); vector<uint64_t> seeds(M); for (auto& q : seeds) q = r.next() >> 1; if (r.flip(0.4)) seeds[1] = seeds[0];
  vector<vector<string>> got(M); vector<string> err(M); std::atomic<int> ready{0}; std::atomic<long> clock{0}; vector<vector<long>> ticks(M); vector<std::thread> ts; int jitter = r.in(0, 2);
  for (int i = 0; i < M; i++) ts.emplace_back([&, i]() {
    string d = tmpdir() + "/t" + std::to_string(i); if (::access(d.c_str(), F_OK)) (void)!::mkdir(d.c_str(), 0700);
    ready.fetch_add(1); while (ready.load() < M) std::this_thread::yield();
    try { Model m(seeds[i], d); for (int q = 0; q < steps; q++) { m.step(); ticks[i].push_back(clock.fetch_add(1, std::memory_order_relaxed)); if (jitter == 1) std::this_thread::yield(); else if (jitter == 2 && (mix(seeds[i] + q) & 3) == 0) usleep(50); } got[i] = m.log; } catch (std::exception& e) { err[i] = e.what(); }
  });
  for (auto& t : ts) t.join();
  vector<std::pair<long, int>> ev; for (int i = 0; i < M; i++) for (long t : ticks[i]) ev.push_back({t, i}); std::sort(ev.begin(), ev.end()); string order; int sw = 0; for (size_t k = 0; k < ev.size(); k++) { order += (char)('a' + ev[k].second); if (k && ev[k].second != ev[k - 1].second) sw++; } cx.count("thread_switches", sw); cx.count("steps", ev.size());
  for (int i = 0; i < M; i++) { if (!err[i].empty()) { cx.fail("C19", "concurrent", "exception in a thread: %s", err[i].c_str()); return; } auto a = alone(seeds[i], steps); cx.count("records_compared", a.size()); int d = first_diff(a, got[i]); if (d >= 0) { cx.fail("C19", "concurrent", "a model run beside %d others in other threads differs at record %d of %zu", M - 1, d, a.size()); return; } }
  cx.dist("interleavings", order); cx.sample(order);
}
int main(int c, char** v) { return mon::main_(c, v); }
