// Random effects: grouping, predictions, residual bookkeeping, stored samples and their JSON form.
#include "chain.h"
using namespace mon;

static string where(const Rfx& x) { std::ostringstream o; o << "n=" << x.lab.size() << " components=" << x.C << " groups=" << x.G << " labels="; for (size_t i = 0; i < x.labels.size() && i < 8; i++) o << x.labels[i] << ","; return o.str(); }

static void check_groups(Ctx& cx, Rfx& x) {
  int n = x.lab.size(); RandomEffectsTracker& t = *x.tr; string w = where(x);
  if ((int)t.NumCategories() != x.G || (int)t.GetCategorySampleTracker()->NumCategories() != x.G) { cx.fail("C13", "group-count", "%d groups recorded, %d distinct labels (%s)", (int)t.NumCategories(), x.G, w.c_str()); return; }
  if (t.GetUniqueGroupIds() != x.labels) cx.fail("C13", "group-labels", "recorded labels are not the distinct labels in order (%s)", w.c_str());
  if ((int)t.GetLabelMap().size() != x.G) cx.fail("C13", "label-map", "label map has %zu entries (%s)", t.GetLabelMap().size(), w.c_str());
  vector<int> covered(n, 0);
  for (int g = 0; g < x.G; g++) {
    int32_t L = x.labels[g]; std::set<long> rows; for (int i = 0; i < n; i++) if (x.lab[i] == L) rows.insert(i);
    if (t.CategoryNumber(L) != g || t.GetLabelMap().at(L) != g) cx.fail("C13", "label-number", "label %d is group %d, expected %d (%s)", L, t.CategoryNumber(L), g, w.c_str());
    auto same = [&](auto b, auto e) { vector<long> v; for (auto q = b; q != e; ++q) v.push_back(*q); std::set<long> s(v.begin(), v.end()); return v.size() == s.size() && s == rows; };
    if (!same(t.NodeIndices(L).begin(), t.NodeIndices(L).end())) cx.fail("C13", "group-rows", "rows recorded for label %d are not the rows with it (%s)", L, w.c_str());
    if (!same(t.NodeIndicesInternalIndex(g).begin(), t.NodeIndicesInternalIndex(g).end())) cx.fail("C13", "group-rows", "rows recorded for group %d are not the rows with its label (%s)", g, w.c_str());
    if ((size_t)t.CategorySize(L) != rows.size() || (size_t)(t.CategoryEnd(L) - t.CategoryBegin(L)) != rows.size()) cx.fail("C13", "group-size", "label %d has %zu rows, %ld recorded (%s)", L, rows.size(), (long)t.CategorySize(L), w.c_str());
    else if (auto& ix = t.GetCategorySampleTracker()->indices_; (size_t)t.CategoryEnd(L) > ix.size() || !same(ix.begin() + t.CategoryBegin(L), ix.begin() + t.CategoryEnd(L))) cx.fail("C13", "group-range", "row range of label %d does not hold its rows (%s)", L, w.c_str());
    for (long i : rows) covered[i]++;
    cx.count("groups_checked");
  }
  for (int i = 0; i < n; i++) { if (covered[i] != 1) cx.fail("C13", "group-cover", "row %d in %d groups", i, covered[i]); if ((int32_t)t.GetCategoryId(i) != x.lab[i]) cx.fail("C13", "row-label", "row %d recorded with label %d, is %d (%s)", i, (int)t.GetCategoryId(i), x.lab[i], w.c_str()); }
}

struct Samples { vector<double> a, xi, s; int S = 0; };  // harness-side history, same layout as documented
static void record(Rfx& x, Samples& h) {
  for (int k = 0; k < x.C; k++) { h.a.push_back(x.m->GetWorkingParameter()(k)); h.s.push_back(x.m->GetGroupParameterCovariance()(k, k)); }
  for (int g = 0; g < x.G; g++) for (int k = 0; k < x.C; k++) h.xi.push_back(x.m->GetGroupParameters()(k, g));
  h.S++;
}
static void check_cont(Ctx& cx, const char* prop, RandomEffectsContainer& c, int C, int G, const Samples& h, const string& w) {
  if (c.NumSamples() != h.S || c.NumComponents() != C || c.NumGroups() != G) { cx.fail(prop, "sample-count", "container has %d samples, %d components, %d groups; expected %d, %d, %d", c.NumSamples(), c.NumComponents(), c.NumGroups(), h.S, C, G); return; }
  size_t cg = (size_t)C * G;
  if (c.GetAlpha().size() != (size_t)h.S * C || c.GetSigma().size() != (size_t)h.S * C || c.GetXi().size() != h.S * cg || c.GetBeta().size() != h.S * cg) { cx.fail(prop, "sample-size", "stored vectors have the wrong length (%s)", w.c_str()); return; }
  for (int s = 0; s < h.S; s++) for (int k = 0; k < C; k++) {
    size_t ia = (size_t)s * C + k;
    if (!same_bits(c.GetAlpha()[ia], h.a[ia])) cx.fail(prop, "stored-multiplier", "multiplier of sample %d component %d is %g, drawn %g (%s)", s, k, c.GetAlpha()[ia], h.a[ia], w.c_str());
    if (!same_bits(c.GetSigma()[ia], h.s[ia])) cx.fail(prop, "stored-variance", "variance of sample %d component %d is %g, drawn %g (%s)", s, k, c.GetSigma()[ia], h.s[ia], w.c_str());
    for (int g = 0; g < G; g++) {
      size_t i = s * cg + (size_t)g * C + k;
      if (!same_bits(c.GetXi()[i], h.xi[i])) cx.fail(prop, "stored-effect", "working effect of sample %d group %d component %d is %g, drawn %g (%s)", s, g, k, c.GetXi()[i], h.xi[i], w.c_str());
      if (!close(c.GetBeta()[i], h.xi[i] * h.a[ia], 1e-13)) cx.fail(prop, "coefficient", "coefficient of sample %d group %d component %d is %g, multiplier x effect is %g (%s)", s, g, k, c.GetBeta()[i], h.xi[i] * h.a[ia], w.c_str());
      cx.count("coefficients_checked");
    }
  }
}
// predictions for any rows of the known groups, for every stored sample
static void check_predict(Ctx& cx, Rng& r, const char* prop, RandomEffectsContainer& c, LabelMapper& lm, Rfx& x, const Samples& h, int n) {
  vector<double> B((size_t)n * x.C); for (auto& v : B) v = r.flip(0.1) ? 0 : r.norm(); vector<int32_t> lab(n); for (auto& l : lab) l = r.pick(x.labels);
  vector<double> cm(B.size()); for (int i = 0; i < n; i++) for (int k = 0; k < x.C; k++) cm[(size_t)k * n + i] = B[(size_t)i * x.C + k];
  bool rm = r.flip(); RandomEffectsDataset ds; ds.AddBasis(rm ? B.data() : cm.data(), n, x.C, rm); ds.AddGroupLabels(lab);
  vector<double> out((size_t)n * h.S, -777); c.Predict(ds, lm, out);
  for (int s = 0; s < h.S; s++) for (int i = 0; i < n; i++) {
    double e = 0; int g = x.idx(lab[i]); for (int k = 0; k < x.C; k++) e += B[(size_t)i * x.C + k] * h.a[(size_t)s * x.C + k] * h.xi[((size_t)s * x.G + g) * x.C + k];
    if (!close(out[(size_t)s * n + i], e, 1e-10)) { cx.fail(prop, "stored-prediction", "sample %d row %d label %d predicted %g, its group's effect is %g (%s)", s, i, lab[i], out[(size_t)s * n + i], e, where(x).c_str()); return; }
    cx.count("stored_predictions");
  }
  // an unseen label has no group: refused
  if (n > 0 && h.S > 0) {
    int32_t u = 77777777; lab[r.in(0, n - 1)] = u; RandomEffectsDataset d2; d2.AddBasis(B.data(), n, x.C, true); d2.AddGroupLabels(lab);
    bool refused = false; try { c.Predict(d2, lm, out); } catch (std::exception&) { refused = true; }
    if (!refused) cx.fail("C13", "unseen-label", "prediction with an unseen group label was not refused (%s)", where(x).c_str());
  }
}

SUITE(groups) {
  int n = r.pick({r.in(1, 3), r.in(1, 40)}), large = cx.kase % 150 == 75 ? r.in(1, 3) : 0; if (large) { cx.count("large_cases"); n = large == 1 ? 1000 : 200; }
  Rfx x; x.init(r, n, large == 2 ? 7 : 3, large == 3 ? 150 : large == 1 ? 40 : 6); std::mt19937 gen((unsigned)r.next());
  cx.sample(where(x)); { std::ostringstream o; o << where(x); for (auto l : x.lab) o << l << " "; cx.dist("groupings", o.str()); }
  check_groups(cx, x);
  // SampleCategoryMapper edits
  { SampleCategoryMapper m(x.lab), c(m); vector<int32_t> v = x.lab, v0 = x.lab; for (int q = 0; q < 4; q++) { int i = r.in(0, n - 1), k = r.in(-5, 50); m.SetCategoryId(i, k); v[i] = k; } for (int i = 0; i < n; i++) { if ((int32_t)m.GetCategoryId(i) != v[i]) cx.fail("C13", "row-label", "row %d label %d, set to %d", i, (int)m.GetCategoryId(i), v[i]); if ((int32_t)c.GetCategoryId(i) != v0[i]) cx.fail("C13", "row-label", "copy of the row labels changed with the original"); } }
  {  // setting one group's parameters, or one component's variance, sets that one and nothing else
    Eigen::MatrixXd xi0 = x.m->GetGroupParameters(), cov0 = x.m->GetGroupParameterCovariance(), xi = xi0, cov = cov0; Eigen::VectorXd a = x.m->GetWorkingParameter();
    for (int q = r.in(0, 3); q > 0; q--) { int g = r.in(0, x.G - 1), k = r.in(0, x.C - 1); Eigen::VectorXd v(x.C); for (int c = 0; c < x.C; c++) v(c) = r.norm(); double s = r.uni(0.1, 3); x.m->SetGroupParameter(v, g); x.m->SetGroupParameterVarianceComponent(s, k); for (int c = 0; c < x.C; c++) xi(c, g) = v(c); cov(k, k) = s; cx.count("parameters_set"); }
    auto same = [](const Eigen::MatrixXd& p, const Eigen::MatrixXd& q) { return p.rows() == q.rows() && p.cols() == q.cols() && p == q; };
    if (!same(x.m->GetGroupParameters(), xi) || !same(x.m->GetGroupParameterCovariance(), cov) || !same(x.m->GetWorkingParameter(), a)) cx.fail("C13", "setters", "setting single parameters changed others, or did not take (%s)", where(x).c_str());
    x.started = true; auto pr = x.m->Predict(x.ds, *x.tr); for (int i = 0; i < n; i++) if (!close(pr[i], x.fit(i), 1e-10)) { cx.fail("C13", "set-prediction", "row %d label %d predicted %g from parameters that were set, its group's effect is %g (%s)", i, x.lab[i], pr[i], x.fit(i), where(x).c_str()); break; } x.started = false;
    x.m->SetGroupParameters(xi0); x.m->SetGroupParameterCovariance(cov0);
  }
  LabelMapper lm(x.tr->GetLabelMap());
  for (int g = 0; g < x.G; g++) { if (!lm.ContainsLabel(x.labels[g]) || lm.CategoryNumber(x.labels[g]) != g) cx.fail("C13", "label-mapper", "label %d not mapped to %d", x.labels[g], g); }
  if (lm.Keys() != x.labels || lm.ContainsLabel(77777777)) cx.fail("C13", "label-mapper", "label mapper keys differ from the labels");
  { bool refused = false; try { lm.CategoryNumber(77777777); } catch (std::exception&) { refused = true; } if (!refused) cx.fail("C13", "unseen-label", "an unseen label was given a group number"); }
  { bool refused = false; try { x.tr->CategoryNumber(77777777); } catch (std::exception&) { refused = true; } if (!refused) cx.fail("C13", "unseen-label", "the tracker gave an unseen label a group number"); }

  // passes: residual + fit is conserved, tracker predictions are the current fit, samples stored as drawn
  vector<double> y(n); for (auto& v : y) v = r.norm() * r.pick({0.1, 1.0, 30.0}); ColumnVector resid(y.data(), n); Samples h; int passes = large == 2 ? r.in(10, 30) : r.in(1, 5);
  for (int p = 0; p < passes; p++) {
    x.m->SampleRandomEffects(x.ds, resid, *x.tr, r.uni(0.2, 3), gen); x.started = true; cx.count("passes");
    vector<double> pr = x.m->Predict(x.ds, *x.tr), pi(n, -5); x.m->PredictInplace(x.ds, *x.tr, pi);
    for (int i = 0; i < n; i++) {
      double f = x.fit(i);
      if (!close(pr[i], f, 1e-10) || !same_bits(pr[i], pi[i])) cx.fail("C13", "current-prediction", "row %d label %d predicted %g, its group's effect is %g (%s)", i, x.lab[i], pr[i], f, where(x).c_str());
      if (!close(x.tr->GetPrediction(i), f, 1e-10)) cx.fail("C13", "remembered-prediction", "row %d remembered %g, effect %g", i, x.tr->GetPrediction(i), f);
      if (!close(resid.GetElement(i) + f, y[i], 1e-9, std::fabs(f))) cx.fail("C13", "residual", "row %d residual %g + effect %g is not the outcome %g (%s)", i, resid.GetElement(i), f, y[i], where(x).c_str());
    }
    if (r.flip(0.3)) {  // remove and restore by hand
      vector<double> before(n); for (int i = 0; i < n; i++) before[i] = resid.GetElement(i);
      x.m->AddCurrentPredictionToResidual(x.ds, *x.tr, resid);
      for (int i = 0; i < n; i++) if (!close(resid.GetElement(i), y[i], 1e-9, std::fabs(before[i]))) cx.fail("C13", "residual-add", "adding the effects back gives %g, outcome %g", resid.GetElement(i), y[i]);
      x.m->SubtractNewPredictionFromResidual(x.ds, *x.tr, resid);
      for (int i = 0; i < n; i++) if (!close(resid.GetElement(i), before[i], 1e-9, std::fabs(y[i]))) cx.fail("C13", "residual-subtract", "subtracting the effects again gives %g, was %g", resid.GetElement(i), before[i]);
    }
    if (r.flip(0.85)) { x.cont->AddSample(*x.m); record(x, h); }
  }
  check_cont(cx, "C13", *x.cont, x.C, x.G, h, where(x));
  check_predict(cx, r, "C13", *x.cont, lm, x, h, r.in(1, 12));
  check_groups(cx, x);
}

SUITE(rfx_json) {
  int n = r.in(1, 25), large = cx.kase % 100 == 50 ? r.in(1, 3) : 0; if (large) { cx.count("large_cases"); n = large == 3 ? 20 : 300; }
  Rfx x; x.init(r, n, large == 2 ? 7 : 3, large == 1 ? 150 : large == 2 ? 20 : 6); std::mt19937 gen((unsigned)r.next()); vector<double> y(n); for (auto& v : y) v = r.norm(); ColumnVector resid(y.data(), n); Samples h;
  int S = large == 3 ? r.in(20, 130) : r.in(0, 4); for (int p = 0; p < S; p++) { x.m->SampleRandomEffects(x.ds, resid, *x.tr, 1.0, gen);
    Eigen::VectorXd a0 = x.m->GetWorkingParameter(), a = a0;
    if (r.flip(0.3)) { a(0) = r.pick({0.0, -0.0, 5e-324, 1.234567890123456e150, 0.1, -1.0 / 3}); x.m->SetWorkingParameter(a); }
    x.cont->AddSample(*x.m); record(x, h); x.m->SetWorkingParameter(a0); }
  LabelMapper lm(x.tr->GetLabelMap());
  string doc = x.cont->to_json().dump(), ldoc = lm.to_json().dump(); cx.dist("documents", doc + ldoc); cx.sample(ldoc);
  RandomEffectsContainer c2(r.in(1, 3), r.in(1, 4)); LabelMapper lm2;
  if (r.flip()) { Rfx o; o.init(r, r.in(1, 8)); for (int q = r.in(0, 2); q > 0; q--) { RandomEffectsContainer t(o.C, o.G); t.AddSample(*o.m); c2.from_json(nlohmann::json::parse(t.to_json().dump())); } lm2 = LabelMapper(o.tr->GetLabelMap()); cx.count("used_targets"); }
  if (r.flip(0.3)) { c2.Reset(); if (c2.to_json() != RandomEffectsContainer().to_json() || c2.GetBeta().size() + c2.GetXi().size() + c2.GetAlpha().size() + c2.GetSigma().size() != 0) cx.fail("C15", "rfx-reset", "random-effects samples that were reset are not empty"); lm2.Reset(); if (lm2.Keys().size() + lm2.Map().size()) cx.fail("C15", "label-reset", "a label map that was reset is not empty"); }
  c2.from_json(nlohmann::json::parse(doc)); lm2.from_json(nlohmann::json::parse(ldoc));
  check_cont(cx, "C15", c2, x.C, x.G, h, where(x));
  for (size_t i = 0; i < x.cont->GetBeta().size(); i++) if (!same_bits(x.cont->GetBeta()[i], c2.GetBeta()[i])) cx.fail("C15", "rfx-bits", "coefficient %zu differs after reload", i);
  if (lm2.Map() != lm.Map() || lm2.Keys() != lm.Keys()) cx.fail("C15", "label-map", "label map differs after reload (%s)", where(x).c_str());
  if (c2.to_json().dump() != doc || lm2.to_json().dump() != ldoc) cx.fail("C15", "rfx-rewrite", "writing the reloaded random effects again gives another document (%s)", where(x).c_str());
  // carry on: both objects take more samples and predict alike
  for (int q = r.in(0, 3); q > 0; q--) { x.m->SampleRandomEffects(x.ds, resid, *x.tr, 1.0, gen); x.cont->AddSample(*x.m); c2.AddSample(*x.m); record(x, h); }
  check_cont(cx, "C15", c2, x.C, x.G, h, where(x)); check_cont(cx, "C15", *x.cont, x.C, x.G, h, where(x));
  check_predict(cx, r, "C15", c2, lm2, x, h, r.in(1, 6));
  // documents that cannot be read leave the object alone
  nlohmann::json j = nlohmann::json::parse(c2.to_json().dump()), l = nlohmann::json::parse(lm2.to_json().dump()); string was = j.dump(), lwas = l.dump();
  vector<string> keys; for (auto& e : j.items()) keys.push_back(e.key()); string k = r.pick(keys); bool bad = true;
  switch (r.in(0, 2)) { case 0: j.erase(k); break; case 1: j[k] = "zz"; break; default: if (j[k].is_array() && j[k].size()) j[k].erase(j[k].size() - 1); else if (j[k].is_number()) j[k] = (int)j[k] + 1; else bad = false; }
  if (h.S == 0 && k == "num_groups") bad = false; if (h.S == 0 && k == "num_components") bad = false; if (k == "num_samples" && x.C == 0) bad = false;
  if (bad && !(j.contains(k) && j[k].is_string() && h.S == 0 && j[k].size() && (k == "beta" || k == "xi" || k == "alpha" || k == "sigma_xi")) && !(h.S == 0 && !j.contains(k) && (k == "beta" || k == "xi" || k == "alpha" || k == "sigma_xi"))) {
    bool refused = false; try { c2.from_json(j); } catch (std::exception&) { refused = true; }
    if (!refused) cx.fail("C28", "rfx-json", "random-effects document with a damaged entry %s was accepted", k.c_str());
    else if (c2.to_json().dump() != was) cx.fail("C28", "rfx-json-state", "refusing a damaged document (%s) changed the samples", k.c_str());
    cx.count("damaged_documents");
  }
  switch (r.in(0, 3)) { case 0: l.erase("keys"); break; case 1: l.erase("values"); break; case 2: l["keys"].push_back(5); break; default: l["values"][x.G - 1] = "q"; }
  { bool refused = false; try { lm2.from_json(l); } catch (std::exception&) { refused = true; }
    if (!refused) cx.fail("C28", "label-json", "damaged label-map document accepted"); else if (lm2.to_json().dump() != lwas) cx.fail("C28", "label-json-state", "refusing a damaged document changed the label map"); cx.count("damaged_documents"); }
}
int main(int c, char** v) { return mon::main_(c, v); }
