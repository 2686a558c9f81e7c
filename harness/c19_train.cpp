// C19: the training loss and its gradient against their definition on the map's own values, for every map, density, data set and
// layout; TrainMap against the same optimiser run directly on the same objective, over all option settings and over
// objectives that answer freely (equal, better, worse, not-a-number); requests for missing test data.
#include "exact_alloc.h"
#include "alloc.h"
#include "gauss.h"
#include "MParT/TrainMap.h"
#include "MParT/MapObjective.h"
#include <limits>
typedef mpart::KLObjective<HS> KL; typedef std::shared_ptr<mpart::MapObjective<HS>> Obj;
static std::string bad;
static const double nan_ = std::numeric_limits<double>::quiet_NaN(), inf_ = std::numeric_limits<double>::infinity();
static Vec coeffsOf(MapP m) { Vec r(m->Coeffs().extent(0)); for (size_t i = 0; i < r.size(); ++i) r[i] = m->Coeffs()(i); return r; }
static bool kept(Mat& a, Mat& b) { return a.buf.size() == b.buf.size() && !memcmp(a.buf.data(), b.buf.data(), 8 * a.buf.size()); }
static bool near(double a, double b, double t) { return close(a, b, t); }

// ---- the loss
struct Data { Cols x; };
static Data select(Data const& d, unsigned n, unsigned from) { Data r; for (unsigned j = 0; j < n; ++j) r.x.push_back(d.x[(from + 3 * j) % d.x.size()]); return r; }
static void loss(E e, unsigned idx, bool T) {
    Vec c = coeffs(e->nc, 0); auto make = [&] { MapP f = e->build(); if (e->nc) Expr::setC(*f, c); return f; };
    Data all; for (unsigned j = 0; j < 7; ++j) all.x.push_back(point(e->in, j));
    MapP f = make(); Mat X = fillMat(all.x, e->in, 0); Cols y = colsOf(f->Evaluate(CM(X.view())));
    for (auto& p : y) for (double t : p) if (!(std::fabs(t) < 1e4)) { mc::count("overflowing_cases_skipped"); return; }
    for (int k = 0; k < (T ? 4 : 2); ++k) {
        static const int mk[] = {0, 2, 2, 1}, ck[] = {0, 2, 0, 3}; Gauss g(e->out, mk[(k + idx) % 4], ck[(k + idx) % 4]); std::string nm = mc::cat(g.name(), " through ", e->name);
        for (unsigned n : {1u, 2u, 5u, 7u, 40u}) {
            if (n == 40 && k) continue;
            Data tr = select(all, n, 0), te = select(all, n == 1 ? 3 : n - 1, 2);
            // the definition, a point at a time
            auto define = [&](Data const& d, double& v, Vec& gr, bool& have) {
                Mat Q = fillMat(d.x, e->in, 0); Cols z = colsOf(f->Evaluate(CM(Q.view()))), sens; StridedVector<double, HS> ld = f->LogDeterminant(CM(Q.view())); v = 0; for (size_t j = 0; j < z.size(); ++j) { v -= (g.logp(z[j]) + ld(j)) / z.size(); sens.push_back(g.grad(z[j])); }
                Mat S = fillMat(sens, e->out, 0); gr.assign(e->nc, 0); have = true; if (!e->nc) return;
                try { Cols a = colsOf(f->CoeffGrad(CM(Q.view()), CM(S.view()))), b = colsOf(f->LogDeterminantCoeffGrad(CM(Q.view()))); for (size_t j = 0; j < a.size(); ++j) for (unsigned i = 0; i < e->nc; ++i) gr[i] -= (a[j][i] + b[j][i]) / a.size(); } catch (std::invalid_argument&) { have = false; mc::count("refused"); }
            };
            double vtr, vte; Vec gtr, gte; bool have, have2; define(tr, vtr, gtr, have); define(te, vte, gte, have2);
            if (!std::isfinite(vtr) || !std::isfinite(vte)) { mc::count("overflowing_cases_skipped"); continue; }
            double scale = 1; for (double t : gtr) scale = std::max(scale, std::fabs(t)); for (double t : gte) scale = std::max(scale, std::fabs(t));
            for (int lay = 0; lay < 5; ++lay) for (int way = 0; way < 3; ++way) {   // constructed from a density; from a density without test data; through the factory
                if (way == 2 && ((k + idx) % 4 || g.mk || g.ck)) continue; if (way && lay % 2 != way % 2 && !T) continue;
                Mat A = fillMat(tr.x, e->in, lay), B = fillMat(te.x, e->in, (lay + 2) % 5), A0 = A, B0 = B; CM a = A.view(), b = B.view(); Obj o; MapP m = make(); mc::count("objectives");
                if (way == 0) o = std::make_shared<KL>(a, b, g.make()); else if (way == 1) o = std::make_shared<KL>(a, g.make()); else o = lay % 4 ? mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(a, b, e->out) : e->in == e->out ? mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(a, b) : mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(a, b, e->out);
                auto wrong = [&](const char* cls, std::string w) { mc::viol(cls, mc::cat(nm, ", ", n, " points, data layout ", lay, ", way ", way, ": ", w)); };
                if (o->InputDim() != e->in || o->MapOutputDim() != e->out || o->NumSamples() != n) { wrong("objective-dimensions", mc::cat(o->InputDim(), " ", o->MapOutputDim(), " ", o->NumSamples())); return; }
                heap::poison() = lay % 2 ? 0xFF : -1; struct Off { ~Off() { heap::poison() = -1; } } off;
                try {
                    double v = o->TrainError(m); if (!near(v, vtr, 1e-9)) { wrong("train-error", mc::cat(v, ", expected ", vtr)); return; }
                    if (way == 1) { try { double t = o->TestError(m); wrong("test-error-without-test-data", mc::cat("answered ", t)); return; } catch (std::exception&) { mc::count("refused_missing_test_data"); } }
                    else { v = o->TestError(m); if (!near(v, vte, 1e-9)) { wrong("test-error", mc::cat(v, ", expected ", vte)); return; } }
                    if (!near(o->ObjectiveImpl(b, m), vte, 1e-9)) { wrong("objective-value", "of other data"); return; }
                    if (have && e->nc) {
                        auto eq = [&](const char* what, Vec const& q, Vec const& w) { for (unsigned i = 0; i < e->nc; ++i) if (!(std::fabs(q[i] - w[i]) <= 1e-9 * scale)) { wrong("objective-gradient", mc::cat(what, ": entry ", i, " is ", q[i], ", expected ", w[i])); return false; } return true; };
                        Vec q(e->nc); StridedVector<double, HS> s = o->TrainCoeffGrad(m); if (s.extent(0) != e->nc) { wrong("objective-gradient", "length"); return; } for (unsigned i = 0; i < e->nc; ++i) q[i] = s(i); if (!eq("TrainCoeffGrad", q, gtr)) return;
                        for (int lo = 0; lo < 3; ++lo) for (double st : {0.0, 5.5, nan_}) for (int which = 0; which < 4; ++which) {
                            VecL O(e->nc, lo, st); mc::count("gradients"); const char* what; double val = 0, want = 0;
                            switch (which) { case 0: what = "TrainCoeffGradImpl"; o->TrainCoeffGradImpl(m, O.view()); break; case 1: what = "CoeffGradImpl"; o->CoeffGradImpl(b, O.view(), m); break;
                                case 2: what = "ObjectivePlusCoeffGradImpl"; val = o->ObjectivePlusCoeffGradImpl(a, O.view(), m); want = vtr; break; default: what = "ObjectivePlusCoeffGradImpl of other data"; val = o->ObjectivePlusCoeffGradImpl(b, O.view(), m); want = vte; }
                            std::string w = mc::cat(what, " into layout ", lo, " holding ", st); if (!O.paddingKept()) { wrong("objective-gradient", w + ": wrote outside of the output"); return; }
                            for (unsigned i = 0; i < e->nc; ++i) q[i] = O.at(i); if (!eq(w.c_str(), q, which == 0 || which == 2 ? gtr : gte)) return; if (which >= 2 && !near(val, want, 1e-9)) { wrong("objective-value", w); return; }
                        }
                        // the function handed to the optimiser: sets the coefficients, then as above; also without gradient
                        MapP m2 = e->build(); Vec other = coeffs(e->nc, 3); Expr::setC(*m2, other);
                        for (int rep = 0; rep < 2; ++rep) { Vec out(e->nc + 2, 7.5); double val = (*o)(e->nc, c.data(), out.data() + 1, m2); if (!near(val, vtr, 1e-9)) { wrong("objective-value", mc::cat("function call: ", val, ", expected ", vtr)); return; } if (out[0] != 7.5 || out.back() != 7.5) { wrong("objective-gradient", "function call wrote outside"); return; } if (!eq("function call", Vec(out.begin() + 1, out.end() - 1), gtr)) return; if (coeffsOf(m2) != c) { wrong("coefficients-not-set", "function call"); return; }
                            Expr::setC(*m2, other); val = (*o)(e->nc, c.data(), nullptr, m2); if (!near(val, vtr, 1e-9) || coeffsOf(m2) != c) { wrong("objective-value", "function call without gradient"); return; } }
                    }
                    if (coeffsOf(m) != (e->nc ? c : Vec())) if (e->nc) { wrong("coefficients-changed", "by the objective"); return; }
                    if (!kept(A, A0) || !kept(B, B0)) { wrong("data-changed", ""); return; }
                } catch (std::exception& ex) { wrong("raised", ex.what()); return; }
            }
        }
    }
}
// ---- training: the same optimiser, run directly on the same objective
struct Trace { std::vector<Vec> x; std::vector<double> f; std::vector<char> g; };
// an objective of its own: a fixed smooth function, or a menu of answers by number of the evaluation
struct Menu : mpart::MapObjective<HS> {
    int kind; std::vector<int> script; mutable Trace t; unsigned dim;
    Menu(CM tr, int k, std::vector<int> s, unsigned d) : mpart::MapObjective<HS>(tr), kind(k), script(s), dim(d) {}
    unsigned MapOutputDim() const override { return dim; }
    double value(Vec const& c, size_t call, Vec& g) const {
        double s = 0; g.assign(c.size(), 0); for (size_t i = 0; i < c.size(); ++i) { double r = c[i] - 0.3 * (1 + i % 3), w = 1 + 2.0 * (i % 2); if (kind == 1) { s += std::sqrt(1 + r * r); g[i] = r / std::sqrt(1 + r * r); } else { s += w * r * r; g[i] = 2 * w * r; } if (kind == 2 && i + 1 < c.size()) { double q = c[i + 1] - c[i] * c[i]; s += 5 * q * q; g[i] += -20 * q * c[i]; } if (kind == 2 && i > 0) g[i] += 10 * (c[i] - c[i - 1] * c[i - 1]); }
        if (kind == 3) { int a = call < script.size() ? script[call] : 2; s = a == 0 ? 1.0 - 0.25 * call : a == 1 ? 1.0 : a == 2 ? 1.0 + 0.5 * call : a == 3 ? nan_ : inf_; }
        return s;
    }
    double record(MapP m, Vec& g, bool withG) const { Vec c = coeffsOf(m); size_t n = t.x.size(); double v = value(c, n, g); t.x.push_back(c); t.f.push_back(v); t.g.push_back(withG); return v; }
    double ObjectiveImpl(CM, MapP m) const override { Vec g; return record(m, g, false); }
    void CoeffGradImpl(CM, StridedVector<double, HS> o, MapP m) const override { Vec g; record(m, g, true); for (size_t i = 0; i < g.size(); ++i) o(i) = g[i]; }
    double ObjectivePlusCoeffGradImpl(CM, StridedVector<double, HS> o, MapP m) const override { Vec g; double v = record(m, g, true); for (size_t i = 0; i < g.size(); ++i) o(i) = g[i]; return v; }
};
struct Direct { Menu* o; Trace t; std::function<double(Vec const&, Vec*)> f; };
static double directFn(unsigned n, const double* x, double* g, void* p) { Direct* d = (Direct*)p; Vec c(x, x + n), gr; double v = d->f(c, &gr); d->t.x.push_back(c); d->t.f.push_back(v); d->t.g.push_back(g != nullptr); if (g) for (unsigned i = 0; i < n; ++i) g[i] = gr[i]; return v; }
static void train(int mapKind, std::string alg, int kind, unsigned oi, int start, std::vector<int> script, std::string nm) {
    E e = mapKind == 0 ? comp(1, 0) : mapKind == 1 ? mkTri({comp(1, 0), comp(2, 1)}) : mkComposed({mkTri({comp(1, 0), comp(2, 0)}), mkTri({comp(1, 0), comp(2, 0)})}, 1);
    mpart::TrainOptions o; o.opt_alg = alg; o.opt_maxeval = 60; o.opt_ftol_rel = o.opt_ftol_abs = o.opt_xtol_rel = o.opt_xtol_abs = 0;
    switch (oi) { case 0: break; case 1: o.opt_maxeval = 1; break; case 2: o.opt_maxeval = 2; break; case 3: o.opt_maxeval = 7; break; case 4: o.opt_stopval = kind == 1 ? e->nc + 0.2 : 0.5; break; case 5: o.opt_ftol_rel = 1e-2; break; case 6: o.opt_ftol_abs = 1e-2; break; case 7: o.opt_xtol_rel = 1e-2; break; case 8: o.opt_xtol_abs = 1e-2; break; case 9: o = mpart::TrainOptions(); o.opt_alg = alg; break; case 10: o.opt_ftol_abs = 1e-1; o.opt_xtol_rel = 1e-6; o.opt_maxeval = 40; break; case 11: o.opt_maxtime = 1e-9; break; }
    MapP m = e->build(); Vec x0(e->nc); if (start == 0) { x0.assign(e->nc, 1.0); if (m->Coeffs().extent(0)) x0 = coeffsOf(m); } else { for (unsigned i = 0; i < e->nc; ++i) x0[i] = start == 1 ? 0.4 - 0.15 * i : 3.0 + i; Expr::setC(*m, x0); }
    if (x0.size() != e->nc) { mc::viol("harness", "start"); return; }
    Mat X(e->in, 3, 0, 0.25); Direct d; Menu probe(CM(X.view()), kind, script, e->out); size_t calls = 0; d.f = [&](Vec const& c, Vec* g) { return probe.value(c, calls++, *g); };
    nlopt::opt opt(alg.c_str(), e->nc); opt.set_min_objective(directFn, &d); opt.set_stopval(o.opt_stopval); opt.set_xtol_rel(o.opt_xtol_rel); opt.set_xtol_abs(o.opt_xtol_abs); opt.set_ftol_rel(o.opt_ftol_rel); opt.set_ftol_abs(o.opt_ftol_abs); opt.set_maxeval(o.opt_maxeval); opt.set_maxtime(o.opt_maxtime);
    Vec x = x0; double err = nan_; bool threw = false; nlopt::srand(5); try { opt.optimize(x, err); } catch (std::exception&) { threw = true; }
    auto ob = std::make_shared<Menu>(CM(X.view()), kind, script, e->out); double r = nan_; bool threw2 = false; std::string what; mc::count("trainings"); mc::count("optimiser_evaluations", d.t.x.size());
    nlopt::srand(5); try { r = mpart::TrainMap<HS>(m, ob, o); } catch (std::exception& ex) { threw2 = true; what = ex.what(); }
    auto wrong = [&](const char* cls, std::string w) { mc::viol(cls, mc::cat(nm, " ", mc::str(script), ": ", w)); };
    if (threw != threw2) { wrong("training-raises", threw2 ? what : "the optimiser raised, TrainMap did not"); return; }
    if (oi == 11) { if (!threw && !ob->t.x.size()) wrong("no-evaluation", ""); return; }   // a time limit: only that it stops
    size_t n = std::min(d.t.x.size(), ob->t.x.size());
    for (size_t k = 0; k < n; ++k) for (unsigned i = 0; i < e->nc; ++i) if (!close(d.t.x[k][i], ob->t.x[k][i], 1e-12)) { wrong("evaluation-point", mc::cat("evaluation ", k, " entry ", i, " at ", ob->t.x[k][i], ", expected ", d.t.x[k][i])); return; }
    if (d.t.x.size() != ob->t.x.size()) { wrong("number-of-evaluations", mc::cat(ob->t.x.size(), ", expected ", d.t.x.size())); return; }
    if (threw) { mc::count("raising_objectives"); return; }
    Vec left = coeffsOf(m); if (left.size() != e->nc) { wrong("coefficients-left", "length"); return; }
    for (unsigned i = 0; i < e->nc; ++i) if (!close(left[i], x[i], 1e-12)) { wrong("coefficients-left", mc::cat("entry ", i, " is ", left[i], ", the optimiser returned ", x[i])); return; }
    if (!close(r, err, 1e-12)) { wrong("returned-error", mc::cat(r, ", the optimiser returned ", err)); return; }
    if (kind < 3) { Vec g; double at = probe.value(left, 0, g), from = probe.value(x0, 0, g); if (!close(at, r, 1e-9)) wrong("returned-error-is-not-at-the-coefficients-left", mc::cat(r, ", there it is ", at)); if (!(at <= from + 1e-9 * (1 + std::fabs(from)))) wrong("worse-than-the-start", mc::cat(at, ", started from ", from)); for (double v : left) if (!std::isfinite(v)) wrong("coefficients-not-finite", ""); }
}
// ---- real objectives: the returned error is the training error of the map that is left, not worse than the start, reproducible
static void realTraining(E e, std::string alg, unsigned n, int start, int opts, bool strided) {
    Gauss g(e->out, start == 2 ? 2 : 0, start == 2 ? 2 : 0); Cols x; for (unsigned j = 0; j < n; ++j) { Vec p = point(e->in, j); for (unsigned i = 0; i < p.size(); ++i) p[i] = 0.8 * p[i] + 0.1 * std::sin(3.0 * j + i); x.push_back(p); }
    auto run = [&](bool again, int lay, Vec& left, double& r, bool& threw) {
        Mat A = fillMat(x, e->in, lay), A0 = A; Obj o = std::make_shared<KL>(CM(A.view()), g.make()); MapP m = e->build(); if (start) Expr::setC(*m, coeffs(e->nc, start == 1 ? 0 : 3)); mpart::TrainOptions t; t.opt_alg = alg; t.opt_maxeval = opts == 0 ? 5 : opts == 1 ? 40 : 200; if (opts == 1) { t.opt_ftol_rel = t.opt_ftol_abs = 1e-9; t.opt_xtol_rel = t.opt_xtol_abs = 1e-9; }
        double before; { MapP q = e->build(); Vec c0 = start ? coeffs(e->nc, start == 1 ? 0 : 3) : m->Coeffs().extent(0) ? coeffsOf(m) : Vec(e->nc, 1.0); Expr::setC(*q, c0); before = o->TrainError(q); }
        if (!std::isfinite(before)) { mc::count("overflowing_cases_skipped"); threw = true; return; }
        mc::count("trainings"); heap::poison() = again ? 0xFF : -1; try { r = mpart::TrainMap<HS>(m, o, t); threw = false; } catch (std::exception& ex) { threw = true; mc::count("optimiser_gave_up"); } heap::poison() = -1;
        if (!kept(A, A0)) mc::viol("data-changed", e->name); if (threw) return; left = coeffsOf(m);
        if (left.size() != e->nc) { mc::viol("coefficients-left", "length"); return; } for (double v : left) if (!std::isfinite(v)) { mc::viol("coefficients-not-finite", e->name); return; }
        double at = o->TrainError(m); if (!close(at, r, 1e-10)) mc::viol("returned-error-is-not-at-the-coefficients-left", mc::cat(e->name, " ", alg, ": returned ", r, ", there it is ", at));
        if (!(r <= before + 1e-9 * (1 + std::fabs(before)))) mc::viol("worse-than-the-start", mc::cat(e->name, " ", alg, ": ", r, ", started from ", before));
    };
    Vec a, b; double ra = 0, rb = 0; bool ta, tb; run(false, 0, a, ra, ta); run(true, 0, b, rb, tb); if (ta != tb || (!ta && (a != b || ra != rb))) mc::viol("training-not-reproducible", mc::cat(e->name, " ", alg, ": ", ra, " then ", rb));
    if (strided && !ta) { run(false, 3, b, rb, tb); if (ta != tb || !close(ra, rb, 1e-6)) mc::viol("training-depends-on-layout", mc::cat(e->name, " ", alg, ": ", ra, " then ", rb)); }
}
static void refusals() {
    E e = comp(1, 0); Mat X(1, 3, 0, 0.25); for (int j = 0; j < 3; ++j) X.at(0, j) = 0.3 * j - 0.2; Obj o = std::make_shared<KL>(CM(X.view()), Gauss(1, 0, 0).make());
    for (const char* a : {"", "NOT_AN_ALGORITHM", "slsqp", "LD_SLSQP "}) { MapP m = e->build(); Vec c = coeffs(e->nc, 0); Expr::setC(*m, c); mpart::TrainOptions t; t.opt_alg = a; mc::count("refusals"); try { mpart::TrainMap<HS>(m, o, t); mc::viol("unknown-algorithm-accepted", a); } catch (std::exception&) {} if (coeffsOf(m) != c) mc::viol("refused-training-changed-the-map", a); }
    for (int k = 0; k < 2; ++k) { Mat A(2, 4, k, 0.5); auto q = k ? mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(A.view())) : mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(A.view()), 1); MapP m = k ? mkTri({comp(1, 0), comp(2, 0)})->build() : comp(2, 0)->build(); Expr::setC(*m, coeffs(m->numCoeffs, 0)); mc::count("refusals"); try { q->TestError(m); mc::viol("test-error-without-test-data", "factory"); } catch (std::exception&) {} if (q->GetTrain().extent(0) != 2 || q->GetTrain().extent(1) != 4 || q->GetTest().extent(1) != 0 || q->MapOutputDim() != (k ? 2u : 1u)) mc::viol("objective-dimensions", "factory"); }
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews(); { bool T = mc::ctx().thorough;
    if (mc::take("refusals")) { mc::distinct(1); refusals(); }
    std::map<int, unsigned> seen; unsigned idx = 0;
    enumerate([&](E e) {
        unsigned q = seen[(int)e->kind]++; if (e->kind == EXPAN || e->kind == AFFFUN) return;
        unsigned step = T ? 1 : e->kind == COMP ? 18 : e->kind == COMPOSED ? 18 : e->kind == TRI ? 22 : 2; if (q % step) return;
        if (!mc::take("loss/" + e->name)) return; mc::distinct(mc::hashStr("loss/" + e->name)); loss(e, idx++, T);
    }, T);
    // all optimisers x objectives x options x starts
    std::vector<std::string> algs = {"LD_SLSQP", "LD_LBFGS", "LD_MMA", "LD_CCSAQ", "LD_VAR2", "LD_TNEWTON_PRECOND_RESTART", "LN_NELDERMEAD", "LN_BOBYQA", "LN_SBPLX", "LN_COBYLA", "LN_PRAXIS"};
    for (size_t a = 0; a < algs.size(); ++a) for (int mk = 0; mk < 3; ++mk) for (int k = 0; k < 3; ++k) for (unsigned oi = 0; oi < 12; ++oi) for (int st = 0; st < 3; ++st) {
        if (!T && mk == 2 && (a + k + oi + st) % 3) continue;
        std::string key = mc::cat("train/map", mk, "/", algs[a], "/objective", k, "/options", oi, "/start", st); if (!mc::take(key)) continue; mc::distinct(mc::hashStr(key)); train(mk, algs[a], k, oi, st, {}, key);
    }
    // objectives that answer freely: every script of answers (COBYLA itself does not end when it is answered not-a-number)
    unsigned depth = T ? 6 : 4, A = 5; for (auto& al : {"LD_SLSQP", "LD_LBFGS", "LD_MMA", "LN_NELDERMEAD"}) for (int mk = 0; mk < 2; ++mk) for (unsigned first = 0; first < A * A; ++first) {
        std::string key = mc::cat("answers/map", mk, "/", al, "/", first); if (!mc::take(key)) continue; mc::distinct(mc::hashStr(key));
        std::vector<int> s = {(int)(first / A), (int)(first % A)}; std::function<void()> go = [&] { if (s.size() == depth) { for (unsigned oi : {3u, 4u, 9u}) train(mk, al, 3, oi, 1, s, key); return; } for (unsigned v = 0; v < A; ++v) { s.push_back(v); go(); s.pop_back(); } }; go();
    }
    // training real maps
    std::vector<E> ms = {comp(1, 0), comp(1, 1), comp(2, 0), comp(2, 1), mkTri({comp(1, 0), comp(2, 1)}), mkTri({comp(2, 1), comp(3, 0)}), mkTri({mkIdent(1, 1), comp(2, 0)}), mkComposed({mkTri({comp(1, 0), comp(2, 1)}), mkTri({comp(1, 1), comp(2, 0)})}, 1), mkComposed({mkTri({comp(1, 0), comp(2, 1)}), mkAffine(2, 2, true, true, 1), mkTri({comp(1, 1), comp(2, 0)})}, 2), mkSumm(sumFn(2, 1, 0), comp(2, 0)), mkTri({comp(1, 0), comp(2, 0), comp(3, 1)})};
    for (size_t i = 0; i < ms.size(); ++i) for (auto& al : {"LD_SLSQP", "LD_LBFGS", "LD_MMA", "LN_NELDERMEAD"}) for (unsigned n : {3u, 10u, 30u}) for (int st = 0; st < 3; ++st) for (int op = 0; op < 3; ++op) {
        if (!T && (i + n + st + op) % 3) continue;
        std::string key = mc::cat("real/", ms[i]->name, "/", al, "/n", n, "/start", st, "/options", op); if (!mc::take(key)) continue; mc::distinct(mc::hashStr(key)); realTraining(ms[i], al, n, st, op, st == 1);
    } }
    Kokkos::finalize(); return mc::finish();
}
