// C20: densities and samplers. Gaussians of every construction against the textbook formula; transported densities and samplers
// against the change of variables through the same map; every seed and call history up to a bound; every layout and number of points.
#include "exact_alloc.h"
#include "alloc.h"
#include "family.h"
#include "mat.h"
#include "gauss.h"
// all ways of asking a density for its values at points: out[0] = value, or the gradient's entries
static std::string bad;
static bool kept(Mat& a, Mat& b) { return a.buf.size() == b.buf.size() && !memcmp(a.buf.data(), b.buf.data(), 8 * a.buf.size()); }
static Cols ask(Dens p, Cols const& x, unsigned in, bool grad, int how, int li, int lo, double stale) {
    unsigned n = x.size(); bad.clear();
    if (how == 0) {
        Mat X = fillMat(x, in, li), X0 = X; Cols r;
        if (grad) { Mat O(in, n, lo, stale); p->LogDensityInputGradImpl(X.view(), O.view()); if (!O.paddingKept()) bad = "wrote outside of the output"; r = colsOf(O.view()); }
        else { VecL O(n, lo % 3, stale); p->LogDensityImpl(X.view(), O.view()); if (!O.paddingKept()) bad = "wrote outside of the output"; for (unsigned j = 0; j < n; ++j) r.push_back({O.at(j)}); }
        if (!kept(X, X0)) bad = "modified its input"; return r;
    }
    if (how == 1) { Mat X = fillMat(x, in, li); CM v = X.view(); if (grad) return colsOf(p->LogDensityInputGrad(v)); StridedVector<double, HS> q = p->LogDensity(v); Cols r; for (unsigned j = 0; j < q.extent(0); ++j) r.push_back({q(j)}); return r; }
    Eigen::RowMatrixXd b(in + 2, n + 3); b.setConstant(1e30); for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < in; ++i) b(i + 1, j + 1) = x[j][i];
    Eigen::RowMatrixXd cont = b.block(1, 1, in, n); Cols r;
    typedef Eigen::Ref<const Eigen::RowMatrixXd> R; auto go = [&](R q) { if (grad) { Eigen::RowMatrixXd g = p->LogDensityInputGrad(q); for (int j = 0; j < g.cols(); ++j) { Vec c; for (int i = 0; i < g.rows(); ++i) c.push_back(g(i, j)); r.push_back(c); } } else { Eigen::VectorXd g = p->LogDensity(q); for (int j = 0; j < g.size(); ++j) r.push_back({g(j)}); } };
    if (how == 2) go(cont); else go(b.block(1, 1, in, n));
    return r;
}
static void everyWay(std::string const& what, std::function<Dens()> const& make, unsigned in, Cols const& x, Cols const& value, Cols const* gradient, double tol = 1e-11) {
    for (int g = 0; g < (gradient ? 2 : 1); ++g) for (unsigned n : {5u, 3u, 1u, 0u}) {
        Cols xs(x.begin(), x.begin() + n), want = g ? Cols(gradient->begin(), gradient->begin() + n) : Cols(value.begin(), value.begin() + n); Dens p = make();
        for (int how = 0; how < 4; ++how) for (int li = 0; li < (how < 2 ? 5 : 1); ++li) for (int lo = 0; lo < (how == 0 ? g ? 5 : 3 : 1); ++lo) for (double st : {0.0, std::nan("")}) {
            if (n == 0 && how == 0 && (li || lo)) continue;
            mc::count("evaluations"); Cols r; heap::poison() = st == 0 ? -1 : 0xFF;
            try { r = ask(p, xs, in, g, how, li, lo, st); } catch (std::exception& e) { bad = mc::cat("raised: ", e.what()); }
            heap::poison() = -1;
            if (bad.size() || !same(r, want, tol)) { mc::viol(g ? "density-gradient" : "density-value", mc::cat(what, g ? " gradient" : " log-density", ", ", n, " points, interface ", how, ", layouts ", li, ",", lo, ", earlier content ", st, ": ", bad.size() ? bad : diff)); return; }
        }
    }
}
static Cols grid(unsigned d) { Cols r; for (unsigned j = 0; j < 5; ++j) r.push_back(point(d, j)); return r; }
static Cols draw(Samp s, unsigned n) { Kokkos::View<double**, HS> v = s->Sample(n); return colsOf(CM(v)); }
static Cols drawInto(Samp s, unsigned d, unsigned n, int lay) { Mat O(d, n, lay, std::nan("")); bad.clear(); s->SampleImpl(O.view()); if (!O.paddingKept()) bad = "wrote outside of the output"; return colsOf(O.view()); }
static Cols standard(unsigned d, unsigned seed, std::vector<unsigned> ns) { auto s = std::make_shared<G>(d); s->SetSeed(seed); Cols all; for (unsigned n : ns) for (auto& c : draw(s, n)) all.push_back(c); return all; }

static void gaussian(Gauss const& g, bool T) {
    Cols x = grid(g.d), v, gr; for (auto& p : x) { v.push_back({g.logp(p)}); gr.push_back(g.grad(p)); }
    for (int lay = 0; lay < 2; ++lay) everyWay(mc::cat(g.name(), " covariance layout ", lay), [&] { return g.make(lay); }, g.d, x, v, &gr, 1e-10);
    // samples are the standard normal draws of the same seed, scaled and shifted
    for (unsigned seed : {0u, 1u, 2u, 12345u, 4294967295u}) for (unsigned n : {0u, 1u, 2u, 5u, 100u}) {
        Cols z = standard(g.d, seed, {n}), want; for (auto& c : z) { Vec y(g.d); for (unsigned i = 0; i < g.d; ++i) { y[i] = g.mu(i); for (unsigned j = 0; j <= i; ++j) y[i] += g.L(i, j) * c[j]; } want.push_back(y); }
        for (int lay = -1; lay < 5; ++lay) {
            mc::count("sample_sets"); auto s = g.make(); s->SetSeed(seed); Cols r; bad.clear();
            try { r = lay < 0 ? draw(s, n) : drawInto(s, g.d, n, lay); } catch (std::exception& e) { bad = mc::cat("raised: ", e.what()); }
            if (bad.size() || !same(r, want, 1e-10)) { mc::viol("samples", mc::cat(g.name(), " seed ", seed, ", ", n, " samples, layout ", lay, ": ", bad.size() ? bad : diff)); return; }
        }
    }
    // the standard draws themselves: the moments of a long sequence, distinct numbers (fixed seeds: the same answer in every run)
    if (g.mk == 0 && g.ck == 0) for (unsigned seed : {1u, 7u, 12345u}) {
        unsigned n = 20000; Cols z = standard(g.d, seed, {n}); mc::count("moments");
        for (unsigned i = 0; i < g.d; ++i) for (unsigned j = 0; j <= i; ++j) { double m = 0, c = 0, k = 0; for (auto& p : z) { m += p[i]; c += p[i] * p[j]; k += p[i] * p[i] * p[j] * p[j]; } m /= n; c /= n; k /= n; if (std::fabs(m) > 0.05 || std::fabs(c - (i == j)) > 0.06 || std::fabs(k - (i == j ? 3 : 1)) > 0.4) { mc::viol("not-standard-normal", mc::cat("dim ", g.d, " seed ", seed, " entries ", i, ",", j, ": mean ", m, " second moment ", c, " fourth ", k)); return; } }
        std::set<double> u; for (auto& p : z) for (double t : p) u.insert(t); if (u.size() != n * g.d) mc::viol("repeated-draws", mc::cat("dim ", g.d, " seed ", seed));
        if (same(standard(g.d, seed, {4}), standard(g.d, seed + 1, {4}))) mc::viol("seed-ignored", mc::cat("dim ", g.d, " seed ", seed));
    }
    // the Distribution wrapper and the factory agree with the object they wrap
    Dist q = std::make_shared<mpart::Distribution<HS>>(g.make(), g.make()); q->SetSeed(5); auto s = g.make(); s->SetSeed(5);
    if (q->Dim() != g.d || !same(colsOf(CM(q->Sample(3))), draw(s, 3), 0)) mc::viol("distribution", mc::cat(g.name(), " wrapped samples ", diff));
    Mat X = fillMat(x, g.d, 0); StridedVector<double, HS> ld = q->LogDensity(CM(X.view())); for (unsigned j = 0; j < 5; ++j) if (!close(ld(j), v[j][0], 1e-10)) mc::viol("distribution", mc::cat(g.name(), " wrapped log-density"));
    if (!same(colsOf(q->LogDensityInputGrad(CM(X.view()))), gr, 1e-10)) mc::viol("distribution", mc::cat(g.name(), " wrapped gradient ", diff));
}
// ---- seed and call histories: two objects given the same history after the same seeding agree, whatever came before the seeding
static void histories(std::string const& what, std::function<Samp()> const& make, unsigned d, unsigned depth) {
    const int A = 6; std::vector<int> h; mc::count("sampler_objects");
    auto apply = [&](Samp s, int op) -> Cols { switch (op) { case 0: return draw(s, 1); case 1: return draw(s, 3); case 2: return drawInto(s, d, 2, 1); case 3: s->SetSeed(11); return {}; case 4: s->SetSeed(12); return {}; default: return draw(s, 0); } };
    std::function<void()> go = [&] {
        if (h.size()) {
            mc::count("sampler_histories"); Samp a = make(), b = make(), c = make(); a->SetSeed(3); b->SetSeed(99); draw(b, 2); b->SetSeed(3); Cols ra, rb, rc, tail; int last = -1;
            for (size_t i = 0; i < h.size(); ++i) { Cols x = apply(a, h[i]), y = apply(b, h[i]); ra.insert(ra.end(), x.begin(), x.end()); rb.insert(rb.end(), y.begin(), y.end()); if (h[i] == 3 || h[i] == 4) { last = h[i]; tail.clear(); } else tail.insert(tail.end(), x.begin(), x.end()); }
            if (!same(ra, rb, 0)) { mc::viol("not-reproducible", mc::cat(what, " history ", mc::str(h), ": ", diff)); return; }
            if (last >= 0) { apply(c, last); size_t k = h.size(); while (h[k - 1] != 3 && h[k - 1] != 4) --k; for (; k < h.size(); ++k) { Cols x = apply(c, h[k]); rc.insert(rc.end(), x.begin(), x.end()); } if (!same(tail, rc, 0)) { mc::viol("seed-does-not-reset", mc::cat(what, " history ", mc::str(h), ": ", diff)); return; } }
            // consecutive draws are new draws
            for (size_t i = 1; i < tail.size(); ++i) for (size_t j = 0; j < i; ++j) if (tail[i] == tail[j]) { mc::viol("draw-repeated", mc::cat(what, " history ", mc::str(h))); return; }
        }
        if (h.size() < depth) for (int o = 0; o < A; ++o) { h.push_back(o); go(); h.pop_back(); }
    };
    go();
}
// ---- transports
static bool invertible(E e) { for (auto& k : e->ch) if (!invertible(k)) return false; return !(e->kind == COMP && e->nc == 1); }
static bool loose(E e) { bool r = e->kind == COMP && (e->o.quadType != mpart::QuadTypes::ClenshawCurtis || !e->o.contDeriv); for (auto& k : e->ch) r |= loose(k); return r; }
static void transport(E e, bool T, unsigned idx) {
    Vec c = coeffs(e->nc, 0); auto make = [&] { MapP f = e->build(); if (e->nc) Expr::setC(*f, c); return f; };
    Cols x = grid(e->in); MapP f = make(); Mat X = fillMat(x, e->in, 0); CM xv = X.view();
    Cols y = colsOf(f->Evaluate(xv)), gm, gc; Vec ld; { StridedVector<double, HS> l = f->LogDeterminant(xv); for (unsigned j = 0; j < 5; ++j) ld.push_back(l(j)); }
    for (auto& p : y) for (double t : p) if (!(std::fabs(t) < 1e4)) { mc::count("overflowing_cases_skipped"); return; }
    for (double t : ld) if (!(std::fabs(t) < 40)) { mc::count("overflowing_cases_skipped"); return; }
    for (int k = 0; k < (T ? 4 : 2); ++k) {
        static const int mk[] = {0, 2, 2, 1}, ck[] = {0, 2, 0, 3}; Gauss g(e->out, mk[(k + idx) % 4], ck[(k + idx) % 4]); std::string nm = mc::cat(g.name(), " through ", e->name);
        Cols sens, v; for (unsigned j = 0; j < 5; ++j) { sens.push_back(g.grad(y[j])); v.push_back({g.logp(y[j]) + ld[j]}); }
        auto pull = [&]() -> std::shared_ptr<mpart::PullbackDensity<HS>> { return std::make_shared<mpart::PullbackDensity<HS>>(make(), g.make()); };
        Cols gi, gcf; bool haveGrad = true; Mat Sm = fillMat(sens, e->out, 0);
        try { Cols a = colsOf(f->Gradient(xv, CM(Sm.view()))), b = colsOf(f->LogDeterminantInputGrad(xv)); for (unsigned j = 0; j < 5; ++j) { for (unsigned i = 0; i < e->in; ++i) a[j][i] += b[j][i]; } gi = a; } catch (std::invalid_argument&) { haveGrad = false; mc::count("refused"); }
        everyWay(nm + " pullback", pull, e->in, x, v, haveGrad ? &gi : nullptr, 1e-9);
        // derivative with respect to the coefficients, three interfaces, outputs of every layout
        if (e->nc) {
            Cols a, b; bool have = true; try { a = colsOf(f->CoeffGrad(xv, CM(Sm.view()))); b = colsOf(f->LogDeterminantCoeffGrad(xv)); } catch (std::invalid_argument&) { have = false; mc::count("refused"); }
            if (have) for (unsigned j = 0; j < 5; ++j) for (unsigned i = 0; i < e->nc; ++i) a[j][i] += b[j][i];
            if (have) for (int how = 0; how < 4; ++how) for (int lo = 0; lo < (how == 0 ? 5 : 1); ++lo) for (unsigned n : {5u, 1u, 0u}) {
                mc::count("coefficient_gradients"); auto p = pull(); Cols r, xs(x.begin(), x.begin() + n), want(a.begin(), a.begin() + n); bad.clear(); Mat Xn = fillMat(xs, e->in, lo); heap::poison() = 0xFF;
                try {
                    if (how == 0) { Mat O(e->nc, n, lo, std::nan("")); p->LogDensityCoeffGradImpl(Xn.view(), O.view()); r = colsOf(O.view()); if (!O.paddingKept()) bad = "wrote outside"; }
                    else if (how == 1) r = colsOf(p->LogDensityCoeffGrad(CM(Xn.view())));
                    else { Eigen::RowMatrixXd bx(e->in + 1, n + 2); bx.setConstant(3e30); for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < e->in; ++i) bx(i, j) = xs[j][i]; Eigen::RowMatrixXd cont = bx.topLeftCorner(e->in, n), q = how == 2 ? p->LogDensityCoeffGrad(cont) : p->LogDensityCoeffGrad(bx.topLeftCorner(e->in, n)); for (int j = 0; j < q.cols(); ++j) { Vec t; for (int i = 0; i < q.rows(); ++i) t.push_back(q(i, j)); r.push_back(t); } }
                } catch (std::exception& ex) { bad = mc::cat("raised: ", ex.what()); }
                heap::poison() = -1;
                if (bad.size() || !same(r, want, 1e-9)) { mc::viol("density-coefficient-gradient", mc::cat(nm, ", interface ", how, " layout ", lo, ", ", n, " points: ", bad.size() ? bad : diff)); how = 9; break; }
            }
        }
        if (e->in != e->out) continue;
        // pushing forward: the density of T(x), for x on the grid; the inverse is found to a tolerance
        Mat Y = fillMat(y, e->out, 0), Z(0, 5, 0, 0); if (!invertible(e)) continue;
        auto push = [&]() -> Dens { return std::make_shared<mpart::PushforwardDensity<HS>>(make(), g.make()); };
        { Kokkos::View<double**, HS> none("n", 0, 5); Cols xi = colsOf(f->Inverse(CM(Kokkos::View<const double**, HS>(none)), CM(Y.view()))); Mat Xi = fillMat(xi, e->in, 0); StridedVector<double, HS> l = f->LogDeterminant(CM(Xi.view())); Cols w; bool ok = true; for (unsigned j = 0; j < 5; ++j) { w.push_back({g.logp(xi[j]) - l(j)}); ok &= std::isfinite(w[j][0]); }
          if (ok) {
            everyWay(nm + " pushforward", push, e->in, y, w, nullptr, 1e-5);
            // there and back: the density we started from
            auto both = [&]() -> Dens { return std::make_shared<mpart::PullbackDensity<HS>>(make(), push()); }; Cols o; bool good = true; for (unsigned j = 0; j < 5; ++j) { o.push_back({g.logp(x[j])}); for (unsigned i = 0; i < e->in; ++i) good &= std::fabs(xi[j][i] - x[j][i]) < 1e-5; }
            if (good) { Dens b = both(); Cols r = ask(b, x, e->in, false, 1, 0, 0, 0); mc::count("round_trips"); if (!same(r, o, 2e-3)) mc::viol("round-trip", mc::cat(nm, ": pushing forward, then pulling back: ", diff)); } else mc::count("round_trips_skipped"); } }
        // samplers: the reference draws of the seed through the map, or its inverse
        for (int dir = 0; dir < 2; ++dir) for (unsigned n : {1u, 4u, 0u}) for (int lay = -1; lay < 5; ++lay) {
            mc::count("transported_samples"); auto base = g.make(), probe = g.make(); probe->SetSeed(21); Cols z = draw(probe, n); Mat Zm = fillMat(z, e->out, 0); Kokkos::View<double**, HS> none("n", 0, n); Cols want, r; bad.clear();
            Samp s; if (dir) s = std::make_shared<mpart::PullbackSampler<HS>>(make(), base); else s = std::make_shared<mpart::PushforwardSampler<HS>>(make(), base);
            try { want = dir ? colsOf(make()->Inverse(CM(Kokkos::View<const double**, HS>(none)), CM(Zm.view()))) : colsOf(make()->Evaluate(CM(Zm.view()))); s->SetSeed(21); if (s->Dim() != e->in) bad = "dimension"; r = lay < 0 ? draw(s, n) : drawInto(s, e->in, n, lay); } catch (std::exception& ex) { bad = mc::cat("raised: ", ex.what()); }
            bool fin = true; for (auto& p : want) for (double t : p) fin &= std::isfinite(t) && std::fabs(t) < 1e6; if (!fin) continue;
            if (bad.size() || !same(r, want, dir ? 1e-5 : 1e-10)) { mc::viol("transported-samples", mc::cat(nm, dir ? " pulled back" : " pushed forward", ", ", n, " samples, layout ", lay, ": ", bad.size() ? bad : diff)); n = 0; break; }
        }
        // the factories
        if (k == 0) { auto gg = g.make(); Dist rf = std::make_shared<mpart::Distribution<HS>>(gg, gg); auto a = mpart::CreatePullback<HS>(make(), rf); auto b = mpart::CreatePushforward<HS>(make(), rf); mc::count("factories");
            Cols ra, rb; { auto q = a->LogDensity(xv); for (unsigned j = 0; j < 5; ++j) ra.push_back({q(j)}); } if (!same(ra, v, 1e-9)) mc::viol("factory", nm + " CreatePullback: " + diff);
            a->SetSeed(4); auto s1 = std::make_shared<mpart::PullbackSampler<HS>>(make(), g.make()); s1->SetSeed(4); if (!same(colsOf(CM(a->Sample(2))), draw(s1, 2), 1e-5)) mc::viol("factory", nm + " CreatePullback samples: " + diff);
            b->SetSeed(4); auto s2 = std::make_shared<mpart::PushforwardSampler<HS>>(make(), g.make()); s2->SetSeed(4); if (!same(colsOf(CM(b->Sample(2))), draw(s2, 2), 1e-10)) mc::viol("factory", nm + " CreatePushforward samples: " + diff);
            Cols p1 = ask(b->GetDensity(), y, e->in, false, 1, 0, 0, 0), p2 = ask(push(), y, e->in, false, 1, 0, 0, 0); if (!same(p1, p2, 1e-9)) mc::viol("factory", nm + " CreatePushforward: " + diff); }
    }
    if (e->in == e->out && invertible(e) && (idx % 8 == 0 || T)) {
        histories("pullback sampler of " + e->name, [&]() -> Samp { return std::make_shared<mpart::PullbackSampler<HS>>(make(), Gauss(e->out, 2, 2).make()); }, e->in, 2);
        histories("pushforward sampler of " + e->name, [&]() -> Samp { return std::make_shared<mpart::PushforwardSampler<HS>>(make(), Gauss(e->out, 0, 0).make()); }, e->in, 2);
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews(); bool T = mc::ctx().thorough; unsigned D = T ? 5 : 4;
    for (unsigned d = 1; d <= D; ++d) for (int mk = 0; mk < 3; ++mk) for (int ck = 0; ck < 4; ++ck) {
        Gauss g(d, mk, ck); if (mc::take(g.name())) { mc::distinct(mc::hashStr(g.name())); gaussian(g, T); }
        if (mc::take(g.name() + "/histories")) { mc::distinct(mc::hashStr(g.name() + "h")); histories(g.name(), [&]() -> Samp { return g.make(); }, d, T ? 4 : 3); }
    }
    unsigned idx = 0; std::map<int, unsigned> seen;
    enumerate([&](E e) {
        if (e->kind == EXPAN || e->kind == AFFFUN) return; unsigned q = seen[(int)e->kind]++; ++idx;
        unsigned step = e->kind == COMP ? 7 : e->kind == COMPOSED ? 7 : e->kind == TRI ? 9 : 1;
        if (!T && q % step) return;
        if (!mc::take(e->name)) return;
        mc::distinct(mc::hashStr(e->name)); transport(e, T, idx);
    }, T);
    Kokkos::finalize(); return mc::finish();
}
