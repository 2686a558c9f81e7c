// C06, C07, C09-C12: every map expression within bounds, on the real library, against the reference interpreter.
#include "exact_alloc.h"
#include "family.h"
#include <Kokkos_Core.hpp>
using namespace ref; using mpart::StridedMatrix;
typedef StridedMatrix<const double, HS> CM;
static std::string mode;
// ---- evaluation of one expression ----------------------------------------------------------------
static bool near(double got, double want, double scale, double tol) { if (got == want) return true; if (!std::isfinite(got) || !std::isfinite(want)) return false; return std::fabs(got - want) <= tol * (1 + scale + std::fabs(want)); }
struct RefOut { std::vector<Vec> y; Vec ld; std::vector<std::vector<Vec>> J; std::vector<Vec> dld; Vec amp; std::vector<char> tail; bool ok = true; };   // J[p][out][in+nc]
static RefOut reference(E e, Vec const& c, std::vector<Vec> const& P, bool derivs, bool isMap) {
    RefOut R; unsigned n = e->in, m = e->nc;
    for (auto& x : P) {
        Vec y(e->out); amplification() = 1; softTail() = false;
        if (!derivs) { NG() = 0; e->eval<double>(x.data(), c.data(), y.data()); R.y.push_back(y); R.ld.push_back(isMap ? e->logdet<double>(x.data(), c.data()) : 0); }
        else {
            NG() = n + m; std::vector<D> X(n), C(m), Y(e->out);
            for (unsigned i = 0; i < n; ++i) { X[i] = D(x[i]); X[i].g[i] = 1; }
            for (unsigned i = 0; i < m; ++i) { C[i] = D(c[i]); C[i].g[n + i] = 1; }
            e->eval<D>(X.data(), C.data(), Y.data());
            std::vector<Vec> J; for (unsigned i = 0; i < e->out; ++i) { y[i] = Y[i].v; J.push_back(Vec(Y[i].g, Y[i].g + n + m)); }
            R.J.push_back(J); R.y.push_back(y);
            if (isMap) { D l = e->logdet<D>(X.data(), C.data()); R.ld.push_back(l.v); R.dld.push_back(Vec(l.g, l.g + n + m)); } else { R.ld.push_back(0); R.dld.push_back(Vec(n + m, 0)); }
            NG() = 0;
        }
        for (double v : y) if (!(std::fabs(v) < 1e5)) R.ok = false;
        if (!(std::fabs(R.ld.back()) < 50)) R.ok = false;
        R.amp.push_back(amplification()); R.tail.push_back(softTail());
    }
    return R;
}
static bool hasComposed(E e) { if (e->kind == COMPOSED) return true; for (auto& k : e->ch) if (hasComposed(k)) return true; return false; }
// integration accurate enough that the map is what its defining integral says
static bool exactRule(Opts const& o) { return o.quadType != mpart::QuadTypes::ClenshawCurtis ? o.quadMaxSub > 10 : o.quadPts >= 40; }
static bool exactMap(E e) { if (e->kind == COMP && (!exactRule(e->o) || (e->o.quadType == mpart::QuadTypes::ClenshawCurtis && e->o.lin()))) return false; for (auto& k : e->ch) if (!exactMap(k)) return false; return true; }
static std::string at(E e, int cv, Vec const& x) { return mc::cat(e->name, " coeffs#", cv, " x=", mc::str(x)); }

static void checkC09(E e, Vec const& c, int cv, std::vector<Vec> const& P, FunP f, RefOut const& R) {
    auto out = f->Evaluate(cmat(points(P, e->in)));
    if (out.extent(0) != e->out || out.extent(1) != P.size()) { mc::viol("shape", at(e, cv, P[0])); return; }
    for (size_t p = 0; p < P.size(); ++p) for (unsigned i = 0; i < e->out; ++i) { mc::count("values"); if (!near(out(i, p), R.y[p][i], 0, 1e-9)) { mc::viol("evaluate", mc::cat(at(e, cv, P[p]), " output ", i, ": ", out(i, p), " expected ", R.y[p][i])); return; } }
}
static void checkC10(E e, Vec const& c, int cv, std::vector<Vec> const& P, MapP f, RefOut const& R) {
    auto ld = f->LogDeterminant(cmat(points(P, e->in)));
    if (ld.extent(0) != P.size()) { mc::viol("shape", at(e, cv, P[0])); return; }
    for (size_t p = 0; p < P.size(); ++p) {
        mc::count("values");
        if (R.tail[p]) { mc::count("softplus_tail_points"); if (!(std::fabs(ld(p) - R.ld[p]) <= 1e-3 * (1 + std::fabs(R.ld[p])))) { mc::viol("logdet-softplus-tail", mc::cat(at(e, cv, P[p]), ": ", ld(p), " expected ", R.ld[p])); return; } continue; }
        if (!(R.amp[p] < 1e12)) { mc::count("ill_conditioned_points_skipped"); continue; }
        if (!near(ld(p), R.ld[p], 0, 1e-9 + 1e-13 * R.amp[p])) { mc::viol("logdet", mc::cat(at(e, cv, P[p]), ": ", ld(p), " expected ", R.ld[p])); return; }
        if (R.J.size()) {   // the Jacobian of the evaluation itself
            Eigen::MatrixXd J(e->out, e->out); for (unsigned i = 0; i < e->out; ++i) for (unsigned j = 0; j < e->out; ++j) J(i, j) = R.J[p][i][e->in - e->out + j];
            double l = std::log(std::fabs(J.determinant()));
            bool allDisc = true; std::function<void(E)> go = [&](E k) { if (k->kind == COMP) { bool exact = k->o.quadType != mpart::QuadTypes::ClenshawCurtis ? k->o.quadMaxSub > 10 : (k->o.quadPts >= 40 && !k->o.lin()); if (k->o.contDeriv && !exact) allDisc = false; } for (auto& q : k->ch) go(q); }; go(e);
            double rows = 1; for (unsigned i = 0; i < e->out; ++i) rows *= J.row(i).norm();
            if (allDisc) { mc::count("volume_changes"); if (!(std::fabs(std::exp(ld(p)) - std::fabs(J.determinant())) <= 3e-3 * std::fabs(J.determinant()) + 2e-4 * (1 + rows))) {
                fine() = true; RefOut Q = reference(e, c, {P[p]}, true, true); fine() = false;
                double q = 0; for (unsigned i = 0; i < e->out; ++i) for (unsigned j = 0; j < e->out; ++j) q = std::fmax(q, std::fabs(J(i, j) - Q.J[0][i][e->in - e->out + j]));
                if (std::fabs(std::exp(ld(p)) - std::fabs(J.determinant())) <= 2 * q * (1 + rows)) { mc::count("points_within_the_integration_error"); continue; }
                mc::viol("volume", mc::cat(at(e, cv, P[p]), ": reported ", ld(p), ", Jacobian of the outputs gives ", l)); return; } }
        }
    }
}
static void checkC11(E e, Vec const& c, int cv, std::vector<Vec> const& P, FunP f, RefOut const& R) {
    unsigned np = P.size(); auto X = points(P, e->in);
    for (unsigned s = 0; s <= e->out + 1; ++s) {   // each output alone, all mixed, all zero
        Kokkos::View<double**, HS> S("s", e->out, np);
        for (unsigned i = 0; i < e->out; ++i) for (unsigned p = 0; p < np; ++p) S(i, p) = s < e->out ? (i == s ? 1 + 0.5 * p : 0) : s == e->out ? 0.75 - 0.5 * i + 0.25 * p * (i + 1) : 0;
        auto g = f->Gradient(cmat(X), cmat(S)); auto h = f->CoeffGrad(cmat(X), cmat(S));
        if (g.extent(0) != e->in || g.extent(1) != np || h.extent(0) != e->nc || (e->nc && h.extent(1) != np)) { mc::viol("shape", at(e, cv, P[0])); return; }
        for (unsigned p = 0; p < np; ++p) for (unsigned k = 0; k < e->in + e->nc; ++k) {
            double want = 0, mag = 0; for (unsigned i = 0; i < e->out; ++i) { want += S(i, p) * R.J[p][i][k]; mag += std::fabs(S(i, p) * R.J[p][i][k]); }
            double got = k < e->in ? g(k, p) : h(k - e->in, p); mc::count("values");
            if (!near(got, want, mag, 1e-8)) { mc::viol(k < e->in ? "gradient" : "coeffgrad", mc::cat(at(e, cv, P[p]), " sens#", s, k < e->in ? " d/dx" : " d/dc", k < e->in ? k : k - e->in, ": ", got, " expected ", want)); return; }
        }
    }
}
static void checkC12(E e, Vec const& c, int cv, std::vector<Vec> const& P, MapP f, RefOut const& R) {
    unsigned np = P.size(); auto X = points(P, e->in);
    for (int which = 0; which < 2; ++which) {
        unsigned n = which ? e->in : e->nc, off = which ? 0 : e->in; const char* name = which ? "logdet-inputgrad" : "logdet-coeffgrad";
        StridedMatrix<double, HS> h;
        try { h = which ? f->LogDeterminantInputGrad(cmat(X)) : f->LogDeterminantCoeffGrad(cmat(X)); }
        catch (std::invalid_argument const& ex) {   // not available where the log-determinant is that of the discretised map
            if (!e->discrete() || (!which && !hasComposed(e))) mc::viol(name, mc::cat(at(e, cv, P[0]), " refused: ", ex.what())); else mc::count("refused_discrete_gradients");
            continue;
        }
        if (h.extent(0) != n || (n && h.extent(1) != np)) { mc::viol("shape", at(e, cv, P[0])); return; }
        for (unsigned p = 0; p < np; ++p) {
            double mag = 0; for (double v : R.dld[p]) mag = std::fmax(mag, std::fabs(v));
            if (R.tail[p] || !(R.amp[p] < 1e8)) { mc::count("ill_conditioned_points_skipped"); continue; }
            for (unsigned k = 0; k < n; ++k) { mc::count("values"); if (!near(h(k, p), R.dld[p][off + k], mag * R.amp[p] * 1e-5, 1e-7)) { mc::viol(name, mc::cat(at(e, cv, P[p]), " entry ", k, ": ", h(k, p), " expected ", R.dld[p][off + k])); return; } }
        }
    }
}
static void checkC07(E e, Vec const& c, int cv, std::vector<Vec> const& P, MapP f, RefOut const& R) {
    unsigned np = P.size(), ex = e->in - e->out; bool exact = e->kind != COMP || exactMap(e);
    // where the rule does not resolve the integrand the evaluated map need not be increasing: then several answers are right
    auto coarse = [&](unsigned p, Vec const& z) { for (int k = 0; k <= 4; ++k) { Vec v = P[p], a(e->out), b(e->out); for (unsigned i = 0; i < e->out; ++i) v[ex + i] += k * (z[i] - v[ex + i]) / 4; e->eval<double>(v.data(), c.data(), a.data()); fine() = true; e->eval<double>(v.data(), c.data(), b.data()); fine() = false; for (unsigned i = 0; i < e->out; ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-7 * (1 + std::fabs(b[i])))) return true; } return false; };
    auto steep = [&](Vec const& x, double want) { if (e->kind != COMP) return false; Vec t(1); int s = 0; for (int k = -8; k <= 8; ++k) { Vec v = x; v.back() += 4e-7 * k; e->eval<double>(v.data(), c.data(), t.data()); s |= t[0] <= want ? 1 : 2; } return s == 3; };
    for (unsigned nb : {np, 1u}) for (int how = 0; how < 3; ++how) {
        // how 0: only the conditioning rows; 1: full points with a poor guess; 2: full points with the solution as the guess
        std::vector<Vec> Q(P.begin(), P.begin() + nb); Kokkos::View<double**, HS> X("x", how == 0 ? ex : e->in, nb), Y("r", e->out, nb);
        for (unsigned p = 0; p < nb; ++p) { for (unsigned i = 0; i < (how == 0 ? ex : e->in); ++i) X(i, p) = i < ex ? P[p][i] : how == 1 ? 0.9 - 0.7 * i : P[p][i]; for (unsigned i = 0; i < e->out; ++i) Y(i, p) = R.y[p][i]; }
        // the previous call on the same object differs from variant to variant
        if (how == 1) { Kokkos::View<double**, HS> S("s", e->out, nb); Kokkos::deep_copy(S, 1.0); f->CoeffGrad(cmat(points(Q, e->in)), cmat(S)); }
        if (how == 2) f->LogDeterminant(cmat(points(Q, e->in)));
        StridedMatrix<double, HS> z = f->Inverse(cmat(X), cmat(Y));
        if (z.extent(0) != e->out || z.extent(1) != nb) { mc::viol("shape", at(e, cv, P[0])); return; }
        // one solve is accurate to 1e-6 in argument or value; errors pass through the Jacobian, its inverse and later layers
        std::vector<double> TX, TY;
        for (unsigned p = 0; p < nb; ++p) {
            Eigen::MatrixXd J(e->out, e->out); for (unsigned i = 0; i < e->out; ++i) for (unsigned j = 0; j < e->out; ++j) J(i, j) = R.J[p][i][ex + j];
            double nj = J.norm(), ni = J.inverse().norm();
            if (e->kind == COMP) ni = std::fmax(ni, 1 / (g0(e->o, expansion<double>(e->o, e->T, P[p].data(), c.data(), 1)) + e->o.nugget));   // the slope by its definition
            bool good = nj * ni < 1e3 && ni < 1e4; if (!good) mc::count("ill_conditioned_points_skipped");
            TX.push_back(good ? 2e-5 * (1 + ni) * (1 + nj) : -1); TY.push_back(2e-5 * (1 + nj) * (1 + nj) * (1 + ni));
            if (good) for (unsigned i = 0; i < e->out; ++i) if (!std::isfinite(z(i, p))) { mc::viol("inverse-not-a-number", mc::cat(at(e, cv, P[p]), " variant ", how, " entry ", i)); return; }
        }
        auto full = points(Q, e->in); for (unsigned p = 0; p < nb; ++p) for (unsigned i = 0; i < e->out; ++i) full(ex + i, p) = z(i, p);
        auto back = f->Evaluate(cmat(full));
        for (unsigned p = 0; p < nb; ++p) {
            if (TX[p] < 0) continue;
            double tx = TX[p], ty = TY[p];
            for (unsigned i = 0; i < e->out; ++i) {
                mc::count("values");
                if (exact && !(std::fabs(z(i, p) - P[p][ex + i]) <= tx)) { Vec zz; for (unsigned q = 0; q < e->out; ++q) zz.push_back(z(q, p)); if (coarse(p, zz)) { mc::count("unresolved_integrands"); continue; } mc::viol("inverse", mc::cat(at(e, cv, P[p]), " variant ", how, " entry ", i, ": ", z(i, p), " expected ", P[p][ex + i])); return; }
                if (!(std::fabs(back(i, p) - R.y[p][i]) <= ty)) { Vec v = P[p]; v.back() = z(e->out - 1, p); if (!exact && steep(v, R.y[p][0])) { mc::count("steep_answers"); continue; } mc::viol("inverse-value", mc::cat(at(e, cv, P[p]), " variant ", how, " entry ", i, ": ", back(i, p), " expected ", R.y[p][i])); return; }
            }
        }
    }
}
static void checkC06(E e, Vec const& c, int cv, MapP f) {
    const int n = 33; unsigned d = e->in;
    for (int w = 0; w < 3; ++w) {
        Vec base = point(d, w); std::vector<Vec> P;
        for (int i = 0; i < n; ++i) { Vec x = base; x[d - 1] = -2.4 + 4.8 * i / (n - 1) + 0.0137; P.push_back(x); }
        RefOut R = reference(e, c, P, false, true); if (!R.ok) { mc::count("overflowing_cases_skipped"); continue; }
        auto X = cmat(points(P, d)); auto y = f->Evaluate(X); auto ld = f->LogDeterminant(X);
        bool exact = exactRule(e->o);
        double qtol = e->o.quadType == mpart::QuadTypes::ClenshawCurtis ? (e->o.lin() ? 2e-2 : 1e-7) : 3e-5;
        for (int i = 0; i < n; ++i) {
            double s = std::exp(ld(i)); mc::count("values");
            // the reported slope is positive and at least the nugget (for the derivative of a coarse rule this is only approximate)
            double df = expansion<double>(e->o, e->T, P[i].data(), c.data(), 1);
            if (e->o.contDeriv && s == 0 && e->o.posFuncType == mpart::PosFuncTypes::SoftPlus && df < -30) { mc::viol("slope-softplus-tail", mc::cat(at(e, cv, P[i]), ": reported slope ", s, " where the slope is ", g0(e->o, df))); break; }
            if (!e->o.contDeriv && std::fabs(s - std::exp(R.ld[i])) <= 1e-12 * R.amp[i] * std::exp(R.ld[i])) { mc::count("slopes_of_the_discretised_map"); if (!(s > 0) || s < e->o.nugget * (1 - 1e-3)) { mc::count("coarse_slopes"); continue; } }
            if (e->o.contDeriv || exact) if (!(s > 0) || !(s >= e->o.nugget * (1 - (e->o.contDeriv ? 1e-12 : 1e-3)))) { mc::viol("slope", mc::cat(at(e, cv, P[i]), ": reported slope ", s, " nugget ", e->o.nugget)); return; }
        }
        if (!exact) continue;
        double h = P[1][d - 1] - P[0][d - 1];
        for (int i = 0; i + 1 < n; ++i) {
            // increments against the slope the definition gives, integrated over the step
            Vec z = P[i]; double integ = 0; const int m = 16;
            for (int k = 0; k <= m; ++k) { z[d - 1] = P[i][d - 1] + h * k / m; double s = g0(e->o, expansion<double>(e->o, e->T, z.data(), c.data(), 1)) + e->o.nugget; integ += s * (k == 0 || k == m ? 1 : k % 2 ? 4 : 2) * h / (3 * m); }
            double inc = y(0, i + 1) - y(0, i), tol = qtol * (1 + std::fabs(R.y[i][0]) + std::fabs(R.y[i + 1][0]));
            if (std::fabs(inc - integ) > tol + (e->o.lin() ? 2e-2 : 1e-5) * integ) {
                double q = 0; fine() = true; for (int k = 0; k < 2; ++k) { double t; e->eval<double>(P[i + k].data(), c.data(), &t); q += std::fabs(t - R.y[i + k][0]); } fine() = false;
                if (std::fabs(inc - integ) <= 1.5 * q + tol) { mc::count("steps_within_the_integration_error"); continue; } mc::viol("increment", mc::cat(at(e, cv, P[i]), " step ", h, ": increment ", inc, ", slope integrates to ", integ)); return; }
            if (inc <= 0 && integ > tol) { mc::viol("not-increasing", at(e, cv, P[i])); return; }
        }
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv); mode = mc::ctx().mode; bool T = mc::ctx().thorough;
    Kokkos::initialize(); exactViews();
    bool needJ = mode != "c09" && mode != "c06";
    enumerate([&](E e) {
        bool fn = e->kind == EXPAN || e->kind == AFFFUN;
        if (fn && mode != "c09" && mode != "c11") return;
        if (mode == "c06" && e->kind != COMP) return;
        if (!mc::take(e->name)) return;
        mc::sample(e->name); mc::distinct(mc::hashStr(e->name));
        if (e->in + e->nc > MAXG) { mc::viol("harness-limit", e->name); return; }
        MapP m; FunP f; if (fn) f = e->buildFun(); else f = m = e->build();
        if (f->inputDim != e->in || f->outputDim != e->out || f->numCoeffs != e->nc) { mc::viol("dimensions", mc::cat(e->name, ": ", f->inputDim, "->", f->outputDim, " with ", f->numCoeffs, " coefficients, expected ", e->in, "->", e->out, " with ", e->nc)); return; }
        std::vector<int> cvs = e->nc == 0 ? std::vector<int>{0} : (e->kind == COMP || fn) ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 3};
        for (int cv : cvs) {
            Vec c = coeffs(e->nc, cv); if (e->nc) Expr::setC(*f, c);
            if (mode == "c06") { checkC06(e, c, cv, m); continue; }
            std::vector<Vec> P; for (int k = 0; k < (e->kind == COMP ? 5 : 3); ++k) P.push_back(point(e->in, k + cv));
            RefOut R = reference(e, c, P, needJ, !fn);
            if (!R.ok) { mc::count("overflowing_cases_skipped"); continue; }
            if (mode == "c09") checkC09(e, c, cv, P, f, R);
            if (mode == "c10") checkC10(e, c, cv, P, m, R);
            if (mode == "c11") checkC11(e, c, cv, P, f, R);
            if (mode == "c12") checkC12(e, c, cv, P, m, R);
            if (mode == "c07") checkC07(e, c, cv, P, m, R);
        }
    }, T);
    return mc::finish();
}
