// A reference interpreter of map expressions, written from the definitions: components, expansions, triangular, composed,
// summarised, affine and identity pieces. Evaluated on plain numbers or on dual numbers (exact derivatives), next to a
// builder that assembles the same expression from the library.
#pragma once
#include "mc.h"
#include "MParT/ConditionalMapBase.h"
#include "MParT/MapFactory.h"
#include "MParT/MapOptions.h"
#include "MParT/TriangularMap.h"
#include "MParT/ComposedMap.h"
#include "MParT/SummarizedMap.h"
#include "MParT/AffineMap.h"
#include "MParT/AffineFunction.h"
#include "MParT/IdentityMap.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include <Eigen/Core>
#include <Eigen/LU>
#include <memory>

namespace ref {
typedef Kokkos::HostSpace HS;
typedef std::shared_ptr<mpart::ConditionalMapBase<HS>> MapP;
typedef std::shared_ptr<mpart::ParameterizedFunctionBase<HS>> FunP;
typedef std::vector<double> Vec;

// ---- dual numbers with respect to NG variables ----------------------------------------------
enum { MAXG = 96 };
inline int& NG() { static int n = 0; return n; }
struct D {
    double v; double g[MAXG];
    D(double x = 0) : v(x) { for (int i = 0; i < NG(); ++i) g[i] = 0; }
    D(D const& o) : v(o.v) { for (int i = 0; i < NG(); ++i) g[i] = o.g[i]; }
    D& operator=(D const& o) { v = o.v; for (int i = 0; i < NG(); ++i) g[i] = o.g[i]; return *this; }
    D& operator+=(D const& o) { v += o.v; for (int i = 0; i < NG(); ++i) g[i] += o.g[i]; return *this; }
    D& operator*=(D const& o) { for (int i = 0; i < NG(); ++i) g[i] = g[i] * o.v + v * o.g[i]; v *= o.v; return *this; }
};
inline D operator+(D a, D const& b) { a += b; return a; }
inline D operator*(D a, D const& b) { a *= b; return a; }
inline D operator-(D a, D const& b) { a.v -= b.v; for (int i = 0; i < NG(); ++i) a.g[i] -= b.g[i]; return a; }
inline D chain(D a, double v, double d) { a.v = v; for (int i = 0; i < NG(); ++i) a.g[i] *= d; return a; }
inline D exp(D const& a) { double e = std::exp(a.v); return chain(a, e, e); }
inline D log(D const& a) { return chain(a, std::log(a.v), 1 / a.v); }
inline double val(double x) { return x; }
inline double val(D const& x) { return x.v; }
inline double exp(double x) { return std::exp(x); }
inline double log(double x) { return std::log(x); }

// ---- one-dimensional pieces -------------------------------------------------------------------
struct Opts : mpart::MapOptions {
    bool lin() const { return std::isfinite(basisLB) || std::isfinite(basisUB); }
    std::string key() const {
        static const char* b[] = {"Prob", "Phys", "HF"}; static const char* p[] = {"Exp", "Soft"}; static const char* q[] = {"CC", "AS", "ACC"};
        std::string s = mc::cat(b[(int)basisType], basisNorm ? "N" : "", lin() ? mc::cat("[", basisLB, ",", basisUB, "]") : std::string(), "/", p[(int)posFuncType], "/", q[(int)quadType], quadPts);
        if (quadType != mpart::QuadTypes::ClenshawCurtis) s += mc::cat(":", quadAbsTol, ":", quadRelTol, ":", quadMaxSub, ":", quadMinSub);
        return s + (contDeriv ? "/cont" : "/disc") + (nugget ? mc::cat("/nug", nugget) : std::string());
    }
};
// a polynomial family member differentiated m times, on any scalar
template <class S> S hermite(bool phys, int n, S x) {
    S a(1.0); if (n == 0) return a;
    S b = phys ? S(2.0) * x : x;
    for (int k = 1; k < n; ++k) { S c = phys ? S(2.0) * x * b - S(2.0 * k) * a : x * b - S((double)k) * a; a = b; b = c; }
    return b;
}
template <class S> S phiPlain(Opts const& o, int n, S x, int der) {
    if (o.basisType == mpart::BasisTypes::HermiteFunctions) {
        if (n == 0) return S(der == 0 ? 1.0 : 0.0);
        if (n == 1) return der == 0 ? x : S(der == 1 ? 1.0 : 0.0);
        int k = n - 2;
        auto psi = [&](int m) -> S { if (m < 0) return S(0.0); double c = 1 / std::sqrt(std::sqrt(M_PI)); for (int i = 1; i <= m; ++i) c /= std::sqrt(2.0 * i); return S(c) * hermite<S>(true, m, x) * exp(S(-0.5) * x * x); };
        if (der == 0) return psi(k);
        if (der == 1) return S(std::sqrt(k / 2.0)) * psi(k - 1) - S(std::sqrt((k + 1) / 2.0)) * psi(k + 1);
        return (x * x - S(2.0 * k + 1)) * psi(k);
    }
    bool phys = o.basisType == mpart::BasisTypes::PhysicistHermite;
    if (der > n) return S(0.0);
    double c = 1; for (int i = 0; i < der; ++i) c *= (n - i) * (phys ? 2.0 : 1.0);
    if (o.basisNorm) { double h = phys ? std::sqrt(M_PI) : std::sqrt(2 * M_PI); for (int i = 1; i <= n; ++i) h *= phys ? 2.0 * i : i; c /= std::sqrt(h); }
    return S(c) * hermite<S>(phys, n - der, x);
}
template <class S> S phi(Opts const& o, int n, S x, int der) {
    if (o.lin() && (val(x) < o.basisLB || val(x) > o.basisUB)) {
        S b(val(x) < o.basisLB ? o.basisLB : o.basisUB);
        if (der == 0) return phiPlain<S>(o, n, b, 0) + phiPlain<S>(o, n, b, 1) * (x - b);
        return der == 1 ? phiPlain<S>(o, n, b, 1) : S(0.0);
    }
    return phiPlain<S>(o, n, x, der);
}
inline double sigm(double x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
inline double softp(double x) { return x > 0 ? x + std::log1p(std::exp(-x)) : std::log1p(std::exp(x)); }
inline double g0(Opts const& o, double x) { return o.posFuncType == mpart::PosFuncTypes::Exp ? std::exp(x) : softp(x); }
inline double g1(Opts const& o, double x) { return o.posFuncType == mpart::PosFuncTypes::Exp ? std::exp(x) : sigm(x); }
inline double g2(Opts const& o, double x) { return o.posFuncType == mpart::PosFuncTypes::Exp ? std::exp(x) : sigm(x) * sigm(-x); }
inline double gS(Opts const& o, double x) { return g0(o, x); }
inline D gS(Opts const& o, D const& x) { return chain(x, g0(o, x.v), g1(o, x.v)); }
inline double gdS(Opts const& o, double x) { return g1(o, x); }
inline D gdS(Opts const& o, D const& x) { return chain(x, g1(o, x.v), g2(o, x.v)); }

// how much rounding the log of the last computed slopes amplifies, and whether a SoftPlus argument is in its underflowing tail
inline double& amplification() { static double a = 1; return a; }
inline bool& softTail() { static bool a = false; return a; }
inline void noteSlope(Opts const& o, double arg, double absSum, double slope) {
    amplification() = std::fmax(amplification(), absSum / std::fabs(slope));
    if (o.posFuncType == mpart::PosFuncTypes::SoftPlus) { if (arg < -16 && o.nugget == 0) amplification() = std::fmax(amplification(), std::exp(-16 - arg) * 1e2); if (arg < -30) softTail() = true; }
}
typedef std::vector<std::vector<unsigned>> Terms;
// f, or its der-th derivative in the last input
template <class S> S expansion(Opts const& o, Terms const& T, S const* x, S const* c, int der) {
    S sum(0.0);
    for (size_t i = 0; i < T.size(); ++i) {
        S p = c[i]; unsigned d = T[i].size();
        for (unsigned j = 0; j < d; ++j) {
            int k = (j + 1 == d) ? der : 0;
            if (T[i][j] == 0) { if (k > 0) p = S(0.0); continue; }   // the order-0 factor is the constant 1
            p *= phi<S>(o, T[i][j], x[j], k);
        }
        sum += p;
    }
    return sum;
}

// ---- quadrature of a vector-valued integrand over [0,1]; adaptive rules are driven by its first component ------------
inline void ccRule(unsigned n, Vec& p, Vec& w) {
    p.assign(n, 0); w.assign(n, 0);
    if (n == 1) { w[0] = 2; return; }
    // weights by integrating the interpolant: sum of Chebyshev moments
    unsigned N = n - 1;
    for (unsigned i = 0; i < n; ++i) {
        p[i] = -std::cos(M_PI * i / N);
        double s = 0;
        for (unsigned k = 0; k <= N; k += 2) {
            double a = (k == 0 || k == N) ? 0.5 : 1.0, b = (i == 0 || i == N) ? 0.5 : 1.0;
            double m = 2.0 / (1.0 - (double)k * k);
            double th = M_PI * (N - i) / N;   // p[i] = cos(th)
            s += a * b * m * std::cos(k * th);
        }
        w[i] = 2.0 / N * s;
    }
}
template <class S, class F> void quadRec(Opts const& o, F const& f, double l, double r, unsigned lvl, unsigned fd, S* res) {
    double m = 0.5 * (l + r);
    std::vector<S> c(fd, S(0.0)), fi(fd, S(0.0)), v(fd, S(0.0));
    auto add = [&](std::vector<S>& a, double w, double t) { f(t, v.data()); for (unsigned i = 0; i < fd; ++i) a[i] += S(w) * v[i]; };
    if (o.quadType == mpart::QuadTypes::AdaptiveSimpson) {
        double h = r - l;
        add(c, h / 6, l); add(c, 4 * h / 6, m); add(c, h / 6, r);
        add(fi, h / 12, l); add(fi, 4 * h / 12, 0.5 * (l + m)); add(fi, 2 * h / 12, m); add(fi, 4 * h / 12, 0.5 * (m + r)); add(fi, h / 12, r);
    } else {
        unsigned level = (unsigned)std::log2((double)o.quadPts - 2);
        Vec p, w; double h = 0.5 * (r - l);
        ccRule((1u << level) + 1, p, w); for (size_t i = 0; i < p.size(); ++i) add(c, h * w[i], m + h * p[i]);
        ccRule((2u << level) + 1, p, w); for (size_t i = 0; i < p.size(); ++i) add(fi, h * w[i], m + h * p[i]);
    }
    double e = std::fabs(val(fi[0]) - val(c[0])), tol = std::fmax(o.quadRelTol * std::fabs(val(c[0])), o.quadAbsTol);
    if ((e < tol && lvl >= o.quadMinSub) || lvl + 1 >= o.quadMaxSub) { for (unsigned i = 0; i < fd; ++i) res[i] += fi[i]; return; }
    quadRec(o, f, l, m, lvl + 1, fd, res); quadRec(o, f, m, r, lvl + 1, fd, res);
}
// fine(): integrate (nearly) exactly instead of by the chosen rule, to measure what the rule's own error is
inline bool& fine() { static bool b = false; return b; }
template <class S, class F> void quad(Opts const& o, F const& f, unsigned fd, S* res) {
    for (unsigned i = 0; i < fd; ++i) res[i] = S(0.0);
    if (fine()) {
        static const double gp[] = {0, 0.5384693101056831, 0.9061798459386640}, gw[] = {0.5688888888888889, 0.4786286704993665, 0.2369268850561891};
        const int N = 600; std::vector<S> v(fd, S(0.0));
        for (int k = 0; k < N; ++k) for (int j = -2; j <= 2; ++j) { f((k + 0.5 + 0.5 * (j < 0 ? -gp[-j] : gp[j])) / N, v.data()); for (unsigned q = 0; q < fd; ++q) res[q] += S(0.5 * gw[j < 0 ? -j : j] / N) * v[q]; }
        return;
    }
    if (o.quadType == mpart::QuadTypes::ClenshawCurtis) {
        Vec p, w; ccRule(o.quadPts, p, w); std::vector<S> v(fd, S(0.0));
        for (size_t i = 0; i < p.size(); ++i) { f(0.5 + 0.5 * p[i], v.data()); for (unsigned k = 0; k < fd; ++k) res[k] += S(0.5 * w[i]) * v[k]; }
    } else quadRec<S>(o, f, 0.0, 1.0, 0, fd, res);
}

// ---- expressions ------------------------------------------------------------------------------
enum Kind { COMP, TRI, COMPOSED, AFFINE, IDENT, SUMM, EXPAN, AFFFUN };
struct Expr; typedef std::shared_ptr<Expr> E;
struct Expr {
    Kind kind; unsigned in = 0, out = 0, nc = 0; std::string name;
    Opts o; Terms T; std::vector<E> ch; Eigen::MatrixXd A; Eigen::VectorXd b; bool hasA = false, hasB = false; int maxChecks = -1;
    Vec own;            // fixed coefficients of a summary function
    bool viaMset = false;

    template <class S> void eval(S const* x, S const* c, S* y) const {
        switch (kind) {
        case COMP: {
            S xd = x[in - 1], r[1]; std::vector<S> z(x, x + in);
            z[in - 1] = S(0.0); S f0 = expansion<S>(o, T, z.data(), c, 0);
            quad<S>(o, [&](double t, S* v) { z[in - 1] = S(t) * xd; v[0] = xd * (gS(o, expansion<S>(o, T, z.data(), c, 1)) + S(o.nugget)); }, 1, r);
            y[0] = f0 + r[0]; return; }
        case EXPAN: { unsigned n = T.size(); for (unsigned i = 0; i < out; ++i) y[i] = expansion<S>(o, T, x, c + i * n, 0); return; }
        case TRI: { unsigned oo = 0, cc = 0; for (auto& k : ch) { k->eval<S>(x, c + cc, y + oo); oo += k->out; cc += k->nc; } return; }
        case COMPOSED: { std::vector<S> a(x, x + in), t(in, S(0.0)); unsigned cc = 0; for (auto& k : ch) { k->eval<S>(a.data(), c + cc, t.data()); a = t; cc += k->nc; } for (unsigned i = 0; i < out; ++i) y[i] = a[i]; return; }
        case AFFINE: case AFFFUN: for (unsigned i = 0; i < out; ++i) { S s(hasB ? b(i) : 0.0); if (hasA) { for (unsigned j = 0; j < in; ++j) s += S(A(i, j)) * x[j]; } else s += x[i]; y[i] = s; } return;
        case IDENT: for (unsigned i = 0; i < out; ++i) y[i] = x[in - out + i]; return;
        case SUMM: { E s = ch[0], k = ch[1]; std::vector<S> z(k->in, S(0.0)), oc(s->nc, S(0.0)); for (unsigned i = 0; i < s->nc; ++i) oc[i] = S(s->own[i]); s->eval<S>(x, oc.data(), z.data()); z[k->in - 1] = x[in - 1]; k->eval<S>(z.data(), c, y); return; }
        }
    }
    template <class S> S logdet(S const* x, S const* c) const {
        switch (kind) {
        case COMP: {
            if (o.contDeriv) { S df = expansion<S>(o, T, x, c, 1), s = gS(o, df) + S(o.nugget); noteSlope(o, val(df), std::fmax(1.0, std::fabs(val(s))), val(s)); return log(s); }
            S xd = x[in - 1], r[2]; std::vector<S> z(x, x + in); double mag = 0, arg = 0;
            quad<S>(o, [&](double t, S* v) { z[in - 1] = S(t) * xd; S df = expansion<S>(o, T, z.data(), c, 1), g = gS(o, df) + S(o.nugget); v[0] = xd * g; v[1] = xd * S(t) * gdS(o, df) * expansion<S>(o, T, z.data(), c, 2) + g; mag = std::fmax(mag, std::fabs(val(v[1]) - val(g)) + std::fabs(val(g))); arg = std::fmin(arg, val(df)); }, 2, r);
            noteSlope(o, 0, std::fmax(1.0, mag), val(r[1])); if (arg < -30) softTail() = softTail() || o.posFuncType == mpart::PosFuncTypes::SoftPlus;
            return log(r[1]); }
        case TRI: { S s(0.0); unsigned cc = 0; for (auto& k : ch) { s += k->logdet<S>(x, c + cc); cc += k->nc; } return s; }
        case COMPOSED: { S s(0.0); std::vector<S> a(x, x + in), t(in, S(0.0)); unsigned cc = 0; for (auto& k : ch) { s += k->logdet<S>(a.data(), c + cc); k->eval<S>(a.data(), c + cc, t.data()); a = t; cc += k->nc; } return s; }
        case AFFINE: return S(hasA ? std::log(std::fabs(A.rightCols(out).determinant())) : 0.0);
        case SUMM: { E s = ch[0], k = ch[1]; std::vector<S> z(k->in, S(0.0)), oc(s->nc, S(0.0)); for (unsigned i = 0; i < s->nc; ++i) oc[i] = S(s->own[i]); s->eval<S>(x, oc.data(), z.data()); z[k->in - 1] = x[in - 1]; return k->logdet<S>(z.data(), c); }
        default: return S(0.0);
        }
    }
    bool discrete() const { if (kind == COMP && !o.contDeriv) return true; for (auto& k : ch) if (k->discrete()) return true; return false; }
    // the conditional inputs and outputs of the pieces; the library's counterpart
    mpart::FixedMultiIndexSet<HS> mset() const {
        unsigned d = T[0].size(), nz = 0; for (auto& t : T) for (unsigned k : t) nz += k != 0;
        Kokkos::View<unsigned*, HS> st("s", T.size() + 1), dims("d", nz), ords("o", nz); unsigned p = 0;
        for (size_t i = 0; i < T.size(); ++i) { st(i) = p; for (unsigned j = 0; j < d; ++j) if (T[i][j]) { dims(p) = j; ords(p++) = T[i][j]; } }
        st(T.size()) = p;
        return mpart::FixedMultiIndexSet<HS>(d, st, dims, ords);
    }
    MapP build() const {
        typedef mpart::StridedMatrix<double, HS> SM; typedef mpart::StridedVector<double, HS> SV;
        switch (kind) {
        case COMP: return mpart::MapFactory::CreateComponent<HS>(mset(), o);
        case TRI: { std::vector<MapP> v; for (auto& k : ch) v.push_back(k->build()); return std::make_shared<mpart::TriangularMap<HS>>(v); }
        case COMPOSED: { std::vector<MapP> v; for (auto& k : ch) v.push_back(k->build()); return std::make_shared<mpart::ComposedMap<HS>>(v, false, maxChecks); }
        case AFFINE: {
            Kokkos::View<double**, Kokkos::LayoutLeft, HS> a("A", A.rows(), A.cols()); Kokkos::View<double*, HS> bb("b", b.size());
            for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) a(i, j) = A(i, j);
            for (int i = 0; i < b.size(); ++i) bb(i) = b(i);
            if (hasA && hasB) return std::make_shared<mpart::AffineMap<HS>>(SM(a), SV(bb));
            if (hasA) return std::make_shared<mpart::AffineMap<HS>>(SM(a));
            return std::make_shared<mpart::AffineMap<HS>>(SV(bb)); }
        case IDENT: return std::make_shared<mpart::IdentityMap<HS>>(in, out);
        case SUMM: return std::make_shared<mpart::SummarizedMap<HS>>(ch[0]->buildFun(), ch[1]->build());
        default: return nullptr;
        }
    }
    FunP buildFun() const {
        typedef mpart::StridedMatrix<double, HS> SM; typedef mpart::StridedVector<double, HS> SV;
        if (kind == EXPAN) { FunP f = mpart::MapFactory::CreateExpansion<HS>(out, mset(), o); if (own.size()) setC(*f, own); return f; }
        if (kind == AFFFUN) {
            Kokkos::View<double**, HS> a("A", A.rows(), A.cols()); Kokkos::View<double*, HS> bb("b", b.size());
            for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) a(i, j) = A(i, j);
            for (int i = 0; i < b.size(); ++i) bb(i) = b(i);
            if (hasA && hasB) return std::make_shared<mpart::AffineFunction<HS>>(SM(a), SV(bb));
            if (hasA) return std::make_shared<mpart::AffineFunction<HS>>(SM(a));
            return std::make_shared<mpart::AffineFunction<HS>>(SV(bb));
        }
        MapP f = build(); if (own.size()) setC(*f, own); return f;
    }
    static void setC(mpart::ParameterizedFunctionBase<HS>& f, Vec const& c) {
        Kokkos::View<double*, HS> v("c", c.size()); for (size_t i = 0; i < c.size(); ++i) v(i) = c[i];
        f.SetCoeffs(Kokkos::View<const double*, HS>(v));
    }
};
inline E mkComp(Opts o, Terms T) { auto e = std::make_shared<Expr>(); e->kind = COMP; e->o = o; e->T = T; e->in = T[0].size(); e->out = 1; e->nc = T.size(); std::string s; for (auto& t : T) { for (unsigned k : t) s += char('0' + k); s += '.'; } e->name = mc::cat("comp{", s, " ", o.key(), "}"); return e; }
inline E mkExpan(Opts o, Terms T, unsigned out) { E e = mkComp(o, T); e->kind = EXPAN; e->out = out; e->nc = out * T.size(); e->name = mc::cat("expansion", out, e->name.substr(4)); return e; }
inline E mkMany(Kind k, std::vector<E> ch) { auto e = std::make_shared<Expr>(); e->kind = k; e->ch = ch; for (auto& c : ch) { e->nc += c->nc; e->name += (e->name.empty() ? "" : ", ") + c->name; } return e; }
inline E mkTri(std::vector<E> ch) { E e = mkMany(TRI, ch); e->in = ch.back()->in; for (auto& c : ch) e->out += c->out; e->name = "tri(" + e->name + ")"; return e; }
inline E mkComposed(std::vector<E> ch, int checks) { E e = mkMany(COMPOSED, ch); e->in = e->out = ch[0]->in; e->maxChecks = checks; e->name = mc::cat("composed", checks, "(", e->name, ")"); return e; }
inline E mkIdent(unsigned in, unsigned out) { auto e = std::make_shared<Expr>(); e->kind = IDENT; e->in = in; e->out = out; e->name = mc::cat("id", in, "->", out); return e; }
// a well conditioned matrix; variant selects sign pattern and whether rows need pivoting
inline E mkAffine(unsigned in, unsigned out, bool hasA, bool hasB, int variant = 0, Kind k = AFFINE) {
    auto e = std::make_shared<Expr>(); e->kind = k; e->in = in; e->out = out; e->hasA = hasA; e->hasB = hasB;
    if (hasA) { e->A.resize(out, in); for (unsigned i = 0; i < out; ++i) for (unsigned j = 0; j < in; ++j) { unsigned t = variant == 1 ? out - 1 - i : i; e->A(i, j) = (j + out == in + t) ? (variant == 2 ? -0.75 : 1.5) + 0.25 * i : 0.125 * (1 + i) - 0.25 * j + 0.0625 * variant; } }
    if (hasB) { e->b.resize(out); for (unsigned i = 0; i < out; ++i) e->b(i) = 0.5 - 0.75 * i; }
    e->name = mc::cat(k == AFFINE ? "affine" : "affinefn", in, "->", out, hasA ? "A" : "", hasA ? mc::cat(variant) : std::string(), hasB ? "b" : ""); return e;
}
inline E mkSumm(E s, E comp) { E e = mkMany(SUMM, {s, comp}); e->in = s->in + 1; e->out = 1; e->nc = comp->nc; e->name = "summ(" + e->name + ")"; return e; }

// all terms of total order <= p in d dimensions
inline Terms totalOrder(unsigned d, unsigned p) { Terms r; std::vector<unsigned> t(d, 0); std::function<void(unsigned, unsigned)> go = [&](unsigned i, unsigned left) { if (i == d) { r.push_back(t); return; } for (unsigned k = 0; k <= left; ++k) { t[i] = k; go(i + 1, left - k); } t[i] = 0; }; go(0, p); return r; }
inline Terms box(std::vector<unsigned> m) { Terms r; std::vector<unsigned> t(m.size(), 0); std::function<void(unsigned)> go = [&](unsigned i) { if (i == m.size()) { r.push_back(t); return; } for (unsigned k = 0; k <= m[i]; ++k) { t[i] = k; go(i + 1); } t[i] = 0; }; go(0); return r; }
inline std::vector<Terms> subsets(Terms const& b) { std::vector<Terms> r; for (unsigned m = 1; m < (1u << b.size()); ++m) { Terms t; for (size_t i = 0; i < b.size(); ++i) if (m >> i & 1) t.push_back(b[i]); r.push_back(t); } return r; }

// deterministic coefficient and point alphabets
inline Vec coeffs(unsigned n, int which) { Vec c(n); static const double t[] = {0.43, -0.31, 0.27, 0.19, -0.22, 0.13, 0.37, -0.11, 0.23}; for (unsigned i = 0; i < n; ++i) c[i] = which == 0 ? t[(i * 4 + 1) % 9] : which == 1 ? -0.9 * t[(i * 2 + 5) % 9] : which == 2 ? 0.0 : 1.1 * t[(i * 5 + 2) % 9]; return c; }
inline Vec point(unsigned d, int which) { Vec x(d); static const double t[] = {0.37, -0.81, 1.23, -1.61, 0.11, 2.17, -0.29, -2.31, 0.67, 1.49, -0.53}; for (unsigned i = 0; i < d; ++i) x[i] = t[(which * 3 + i * 4 + (i * i * which) % 5) % 11]; return x; }
inline mpart::StridedMatrix<const double, HS> cmat(Kokkos::View<double**, HS> const& m) { return m; }
inline Kokkos::View<double**, HS> points(std::vector<Vec> const& p, unsigned d) { Kokkos::View<double**, HS> m("p", d, p.size()); for (size_t j = 0; j < p.size(); ++j) for (unsigned i = 0; i < d; ++i) m(i, j) = p[j][i]; return m; }
} // namespace ref
