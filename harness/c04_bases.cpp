// C04: every evaluation path of every one-dimensional basis and link function, over a grid of orders, settings and points,
// against the explicit (sum-formula) definition computed in 128-bit arithmetic.
#include "mc.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Sigmoid.h"
using namespace mpart;
typedef __float128 Q;
typedef long double L;

struct V3 { L v, d, dd, mv, md, mdd; };   // value, first and second derivative, and the magnitude of the terms summed for each

static Q fact(int n) { Q r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static Q ipow(Q x, int n) { Q r = 1; while (n-- > 0) r *= x; return r; }
static Q qabs(Q x) { return x < 0 ? -x : x; }
// He_n (phys=false) or H_n (phys=true) by the explicit sum over powers of x
static V3 poly(bool phys, int n, double x) {
    Q v = 0, d = 0, dd = 0, mv = 0, md = 0, mdd = 0;
    for (int m = 0; 2 * m <= n; ++m) {
        int p = n - 2 * m;
        Q c = fact(n) / (fact(m) * fact(p));
        if (m & 1) c = -c;
        Q b = phys ? ipow(2, p) : 1 / ipow(2, m);
        c *= b;
        Q t = c * ipow(x, p); v += t; mv += qabs(t);
        if (p >= 1) { t = c * p * ipow(x, p - 1); d += t; md += qabs(t); }
        if (p >= 2) { t = c * p * (p - 1) * ipow(x, p - 2); dd += t; mdd += qabs(t); }
    }
    return {(L)v, (L)d, (L)dd, (L)mv, (L)md, (L)mdd};
}
static const L PI = 3.14159265358979323846264338327950288L;
enum Fam { PROB, PROBN, PHYS, PHYSN, HF };
static const char* famName[] = {"Prob", "ProbN", "Phys", "PhysN", "HermiteFn"};
static V3 scale(V3 a, L s) { a.v *= s; a.d *= s; a.dd *= s; s = fabsl(s); a.mv *= s; a.md *= s; a.mdd *= s; return a; }
static V3 refBasis(Fam f, int n, double x) {
    switch (f) {
    case PROB: return poly(false, n, x);
    case PHYS: return poly(true, n, x);
    case PROBN: return scale(poly(false, n, x), 1 / sqrtl(sqrtl(2 * PI) * (L)fact(n)));
    case PHYSN: return scale(poly(true, n, x), 1 / sqrtl(sqrtl(PI) * (L)(fact(n) * ipow(2, n))));
    case HF: {
        if (n == 0) return {1, 0, 0, 1, 0, 0};
        if (n == 1) return {(L)x, 1, 0, fabsl(x), 1, 0};
        int k = n - 2;
        V3 p = poly(true, k, x);
        L s = expl(-0.5L * x * (L)x) / sqrtl(sqrtl(PI) * (L)(fact(k) * ipow(2, k)));
        L X = x, a = fabsl(x);
        return {s * p.v, s * (p.d - X * p.v), s * (p.dd - 2 * X * p.d + (X * X - 1) * p.v),
                s * p.mv, s * (p.md + a * p.mv), s * (p.mdd + 2 * a * p.md + (X * X + 1) * p.mv)};
    }
    }
    return {};
}
static V3 refLin(Fam f, int n, double x, bool lin, double lb, double ub) {
    if (!lin || (x >= lb && x <= ub)) return refBasis(f, n, x);
    double b = x < lb ? lb : ub;
    V3 r = refBasis(f, n, b);
    L h = (L)x - b;
    return {r.v + r.d * h, r.d, 0, r.mv + r.md * fabsl(h), r.md, 0};
}
static std::string where; // setting
static bool bad(double got, L ref, L mag, int order, double x, const char* what) {
    L tol = 4e-15L * (order + 2) * (mag + fabsl(ref)) + 1e-300L;
    if (std::isfinite(got) && fabsl((L)got - ref) <= tol) { mc::count("values_compared"); return false; }
    mc::viol(what, mc::cat(where, " order ", order, " x=", x, " got ", got, " expected ", (double)ref));
    return true;
}
static const double NaN = std::numeric_limits<double>::quiet_NaN();

template <class B> void runBasis(B const& b, Fam f, bool lin, double lb, double ub, std::vector<double> const& xs, int N) {
    for (int n = 0; n <= N; ++n) {
        if (!mc::take(mc::cat(where, " order=", n))) continue;
        for (double x : xs) {
            std::unique_ptr<double[]> a(new double[n + 1]), v1(new double[n + 1]), d1(new double[n + 1]), v2(new double[n + 1]), d2(new double[n + 1]), dd(new double[n + 1]);
            for (int i = 0; i <= n; ++i) a[i] = v1[i] = d1[i] = v2[i] = d2[i] = dd[i] = NaN;
            b.EvaluateAll(a.get(), n, x);
            b.EvaluateDerivatives(v1.get(), d1.get(), n, x);
            b.EvaluateSecondDerivatives(v2.get(), d2.get(), dd.get(), n, x);
            for (int i = 0; i <= n; ++i) {
                V3 r = refLin(f, i, x, lin, lb, ub);
                bad(a[i], r.v, r.mv, i, x, "EvaluateAll");
                bad(v1[i], r.v, r.mv, i, x, "EvaluateDerivatives value");
                bad(d1[i], r.d, r.md, i, x, "EvaluateDerivatives derivative");
                bad(v2[i], r.v, r.mv, i, x, "EvaluateSecondDerivatives value");
                bad(d2[i], r.d, r.md, i, x, "EvaluateSecondDerivatives derivative");
                bad(dd[i], r.dd, r.mdd, i, x, "EvaluateSecondDerivatives second derivative");
            }
            V3 r = refLin(f, n, x, lin, lb, ub);
            bad(b.Evaluate(n, x), r.v, r.mv, n, x, "Evaluate");
            bad(b.Derivative(n, x), r.d, r.md, n, x, "Derivative");
            bad(b.SecondDerivative(n, x), r.dd, r.mdd, n, x, "SecondDerivative");
            mc::distinct(mc::hashBytes(&x, 8, mc::hashStr(where, n)));
        }
        mc::sample(mc::cat(where, " order 0..", n, " on ", xs.size(), " points"));
    }
}
template <class P> void derivOnly(P const& b, Fam f, std::vector<double> const& xs, int N) {
    for (int n = 0; n <= N; ++n) {
        if (!mc::take(mc::cat(where, " derivatives-only order=", n))) continue;
        for (double x : xs) {
            std::unique_ptr<double[]> d(new double[n + 1]);
            for (int i = 0; i <= n; ++i) d[i] = NaN;
            b.EvaluateDerivatives(d.get(), n, x);
            for (int i = 0; i <= n; ++i) { V3 r = refBasis(f, i, x); bad(d[i], r.d, r.md, i, x, "EvaluateDerivatives (derivatives only)"); }
        }
    }
}
template <class B> void both(B const& b, Fam f, std::vector<double> const& base, std::vector<double> const& ends, int N) {
    where = famName[f];
    runBasis(b, f, false, 0, 0, base, N);
    for (double lb : ends) for (double ub : ends) {
        if (!(lb < ub)) continue;
        where = mc::cat(famName[f], " lin[", lb, ",", ub, "]");
        std::vector<double> xs = base;
        for (double e : {lb, ub}) { xs.push_back(e); xs.push_back(std::nextafter(e, -1e9)); xs.push_back(std::nextafter(e, 1e9)); xs.push_back(e - 100); xs.push_back(e + 100); }
        runBasis(LinearizedBasis<B>(b, lb, ub), f, true, lb, ub, xs, N);
        if (f == PROB || f == PHYS || f == HF) {   // the constructor that builds the inner basis itself
            where += " default-inner";
            runBasis(LinearizedBasis<B>(lb, ub), f, true, lb, ub, xs, std::min(N, 3));
        }
    }
    where = mc::cat(famName[f], " lin-default");
    runBasis(LinearizedBasis<B>(b), f, true, -3, 3, base, std::min(N, 6));
}

// ---- link functions
static L softplusL(L x) { return x > 0 ? x + log1pl(expl(-x)) : log1pl(expl(x)); }
static L sigL(L x) { return x >= 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x)); }
static L sig1L(L x) { L e = expl(-fabsl(x)); return e / ((1 + e) * (1 + e)); }
static void chk(const char* what, double x, double got, L ref, L rtol, L atol = 0) {
    mc::count("values_compared");
    if (ref < 2.3e-308L && ref > -2.3e-308L) { if (std::fabs(got) <= 2.3e-308) return; }   // not representable as a normal number
    else if (ref > 1.7e308L) { if (got > 1e308) return; }
    else if (std::isfinite(got) && fabsl(got - ref) <= rtol * fabsl(ref) + atol) return;
    mc::viol(what, mc::cat(what, " at ", x, " got ", got, " expected ", (double)ref));
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    bool T = mc::ctx().thorough;
    std::vector<double> base;
    double step = T ? 0.125 : 0.25, R = T ? 8 : 6;
    for (double x = -R; x <= R; x += step) base.push_back(x);
    for (double x : {-0.0, 1e-300, -1e-300, 1e-8, -1e-8, 0.1, -0.3, 1.0 / 3, 12.5, -17.0, 30.0}) base.push_back(x);
    std::vector<double> ends = T ? std::vector<double>{-5, -3, -1, -0.25, 0, 0.5, 2, 3, 5} : std::vector<double>{-3, -1, 0, 0.5, 3};
    int N = T ? 24 : 18;
    both(ProbabilistHermite(), PROB, base, ends, N);
    both(ProbabilistHermite(true), PROBN, base, ends, N);
    both(PhysicistHermite(), PHYS, base, ends, N);
    both(PhysicistHermite(true), PHYSN, base, ends, N);
    both(HermiteFunction(), HF, base, ends, N);
    where = "Prob"; derivOnly(ProbabilistHermite(), PROB, base, N);
    where = "ProbN"; derivOnly(ProbabilistHermite(true), PROBN, base, N);
    where = "Phys"; derivOnly(PhysicistHermite(), PHYS, base, N);
    where = "PhysN"; derivOnly(PhysicistHermite(true), PHYSN, base, N);
    for (int n = 0; n <= N; ++n) {
        if (!mc::take(mc::cat("Normalization order=", n))) continue;
        chk("ProbabilistHermite::Normalization", n, ProbabilistHermite(true).Normalization(n), sqrtl(sqrtl(2 * PI) * (L)fact(n)), 1e-14L);
        chk("PhysicistHermite::Normalization", n, PhysicistHermite(true).Normalization(n), sqrtl(sqrtl(PI) * (L)(fact(n) * ipow(2, n))), 1e-14L);
    }
    // link functions: an ordered grid of points over the whole representable range; each adjacent pair is one monotonicity case
    std::vector<double> g;
    double gs = T ? 1.0 / 64 : 1.0 / 16;
    for (double x = -60; x <= 60; x += gs) g.push_back(x);
    for (double x = 61; x <= 760; x += 1) { g.push_back(x); g.push_back(-x); }
    for (int e = -300; e < 0; e += 3) { g.push_back(std::ldexp(1.0, e)); g.push_back(-std::ldexp(1.0, e)); }
    std::sort(g.begin(), g.end());
    g.erase(std::unique(g.begin(), g.end()), g.end());
    const int CH = 256;
    for (size_t c = 0; c < g.size(); c += CH) {
        if (!mc::take(mc::cat("links chunk ", c / CH))) continue;
        for (size_t i = c; i < std::min(g.size(), c + CH); ++i) {
            double x = g[i]; L X = x;
            mc::distinct(mc::hashBytes(&x, 8, 77));
            // The known finding about the lower tail covers exactly the digits lost in rounding 1+exp(x): an error of half an
            // ulp of 1.  Anything larger is another violation.
            if (x < 0 && fabsl((L)SoftPlus::Evaluate(x) - softplusL(X)) <= 2.5e-16L)
                chk("SoftPlus::Evaluate digits lost in 1+exp(x)", x, SoftPlus::Evaluate(x), softplusL(X), 4e-16L * 4);
            else chk("SoftPlus::Evaluate", x, SoftPlus::Evaluate(x), softplusL(X), 4e-16L * 4);
            chk("SoftPlus::Derivative", x, SoftPlus::Derivative(x), sigL(X), 4e-16L * 4);
            chk("SoftPlus::SecondDerivative", x, SoftPlus::SecondDerivative(x), sig1L(X), 4e-16L * 4);
            chk("Exp::Evaluate", x, Exp::Evaluate(x), expl(X), 4e-16L * 2);
            chk("Exp::Derivative", x, Exp::Derivative(x), expl(X), 4e-16L * 2);
            chk("Exp::SecondDerivative", x, Exp::SecondDerivative(x), expl(X), 4e-16L * 2);
            chk("Logistic::Evaluate", x, Logistic::Evaluate(x), sigL(X), 1e-15L);
            chk("Logistic::Derivative", x, Logistic::Derivative(x), sig1L(X), 4e-15L);
            // inverses, on the values that are representable
            double s = SoftPlus::Evaluate(x);
            if (s > 2.3e-308) chk("SoftPlus::Inverse", s, SoftPlus::Inverse(s), s > 40 ? (L)s : s + logl(-expm1l(-(L)s)), 1e-14L, 1e-15L);
            double e = Exp::Evaluate(x);
            if (e > 2.3e-308 && std::isfinite(e)) chk("Exp::Inverse", e, Exp::Inverse(e), logl(e), 1e-14L);
            double l = Logistic::Evaluate(x);
            if (l > 2.3e-308 && l < 1) chk("Logistic::Inverse", l, Logistic::Inverse(l), logl((L)l / (1 - (L)l)), 1e-14L, 1e-15L);
            // going there and back
            if (x > -36) chk("SoftPlus::Inverse(Evaluate)", x, SoftPlus::Inverse(s), X, 1e-14L, 1e-15L * (1 + (X > 0 ? X : 0)) + (X < 0 ? 2.5e-16L / softplusL(X) * 1.1L : 0));
            if (e > 2.3e-308 && std::isfinite(e)) chk("Exp::Inverse(Evaluate)", x, Exp::Inverse(e), X, 1e-14L, 4e-16L);
            if (l > 2.3e-308 && l < 1) chk("Logistic::Inverse(Evaluate)", x, Logistic::Inverse(l), X, 1e-14L, 4e-16L * (1 + (X > 0 ? expl(X) : 0)));
            if (i + 1 < g.size()) {
                double y = g[i + 1];
                // strictly increasing wherever the two true values differ by more than rounding
                auto inc = [&](const char* w, double a, double b, L ra, L rb) {
                    if (rb > 1.7e308L || ra < 2.3e-308L) return;
                    if (rb - ra > 1e-14L * rb ? !(b > a) : b < a * (1 - 1e-14)) mc::viol(mc::cat(w, " not increasing"), mc::cat(w, " at ", x, ",", y, ": ", a, ",", b));
                    if (!(a > 0)) mc::viol(mc::cat(w, " not positive"), mc::cat(w, " at ", x, ": ", a));
                };
                if (x < -2 && fabsl(s - softplusL(X)) <= 2.5e-16L && fabsl(SoftPlus::Evaluate(y) - softplusL(y)) <= 2.5e-16L)
                    inc("SoftPlus (digits lost in 1+exp(x))", s, SoftPlus::Evaluate(y), softplusL(X), softplusL(y));
                else inc("SoftPlus", s, SoftPlus::Evaluate(y), softplusL(X), softplusL(y));
                inc("Exp", e, Exp::Evaluate(y), expl(X), expl(y));
                inc("Logistic", l, Logistic::Evaluate(y), sigL(X), sigL(y));
            }
        }
    }
    return mc::finish();
}
