// C05: fixed rules against exact polynomial integrals; adaptive rules against a recursive reference over every refinement tree.
#include "exact_alloc.h"
#include "mc.h"
#include "MParT/Quadrature.h"
#include <memory>
using namespace mpart;
typedef Kokkos::HostSpace HS;
static const double GUARD = 1.2345e77;
struct Buf {   // a heap buffer of exactly n doubles (AddressSanitizer red zones) with content that shows when it is used unset
    std::unique_ptr<double[]> p; Buf(size_t n) : p(new double[n]) { for (size_t i = 0; i < n; ++i) p[i] = GUARD; }
    double* get() { return p.get(); }
};
static double ipow(double x, int k) { double r = 1; while (k-- > 0) r *= x; return r; }

static void fixedRules(bool T) {
    const double iv[][2] = {{-1, 1}, {0, 1}, {0.25, 3}, {-2, -1.5}, {1, 0}, {0.5, -0.75}, {3, 3}, {1, 1 + 1e-13}, {0, 1e-15}, {0, -1e-15}, {-1e3, 1e3}};
    for (unsigned n = 1; n <= (T ? 130u : 66u); ++n) for (unsigned fd = 1; fd <= 3; ++fd) for (auto& I : iv) {
        if (!T && n > 33 && (n + fd) % 3) continue;
        std::string k = mc::cat("fixed n=", n, " fdim=", fd, " [", I[0], ",", I[1], "]");
        if (!mc::take(k)) continue;
        mc::sample(k); mc::distinct(mc::hashStr(k));
        double lb = I[0], ub = I[1], mid = 0.5 * (lb + ub), half = 0.5 * (ub - lb);
        for (unsigned deg = 0; deg < n; ++deg) for (int how = 0; how < 4; ++how) for (int cheb = 0; cheb < 2; ++cheb) {
            if (cheb && (deg < 2 || std::fabs(ub - lb) < 1e-9)) continue;
            // component c integrates (c+1) * y^deg, or (c+1) * T_deg(y), with y the local coordinate in [-1,1]
            unsigned calls = 0; bool in = true;
            auto f = [&](double x, double* v) { ++calls; double y = half == 0 ? 0 : (x - mid) / half; if (!(std::fabs(y) <= 1 + 1e-6)) in = false; for (unsigned c = 0; c < fd; ++c) v[c] = (c + 1) * (cheb ? std::cos(deg * std::acos(std::max(-1.0, std::min(1.0, y)))) : ipow(y, deg)); };
            double exact = half * ((deg % 2) ? 0.0 : cheb ? 2.0 / (1.0 - double(deg) * deg) : 2.0 / (deg + 1));
            if (std::fabs(ub - lb) < 1e-14 && deg > 0) continue;   // below the documented small-interval cut the midpoint rule is used
            Buf res(fd), ws(ClenshawCurtisQuadrature<HS>::GetWorkspaceSize(fd));
            if (how == 0) { ClenshawCurtisQuadrature<HS> q(n, fd); q.Integrate(f, lb, ub, res.get()); }
            else if (how == 1) { ClenshawCurtisQuadrature<HS> q(n, fd, ws.get()); q.Integrate(f, lb, ub, res.get()); if (q.WorkspaceSize() != fd) mc::viol("workspace-size", k); }
            else if (how == 2) { ClenshawCurtisQuadrature<HS> q(n, 5, nullptr); q.SetDim(fd); q.SetWorkspace(ws.get()); q.Integrate(f, lb, ub, res.get()); }
            else { Kokkos::View<double*, HS> p("p", n), w("w", n); ClenshawCurtisQuadrature<HS> q(p, w, fd, nullptr); q.Integrate(ws.get(), f, lb, ub, res.get()); }
            mc::count("integrals");
            if (!in) mc::viol("fixed-outside", mc::cat(k, " integrand called outside the interval"));
            for (unsigned c = 0; c < fd; ++c) if (!mc::close(res.get()[c], (c + 1) * exact, 0, 4e-14 * (n + 2) * (c + 1) * std::fabs(half) + 1e-15 * deg * (cheb ? deg : 1) * (c + 1) * (std::fabs(lb) + std::fabs(ub)))) {
                mc::viol("fixed-exactness", mc::cat(k, " degree ", deg, " component ", c, ": ", res.get()[c], " expected ", (c + 1) * exact, " (variant ", how, ")")); break; }
        }
    }
    for (unsigned n = 1; n <= 140; ++n) {
        std::string k = mc::cat("rule n=", n); if (!mc::take(k)) continue;
        auto r = ClenshawCurtisQuadrature<HS>::GetRule(n); double s = 0;
        for (unsigned i = 0; i < n; ++i) { s += r.first(i);
            double want = n == 1 ? 0 : -std::cos(i * M_PI / (n - 1));
            if (std::fabs(r.second(i) - want) > 1e-14) mc::viol("rule-points", mc::cat(k, " point ", i));
            if (!(r.first(i) > 0)) mc::viol("rule-weights", mc::cat(k, " weight ", i, " not positive")); }
        if (std::fabs(s - 2) > 1e-13) mc::viol("rule-weights", k);
    }
}

// ---- adaptive rules -------------------------------------------------------------------------
// A full binary tree written in prefix order, 1 = subdivided.
struct Tree { std::vector<char> in; };   // heap-numbered: node 1 is the root, 2k and 2k+1 its halves
static void trees(unsigned depth, std::vector<std::vector<int>>& out) {   // each tree as the list of subdivided heap nodes
    if (depth == 0) { out.push_back({}); return; }
    std::vector<std::vector<int>> sub; trees(depth - 1, sub);
    out.push_back({});
    auto shift = [](std::vector<int> const& t, int side) { std::vector<int> o; for (int k : t) { int lvl = 0; while ((k >> (lvl + 1)) > 0) ++lvl; o.push_back(k + ((1 + side) << lvl) - (side ? 0 : 0)); } return o; };
    // node k of the subtree at level l becomes node k + 2^l (left) or k + 2*2^l (right)
    for (auto& a : sub) for (auto& b : sub) { std::vector<int> t{1}; auto x = shift(a, 0), y = shift(b, 1); t.insert(t.end(), x.begin(), x.end()); t.insert(t.end(), y.begin(), y.end()); out.push_back(t); }
}
struct Setting { int kind; unsigned level, maxSub, minSub, fdim; int metric; double at, rt; };   // kind 0 Simpson, 1 Clenshaw-Curtis
typedef std::function<void(double, double*)> F;

static void errEst(int metric, unsigned fd, double at, double rt, const double* c, const double* f, double& e, double& t) {
    double r = 0; e = 0;
    if (metric == QuadError::First) { e = std::fabs(f[0] - c[0]); r = std::fabs(c[0]); }
    else if (metric == QuadError::NormInf) for (unsigned i = 0; i < fd; ++i) { e = std::fmax(e, std::fabs(f[i] - c[i])); r = std::fmax(r, std::fabs(c[i])); }
    else if (metric == QuadError::Norm2) { for (unsigned i = 0; i < fd; ++i) { e += (f[i] - c[i]) * (f[i] - c[i]); r += c[i] * c[i]; } e = std::sqrt(e); r = std::sqrt(r); }
    else for (unsigned i = 0; i < fd; ++i) { e += std::fabs(f[i] - c[i]); r += std::fabs(c[i]); }
    t = std::fmax(rt * r, at);
}
// The definition: recursive; leaves as heap numbers (level-relative), margin = how clear-cut the decisions were.
struct Ref { std::vector<double> res; std::vector<std::pair<double, double>> leaves; unsigned deepest = 0, shallowest = 99; double margin = 1e300; };
static Eigen::VectorXd CW, CP, FW, FP;
static void reference(Setting const& S, F const& f, double l, double r, unsigned lvl, Ref& R, double span) {
    unsigned fd = S.fdim; std::vector<double> c(fd, 0), fi(fd, 0), v(fd); double m = 0.5 * (l + r);
    if (S.kind == 0) {
        std::vector<double> fl(fd), fm(fd), fr(fd), fa(fd), fb(fd); f(l, fl.data()); f(m, fm.data()); f(r, fr.data()); f(0.5 * (l + m), fa.data()); f(0.5 * (m + r), fb.data());
        for (unsigned i = 0; i < fd; ++i) { c[i] = (r - l) / 6 * (fl[i] + 4 * fm[i] + fr[i]); fi[i] = (m - l) / 6 * (fl[i] + 4 * fa[i] + fm[i]) + (r - m) / 6 * (fm[i] + 4 * fb[i] + fr[i]); }
    } else {
        double h = 0.5 * (r - l);
        for (int i = 0; i < CP.size(); ++i) { double x = i == 0 ? l : i == CP.size() - 1 ? r : 2 * i == CP.size() - 1 ? m : m + h * CP(i); f(x, v.data()); for (unsigned k = 0; k < fd; ++k) c[k] += h * CW(i) * v[k]; }
        for (int i = 0; i < FP.size(); ++i) { double x = i == 0 ? l : i == FP.size() - 1 ? r : 2 * i == FP.size() - 1 ? m : m + h * FP(i); f(x, v.data()); for (unsigned k = 0; k < fd; ++k) fi[k] += h * FW(i) * v[k]; }
    }
    double e, t; errEst(S.metric, fd, S.at, S.rt, c.data(), fi.data(), e, t);
    bool conv = e < t;
    if (std::isfinite(e)) { double ratio = e / std::max(t, 1e-300); R.margin = std::min(R.margin, conv ? 1 / std::max(ratio, 1e-300) : std::max(ratio, 1e-300)); }
    if ((conv && lvl >= S.minSub) || lvl + 1 >= S.maxSub || span < 1e-14) {
        for (unsigned i = 0; i < fd; ++i) R.res[i] += fi[i];
        R.leaves.push_back({l, r}); R.deepest = std::max(R.deepest, lvl); R.shallowest = std::min(R.shallowest, lvl);
    } else { reference(S, f, l, m, lvl + 1, R, span); reference(S, f, m, r, lvl + 1, R, span); }
}
static void setRules(Setting const& S) { if (S.kind) { auto a = ClenshawCurtisQuadrature<HS>::GetRule((1u << S.level) + 1), b = ClenshawCurtisQuadrature<HS>::GetRule((2u << S.level) + 1); CW = a.first; CP = a.second; FW = b.first; FP = b.second; } }
static std::string name(Setting const& S) { return mc::cat(S.kind ? "clenshaw-curtis" : "simpson", S.kind ? mc::cat(" level=", S.level) : std::string(), " maxSub=", S.maxSub, " minSub=", S.minSub, " fdim=", S.fdim, " metric=", S.metric, " abs=", S.at, " rel=", S.rt); }

// Runs the real rule on f and compares. `ws` is sized exactly as announced.
static void runReal(Setting const& S, F const& f, double lb, double ub, int how, std::string const& k, double tolScale) {
    unsigned fd = S.fdim; Buf res(fd);
    uint64_t calls = 0, limit = 40000000; bool outside = false;
    double a = std::min(lb, ub), b = std::max(lb, ub), eps = 1e-12 * (1 + std::fabs(a) + std::fabs(b));
    auto g = [&](double x, double* v) { if (++calls > limit) { mc::viol("adaptive-termination", k + " did not stop"); fclose(mc::ctx().out); _exit(0); } if (!(x >= a - eps && x <= b + eps)) outside = true; f(x, v); };
    auto er = (QuadError::Type)S.metric;
    auto go = [&](auto& q, unsigned wsz) {
        if (how == 0) { q.Integrate(g, lb, ub, res.get()); return; }
        if (q.WorkspaceSize() != wsz) mc::viol("workspace-size", k);
        Buf ws(wsz);
        if (how == 1) { q.SetWorkspace(ws.get()); q.Integrate(g, lb, ub, res.get()); }
        else { q.SetWorkspace(nullptr); q.Integrate(ws.get(), g, lb, ub, res.get()); }
    };
    if (S.kind == 0) {
        unsigned w = AdaptiveSimpson<HS>::GetWorkspaceSize(S.maxSub, fd);
        if (how == 0) { AdaptiveSimpson<HS> q(S.maxSub, fd, S.at, S.rt, er, S.minSub); go(q, w); }
        else { AdaptiveSimpson<HS> q(S.maxSub, how == 1 ? fd : fd + 2, nullptr, S.at, S.rt, er, S.minSub); q.SetDim(fd); go(q, w); }
    } else {
        unsigned w = AdaptiveClenshawCurtis<HS>::GetWorkspaceSize(S.maxSub, fd);
        if (how == 0) { AdaptiveClenshawCurtis<HS> q(S.level, S.maxSub, fd, S.at, S.rt, er, S.minSub); go(q, w); }
        else if (how == 1) { AdaptiveClenshawCurtis<HS> q(S.level, S.maxSub, fd, nullptr, S.at, S.rt, er, S.minSub); q.SetDim(fd); go(q, w); }
        else {
            unsigned n = (1u << S.level) + 1, m = (2u << S.level) + 1;
            Kokkos::View<double*, HS> cp("a", n), cw("b", n), fp("c", m), fw("d", m);
            AdaptiveClenshawCurtis<HS> q(cp, cw, fp, fw, S.maxSub, fd + 2, nullptr, S.at, S.rt, er, S.minSub); q.SetDim(fd); go(q, w);
        }
    }
    Ref R; R.res.assign(fd, 0); reference(S, f, lb, ub, 0, R, std::fabs(ub - lb));
    mc::count("integrals");
    if (R.margin < 1.001) { mc::count("undecided_ties"); return; }   // rounding may decide such a comparison either way
    if (outside) { mc::viol("adaptive-outside", k + " integrand called outside the interval"); return; }
    for (unsigned i = 0; i < fd; ++i) if (!mc::close(res.get()[i], R.res[i], 1e-11, 1e-12 * tolScale)) { mc::viol("adaptive-sum", mc::cat(k, " component ", i, ": ", res.get()[i], " expected ", R.res[i], " over ", R.leaves.size(), " leaves (depth ", R.shallowest, "..", R.deepest, "), workspace variant ", how)); return; }
    std::string sig = name(S); for (auto& p : R.leaves) sig += mc::cat(";", p.first);
    mc::distinct(mc::hashStr(sig));
}
static double cubic(double x) { return 1 + 2 * x + 3 * x * x; }
// An integrand that makes the rule subdivide exactly the given nodes; `carry` names the component that carries the error.
static F forcing(Setting const& S, std::vector<int> const& tree, unsigned carry, double lb, double ub, bool alt) {
    auto tab = std::make_shared<std::map<double, double>>();   // component `carry`
    std::set<int> in(tree.begin(), tree.end());
    double w = std::fabs(ub - lb), tiny = 1e-9 * w, big = 1.0;
    if (S.kind == 0) {
        (*tab)[lb] = cubic(lb); (*tab)[ub] = cubic(ub); double m0 = 0.5 * (lb + ub); (*tab)[m0] = cubic(m0);
        std::function<void(int, double, double)> rec = [&](int node, double l, double r) {
            double m = 0.5 * (l + r), a = 0.5 * (l + m), b = 0.5 * (m + r), vl = (*tab)[l], vm = (*tab)[m], vr = (*tab)[r];
            bool sub = in.count(node); double s = sub ? (alt && (node % 3 == 1) ? -big : big) * (1 + (node % 5)) : 0;
            (*tab)[a] = (3 * vm + vl) / 4 + s; (*tab)[b] = (3 * vm + vr) / 4 + (alt ? 2 * s : s);
            if (sub) { rec(2 * node, l, m); rec(2 * node + 1, m, r); }
        };
        rec(1, lb, ub);
    } else {
        std::function<void(int, double, double)> rec = [&](int node, double l, double r) {
            double m = 0.5 * (l + r), h = 0.5 * (r - l);
            if (!in.count(node)) return;
            for (int i = 1; i < FP.size(); i += 2) (*tab)[m + h * FP(i)] = (1 + (node % 5)) * (alt && i % 4 == 1 ? 2.0 : 1.0) * big;
            rec(2 * node, l, m); rec(2 * node + 1, m, r);
        };
        rec(1, lb, ub);
    }
    bool simp = S.kind == 0; unsigned fd = S.fdim;
    return [tab, tiny, carry, fd, simp](double x, double* v) {
        for (unsigned c = 0; c < fd; ++c) v[c] = (c + 1) * cubic(x);
        auto it = tab->lower_bound(x - tiny);
        if (it != tab->end() && it->first <= x + tiny) { if (simp) v[carry] = (carry + 1) * it->second; else v[carry] += (carry + 1) * it->second; }
    };
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews();
    bool T = mc::ctx().thorough;
    fixedRules(T);
    // every refinement tree, for every rule, metric, error-carrying component and way of giving workspace
    std::map<unsigned, std::vector<std::vector<int>>> all; for (unsigned d = 0; d <= (T ? 5u : 4u); ++d) trees(d, all[d]);
    for (int kind = 0; kind < 2; ++kind) for (unsigned level = 1; level <= (kind ? 3u : 1u); ++level)
    for (unsigned maxSub = 1; maxSub <= (T ? 6u : 5u); ++maxSub) for (unsigned minSub = 0; minSub < maxSub && minSub <= 3; ++minSub)
    for (unsigned fd = 1; fd <= 3; ++fd) for (int metric = 0; metric < 4; ++metric) for (int tol = 0; tol < 2; ++tol) {
        if (maxSub >= 6 && (fd > 1 || metric > 0 || minSub > 0 || tol || level > 1)) continue;
        if (maxSub == 5 && (level > 2 || (fd > 1 && !T && (metric == 1 || metric == 3)))) continue;
        Setting S{kind, level, maxSub, minSub, fd, metric, tol ? 0.0 : 1e-7, tol ? 1e-7 : 0.0};
        setRules(S);
        for (unsigned carry = 0; carry < fd; ++carry) {
            auto& ts = all[maxSub - 1]; size_t chunk = 2000;
            for (size_t c0 = 0; c0 < ts.size(); c0 += chunk) {
                std::string k = mc::cat(name(S), " carry=", carry, " trees ", c0, "..", std::min(ts.size(), c0 + chunk) - 1, " of depth<=", maxSub - 1);
                if (!mc::take(k)) continue;
                mc::sample(k, 6);
                for (size_t t = c0; t < std::min(ts.size(), c0 + chunk); ++t) {
                    bool alt = t % 2; static const double iv[][2] = {{0, 1}, {-1, 3}, {2, 1}}; auto& I = iv[(t + minSub) % 3];
                    F f = forcing(S, ts[t], carry, I[0], I[1], alt);
                    runReal(S, f, I[0], I[1], t % 3, mc::cat(k, " tree ", t, " ", mc::str(ts[t])), 100);
                }
            }
        }
    }
    // one error on a single path, to every depth the settings allow (subdivision tree of depth up to 45)
    for (int kind = 0; kind < 2; ++kind) for (unsigned maxSub : {8u, 20u, 30u, 31u, 32u, 33u, 34u, 40u, 45u}) for (int path = 0; path < 4; ++path) {
        Setting S{kind, 1, maxSub, 0, 1, 0, 1e-30, 0}; setRules(S);
        std::string k = mc::cat("single path ", path, " ", name(S));
        if (!mc::take(k)) continue;
        // path 0 left edge, 1 right edge, 2 alternating, 3 just left of the middle
        double x0 = 0; { double l = 0, r = 1; for (unsigned d = 0; d < 60; ++d) { double m = 0.5 * (l + r); int side = path == 0 ? 0 : path == 1 ? 1 : path == 2 ? (d % 2) : (d == 0 ? 0 : 1); if (side) l = m; else r = m; } x0 = 0.5 * (l + r); }
        F f = [x0](double x, double* v) { v[0] = std::fabs(x - x0) < 1e-16 || x == x0 ? 3.0 : x < x0 ? 1.0 : 2.0; };
        runReal(S, f, 0, 1, 0, k, 1);
    }
    // all {0,1}-valued data on the finest dyadic grid (patterns no smooth function has)
    for (unsigned maxSub = 1; maxSub <= 3; ++maxSub) {
        unsigned n = (1u << (maxSub + 1)) + 1; uint64_t N = 1ull << n, step = 2048;
        for (int metric = 0; metric < 2; ++metric) for (uint64_t c0 = 0; c0 < N; c0 += step) {
            Setting S{0, 1, maxSub, 0, metric ? 2u : 1u, metric, 0.101, 0};
            std::string k = mc::cat("two-valued data ", name(S), " patterns ", c0, "..", c0 + step - 1);
            if (!mc::take(k)) continue;
            for (uint64_t p = c0; p < std::min(N, c0 + step); ++p) {
                F f = [p, n, &S](double x, double* v) { unsigned i = (unsigned)std::lround(x * (n - 1)); v[0] = (p >> i) & 1; if (S.fdim > 1) v[1] = 1 - v[0]; };
                runReal(S, f, 0, 1, p % 3, mc::cat(k, " pattern ", p), 1);
            }
        }
    }
    // where the tolerance lies: signed data of every size against relative and absolute tolerances on either side of every decision
    for (int kind = 0; kind < 2; ++kind) for (unsigned maxSub = 2; maxSub <= 3; ++maxSub) for (unsigned fd = 1; fd <= 3; ++fd) for (int metric = 0; metric < 4; ++metric)
    for (double rt : {0.0, 0.004, 0.02, 0.07, 0.21, 0.6, 1.7}) for (double sc : {0.01, 1.0, 100.0}) for (double at : {0.0, 0.033}) {
        if (rt == 0 && at == 0) continue;
        if (maxSub == 3 && (fd == 1 || (sc == 1.0 && !T))) continue;
        Setting S{kind, 1, maxSub, 0, fd, metric, at, rt}; setRules(S);
        std::string k = mc::cat("tolerance ", name(S), " at=", at, " rt=", rt, " scale=", sc);
        if (!mc::take(k)) continue;
        unsigned n = (1u << (maxSub + 1)) + 1; uint64_t N = 1ull << n, step = maxSub == 2 ? 1 : T ? 7 : 257;
        for (uint64_t p = 0; p < N; p += step) {
            F f = [p, n, sc, fd](double x, double* v) { unsigned i = (unsigned)std::lround(x * (n - 1)); double b = (p >> i) & 1; for (unsigned c = 0; c < fd; ++c) v[c] = sc * (c == 0 ? b + 0.25 : c == 1 ? -1.5 * b - 0.1 * i : 0.3 * (1 - b)); };
            runReal(S, f, 0, 1, p % 3, mc::cat(k, " pattern ", p), sc * 10);
        }
    }
    // settings at the edge: no subdivision at all, a minimum at or beyond the maximum, values that never converge, empty intervals
    for (int kind = 0; kind < 2; ++kind) for (unsigned maxSub = 0; maxSub <= 5; ++maxSub) for (unsigned minSub = 0; minSub <= 7; ++minSub) for (unsigned fd = 1; fd <= 2; ++fd) for (int fn = 0; fn < 5; ++fn) for (int iv = 0; iv < 3; ++iv) {
        Setting S{kind, 1, maxSub, minSub, fd, 0, 1e-7, 0}; setRules(S);
        std::string k = mc::cat("edge fn=", fn, " interval=", iv, " ", name(S));
        if (!mc::take(k)) continue;
        F f = [fn, fd](double x, double* v) { for (unsigned c = 0; c < fd; ++c) v[c] = fn == 0 ? cubic(x) : fn == 1 ? NAN : fn == 2 ? INFINITY : fn == 3 ? std::fabs(std::sin(1000 * x)) * 1e3 : (x < 0.3 ? 0 : NAN); };
        double lb = iv == 0 ? 0 : 0.5, ub = iv == 0 ? 1 : iv == 1 ? 0.5 : 0.5 + 1e-15;
        for (int how = 0; how < 3; ++how) runReal(S, f, lb, ub, how, k, 1e3);
    }
    return mc::finish();
}
