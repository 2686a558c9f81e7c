// The family of map and function expressions the map checks enumerate.
#pragma once
#include "refmap.h"
using namespace ref;
static Opts opt(mpart::BasisTypes b, bool norm, bool lin, mpart::PosFuncTypes p, int q, bool cont, double nug) {
    Opts o; o.basisType = b; o.basisNorm = norm; if (lin) { o.basisLB = -0.9; o.basisUB = 1.1; }
    o.posFuncType = p; o.contDeriv = cont; o.nugget = nug;
    using Q = mpart::QuadTypes;
    switch (q) {
    case 0: o.quadType = Q::ClenshawCurtis; o.quadPts = 5; break;
    case 1: o.quadType = Q::AdaptiveSimpson; break;
    case 2: o.quadType = Q::AdaptiveClenshawCurtis; o.quadPts = 5; break;
    case 3: o.quadType = Q::ClenshawCurtis; o.quadPts = 12; break;
    case 4: o.quadType = Q::AdaptiveSimpson; o.quadAbsTol = o.quadRelTol = 1e-3; o.quadMaxSub = 4; o.quadMinSub = 2; break;
    case 5: o.quadType = Q::AdaptiveClenshawCurtis; o.quadPts = 10; o.quadMaxSub = 3; o.quadMinSub = 1; break;
    case 6: o.quadType = Q::ClenshawCurtis; o.quadPts = 3; break;
    case 7: o.quadType = Q::ClenshawCurtis; o.quadPts = 40; break;
    case 8: o.quadType = Q::AdaptiveSimpson; o.quadAbsTol = 1e-9; o.quadRelTol = 3e-3; o.quadMaxSub = 8; o.quadMinSub = 1; break;   // the two tolerances differ
    case 9: o.quadType = Q::AdaptiveClenshawCurtis; o.quadPts = 4; o.quadAbsTol = 1e-9; o.quadRelTol = 1e-2; o.quadMaxSub = 7; break;
    }
    return o;
}
static std::vector<Opts> allOpts(std::vector<int> quads, std::vector<double> nugs) {
    std::vector<Opts> r; using B = mpart::BasisTypes; using P = mpart::PosFuncTypes;
    for (auto b : {B::ProbabilistHermite, B::PhysicistHermite, B::HermiteFunctions}) for (int norm = 1; norm >= (b == B::HermiteFunctions ? 1 : 0); --norm)
        for (int lin = 0; lin < 2; ++lin) for (auto p : {P::SoftPlus, P::Exp}) for (int q : quads) for (int cont = 1; cont >= 0; --cont) for (double n : nugs)
            r.push_back(opt(b, norm, lin, p, q, cont, n));
    return r;
}
static Opts simple(int i) {   // a few mixed option sets used inside larger expressions
    using B = mpart::BasisTypes; using P = mpart::PosFuncTypes;
    switch (i % 4) {
    case 0: return opt(B::ProbabilistHermite, true, false, P::SoftPlus, 3, true, 0);
    case 1: return opt(B::HermiteFunctions, true, true, P::SoftPlus, 1, true, 0.25);
    case 2: return opt(B::PhysicistHermite, true, true, P::Exp, 2, false, 0.125);
    default: return opt(B::ProbabilistHermite, false, true, P::SoftPlus, 3, false, 0);
    }
}
static E comp(unsigned d, int i) { return mkComp(simple(i), totalOrder(d, d >= 3 ? 1 : 2)); }
// few terms, nonlinear in the last input
static Terms sparse(unsigned d) { std::vector<unsigned> a(d, 0), b(d, 0); a[d - 1] = 3; b[d - 1] = 2; b[0] += 1; return {b, a}; }
static E sumFn(unsigned in, unsigned out, int kind) {
    if (kind == 0) return mkAffine(in, out, true, true, 0, AFFFUN);
    if (kind == 1) { E e = mkExpan(simple(kind + in), totalOrder(in, 2), out); e->own = coeffs(e->nc, 1); return e; }
    return mkAffine(in, out, false, true, 0, AFFFUN);
}
// ---- the family of expressions ------------------------------------------------------------------
static std::vector<E> squares(unsigned d, bool shallow) {   // square maps of dimension d
    std::vector<E> r;
    if (d == 1) { r.push_back(comp(1, 0)); r.push_back(comp(1, 1)); r.push_back(comp(1, 2)); r.push_back(mkTri({comp(1, 3)})); }
    if (d == 2) { r.push_back(mkTri({comp(1, 0), comp(2, 1)})); r.push_back(mkTri({mkIdent(1, 1), comp(2, 2)})); r.push_back(mkTri({comp(1, 3), mkAffine(2, 1, true, true)})); if (!shallow) r.push_back(mkTri({comp(1, 1), mkIdent(2, 1)})); }
    r.push_back(mkIdent(d, d)); r.push_back(mkAffine(d, d, true, true, 1)); r.push_back(mkAffine(d, d, false, true)); if (!shallow) r.push_back(mkAffine(d, d, true, false, 2));
    return r;
}
static std::vector<E> blocks(unsigned in, unsigned out) {   // what can stand as a block with these dimensions
    std::vector<E> r;
    if (out == 1) { r.push_back(comp(in, in)); r.push_back(comp(in, in + 2)); r.push_back(mkComp(simple(in + 1), sparse(in))); }
    r.push_back(mkIdent(in, out)); r.push_back(mkAffine(in, out, true, true)); if (in > out) r.push_back(mkAffine(in, out, true, false, 2));
    if (in == out) r.push_back(mkAffine(in, out, false, true));
    if (out == 2 && in == 2) { r.push_back(mkTri({comp(1, 1), comp(2, 0)})); r.push_back(mkComposed({mkTri({comp(1, 0), comp(2, 3)}), mkAffine(2, 2, true, true, 1)}, 1)); }
    if (out == 2 && in == 3) { r.push_back(mkTri({comp(2, 1), comp(3, 0)})); r.push_back(mkTri({mkSumm(sumFn(1, 1, 0), comp(2, 1)), mkIdent(3, 1)})); }
    if (out == 1 && in >= 2) { r.push_back(mkSumm(sumFn(in - 1, 1, 0), comp(2, 0))); r.push_back(mkSumm(sumFn(in - 1, 1, 1), comp(2, 2))); }
    return r;
}
static void enumerate(std::function<void(E)> const& cb, bool T) {
    // (1) single components: every option set x a family of index sets
    std::vector<Terms> sets = {totalOrder(1, 1), totalOrder(1, 4), totalOrder(2, 3), totalOrder(3, 2), box({1, 2}), {{3}}, {{0}}, {{2, 0}}, {{0, 2}, {1, 1}, {2, 0}}, {{1, 0, 2}, {0, 0, 1}, {2, 1, 0}}};
    for (auto& o : allOpts(T ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 1, 2, 4, 5, 7, 8, 9}, {0.0, 0.375})) for (auto& s : sets) cb(mkComp(o, s));
    // (2) every non-empty subset of small boxes
    for (int i = 0; i < 4; ++i) { Opts o = simple(i); for (auto& s : subsets(box({3}))) cb(mkComp(o, s)); for (auto& s : subsets(box({1, 2}))) cb(mkComp(o, s)); for (auto& s : subsets(box({2, 1}))) cb(mkComp(o, s)); }
    for (int i = 0; i < 2; ++i) for (auto& s : subsets(box({1, 1, 1}))) cb(mkComp(simple(i), s));
    if (T) for (auto& s : subsets(box({2, 2}))) cb(mkComp(simple(1), s));
    // (3) triangular: every sequence of up to three blocks
    for (unsigned i0 = 1; i0 <= 3; ++i0) for (unsigned o0 = 1; o0 <= std::min(i0, 2u); ++o0) for (auto& b0 : blocks(i0, o0)) {
        cb(mkTri({b0}));
        for (unsigned o1 = 1; o1 <= 2; ++o1) { if (i0 + o1 > 4) continue; auto B1 = blocks(i0 + o1, o1); for (auto& b1 : B1) {
            cb(mkTri({b0, b1}));
            unsigned i2 = i0 + o1 + 1; if (i2 > (T ? 5u : 4u)) continue;
            for (auto& b2 : blocks(i2, 1)) { if (!T && i2 == 4 && b2->kind == COMP && b2->nc > 6) continue; cb(mkTri({b0, b1, b2})); }
        } }
    }
    // (4) compositions: every sequence of up to three square layers (four over a smaller set), with several memory budgets
    for (unsigned d = 1; d <= 2; ++d) {
        auto S = squares(d, !T);
        for (auto& a : S) { cb(mkComposed({a}, -1)); for (auto& b : S) { for (int c : {-1, 1}) cb(mkComposed({a, b}, c)); for (auto& e : S) for (int c : {-1, 1, 2}) cb(mkComposed({a, b, e}, c)); } }
        auto Q = squares(d, true); if (Q.size() > 4) Q = {Q[0], Q[1], Q[Q.size() - 2], Q[Q.size() - 3]};
        for (auto& a : Q) for (auto& b : Q) for (auto& e : Q) for (auto& f : Q) for (int c : {1, 2, 3}) { if (!T && c == 3) continue; cb(mkComposed({a, b, e, f}, c)); }
        for (auto& a : Q) for (auto& b : Q) { E in = mkComposed({a, b}, 1); cb(mkComposed({in, a}, 2)); cb(mkComposed({b, in}, 1)); cb(mkTri({in, comp(d + 1, 1)})); }
    }
    // (5) summarised
    for (unsigned in = 1; in <= 3; ++in) for (unsigned so = 1; so <= in; ++so) for (int k = 0; k < 3; ++k) { if (k == 2 && so != in) continue; for (int i = 0; i < 4; ++i) cb(mkSumm(sumFn(in, so, k), comp(so + 1, i))); }
    cb(mkSumm(mkIdent(3, 2), comp(3, 0))); { E t = mkTri({comp(1, 0), comp(2, 1)}); t->own = coeffs(t->nc, 1); cb(mkSumm(t, comp(3, 2))); }
    // (6) plain pieces and functions
    for (unsigned in = 1; in <= 4; ++in) for (unsigned out = 1; out <= in; ++out) { cb(mkIdent(in, out)); for (int v = 0; v < 3; ++v) for (int hb = 0; hb < 2; ++hb) { cb(mkAffine(in, out, true, hb, v)); cb(mkAffine(in, out, true, hb, v, AFFFUN)); } if (in == out) { cb(mkAffine(in, out, false, true)); cb(mkAffine(in, out, false, true, 0, AFFFUN)); } }
    for (auto& o : allOpts({0}, {0.0})) if (o.contDeriv && o.posFuncType == mpart::PosFuncTypes::Exp) for (unsigned out = 1; out <= 3; ++out) for (auto& s : sets) cb(mkExpan(o, s, out));
}

