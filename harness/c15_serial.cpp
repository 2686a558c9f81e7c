// C15: saving and restoring. Every object of the family, every history of saves into one stream, every point at which the
// stream can be cut, every earlier content of the object restored into; fresh memory is filled with a chosen byte.
#include "exact_alloc.h"
#include "alloc.h"
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/archives/binary.hpp>
#include "refmap.h"
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/HermiteFunction.h"
#include "MParT/LinearizedBasis.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/Utilities/Serialization.h"
#include <Kokkos_Core.hpp>
using namespace ref;
typedef mpart::FixedMultiIndexSet<HS> FS;
typedef std::string Bytes;
typedef mpart::StridedMatrix<double, HS> SMd;
struct Sig { std::ostringstream s; Sig() { s.precision(17); } Sig& operator()(double x) { uint64_t u; memcpy(&u, &x, 8); s << std::hex << u << std::dec << ","; return *this; } Sig& operator()(std::string const& t) { s << t << ","; return *this; } };

// ---- what can be asked of an object: the answers, bit for bit ----------------------------------------------------
static std::string sigMap(mpart::ParameterizedFunctionBase<HS>& f) {
    Sig g; g(mc::cat("dims ", f.inputDim, " ", f.outputDim, " ", f.numCoeffs));
    auto* m = dynamic_cast<mpart::ConditionalMapBase<HS>*>(&f);
    { auto c = f.Coeffs(); g(mc::cat("coeffs ", c.extent(0))); for (size_t i = 0; i < c.extent(0); ++i) g(c(i)); }
    unsigned n = f.inputDim, o = f.outputDim;
    std::vector<Vec> P; for (int w = 0; w < 3; ++w) P.push_back(point(n, w));
    auto x = points(P, n); Kokkos::View<double**, HS> sens("s", o, 3); for (unsigned i = 0; i < o; ++i) for (int j = 0; j < 3; ++j) sens(i, j) = 0.5 + i - 0.75 * j;
    auto mat = [&](const char* what, std::function<mpart::StridedMatrix<double, HS>()> q) { g(what); try { auto r = q(); g(mc::cat(r.extent(0), "x", r.extent(1))); for (size_t j = 0; j < r.extent(1); ++j) for (size_t i = 0; i < r.extent(0); ++i) g(r(i, j)); } catch (std::exception& e) { g("refused"); } };
    auto vec = [&](const char* what, std::function<mpart::StridedVector<double, HS>()> q) { g(what); try { auto r = q(); for (size_t j = 0; j < r.extent(0); ++j) g(r(j)); } catch (std::exception& e) { g("refused"); } };
    if (f.numCoeffs && f.Coeffs().extent(0) == 0) {   // not yet given coefficients: the queries that refuse
        mat("eval", [&]() -> SMd { return f.Evaluate(cmat(x)); }); return g.s.str();
    }
    mat("eval", [&]() -> SMd { return f.Evaluate(cmat(x)); });
    mat("grad", [&]() -> SMd { return f.Gradient(cmat(x), cmat(sens)); });
    mat("cgrad", [&]() -> SMd { return f.CoeffGrad(cmat(x), cmat(sens)); });
    if (m) {
        vec("ld", [&]() -> mpart::StridedVector<double, HS> { return m->LogDeterminant(cmat(x)); });
        mat("ldc", [&]() -> SMd { return m->LogDeterminantCoeffGrad(cmat(x)); });
        mat("ldx", [&]() -> SMd { return m->LogDeterminantInputGrad(cmat(x)); });
        mat("inv", [&]() -> SMd { auto y = f.Evaluate(cmat(x)); return m->Inverse(cmat(x), mpart::StridedMatrix<const double, HS>(y)); });
    }
    return g.s.str();
}
static std::string sigSet(FS const& s) {
    Sig g; g(mc::cat("set ", s.Length(), " ", s.Size())); unsigned d = s.Length(); auto md = s.MaxDegrees(); g(mc::cat(md.extent(0)));
    for (size_t i = 0; i < md.extent(0); ++i) g(mc::cat(md(i)));
    for (unsigned i = 0; i < s.Size(); ++i) g(mc::str(s.IndexToMulti(i)));
    std::vector<unsigned> t(d, 0); std::function<void(unsigned)> go = [&](unsigned i) { if (i == d) { g(mc::cat(s.MultiToIndex(t))); return; } for (unsigned k = 0; k <= 3; ++k) { t[i] = k; go(i + 1); } t[i] = 0; }; if (d <= 4) go(0);
    return g.s.str();
}
static std::string sigOpts(mpart::MapOptions const& o) {
    Sig g; g(mc::cat((int)o.basisType, " ", (int)o.posFuncType, " ", (int)o.quadType, " ", o.quadMaxSub, " ", o.quadMinSub, " ", o.quadPts, " ", o.contDeriv, " ", o.basisNorm));
    g(o.basisLB)(o.basisUB)(o.quadAbsTol)(o.quadRelTol)(o.nugget); return g.s.str();
}
// the sequence of points a rule visits, and its answer
template <class Q> std::string sigQuad(Q q, unsigned fd) {
    Sig g; g(mc::cat(q.WorkspaceSize())); std::vector<double> w(q.WorkspaceSize() + 64, -3.5); q.SetWorkspace(w.data());
    for (double s : {1.0, 8.0}) {
        int calls = 0; std::vector<double> r(fd, 0.0);
        auto f = [&](double t, double* v) { if (++calls < 4000) g(t); for (unsigned i = 0; i < fd; ++i) v[i] = std::exp(-s * t) * (i + 1) + (t > 0.37 ? s : 0.1); };
        q.Integrate(f, 0.0, 1.0, r.data()); g(mc::cat("calls ", calls)); for (double v : r) g(v);
    }
    return g.s.str();
}
template <class View> std::string sigView(View const& v) { Sig g; g(mc::cat(v.extent(0), "x", v.extent(1))); for (size_t i = 0; i < v.extent(0); ++i) { if constexpr (View::rank == 1) g((double)v(i)); else for (size_t j = 0; j < v.extent(1); ++j) g((double)v(i, j)); } return g.s.str(); }
template <class W> std::string sigWorker(W const& w, unsigned d) {
    Sig g; g(mc::cat(w.NumCoeffs(), " ", w.InputSize(), " ", w.CacheSize()));
    Vec x = point(d, 1); Vec c = coeffs(w.NumCoeffs(), 0); Kokkos::View<double*, HS> X("x", d), C("c", c.size()); for (unsigned i = 0; i < d; ++i) X(i) = x[i]; for (size_t i = 0; i < c.size(); ++i) C(i) = c[i];
    Vec cache(w.CacheSize(), -7.25);
    w.FillCache1(cache.data(), X, mpart::DerivativeFlags::Input); w.FillCache2(cache.data(), X, X(d - 1), mpart::DerivativeFlags::Input);
    g(w.Evaluate(cache.data(), C)); w.FillCache2(cache.data(), X, 0.3, mpart::DerivativeFlags::Diagonal2); g(w.DiagonalDerivative(cache.data(), C, 1)); g(w.DiagonalDerivative(cache.data(), C, 2));
    return g.s.str();
}
template <class B> std::string sigBasis(B const& b) { Sig g; for (unsigned n = 0; n < 6; ++n) for (double x : {-2.0, -0.3, 0.4, 1.7}) g(b.Evaluate(n, x))(b.Derivative(n, x))(b.SecondDerivative(n, x)); return g.s.str(); }

// ---- an object under test: how it is written, how it is restored (into what), and its signature ----------------------
struct Item {
    std::string name, sig;
    std::function<void(cereal::BinaryOutputArchive&)> save;
    std::function<std::string(cereal::BinaryInputArchive&)> load;           // into a fresh object; gives the signature
    std::function<std::string(cereal::BinaryInputArchive&, cereal::BinaryInputArchive&)> loadOver;  // first one stream, then the other, into the same object
    std::function<std::string(cereal::BinaryInputArchive&, cereal::BinaryOutputArchive&)> reload; // restore and write again
    std::string kind;
};
template <class T, class Sg> Item valueItem(std::string kind, std::string name, T const& v, Sg sg, std::function<T()> fresh) {
    Item it; it.kind = kind; it.name = name; auto keep = std::make_shared<T>(v); it.sig = sg(*keep);
    it.save = [keep](cereal::BinaryOutputArchive& a) { a(*keep); };
    it.load = [=](cereal::BinaryInputArchive& a) { T t = fresh(); a(t); return sg(t); };
    it.loadOver = [=](cereal::BinaryInputArchive& a, cereal::BinaryInputArchive& b) { T t = fresh(); a(t); b(t); return sg(t); };
    it.reload = [=](cereal::BinaryInputArchive& a, cereal::BinaryOutputArchive& o) { T t = fresh(); a(t); o(t); return sg(t); };
    return it;
}
template <class P> Item ptrItem(std::string kind, std::string name, P p) {
    Item it; it.kind = kind; it.name = name; it.sig = sigMap(*p);
    auto check = [](P const& q) { return q ? sigMap(*q) : std::string("null"); };
    it.save = [p](cereal::BinaryOutputArchive& a) { a(p); };
    it.load = [=](cereal::BinaryInputArchive& a) { P q; a(q); return check(q); };
    it.loadOver = [=](cereal::BinaryInputArchive& a, cereal::BinaryInputArchive& b) { P q, first; a(q); first = q; std::string s = check(first); b(q); if (check(first) != s) return std::string("the first restored object changed"); return check(q); };
    it.reload = [=](cereal::BinaryInputArchive& a, cereal::BinaryOutputArchive& o) { P q; a(q); std::string s = check(q); o(q); return s; };
    return it;
}
static std::vector<Item> items;
static FunP asFun(MapP m) { return m; }
static MapP given(E e, int w) { MapP m = e->build(); if (w >= 0) Expr::setC(*m, coeffs(e->nc, w)); return m; }
static Opts mkOpts(int b, int norm, int lin, int p, int q, int cont, double nug) {
    Opts o; o.basisType = (mpart::BasisTypes)b; o.basisNorm = norm; if (lin & 1) o.basisLB = -0.9; if (lin & 2) o.basisUB = 1.1;
    o.posFuncType = (mpart::PosFuncTypes)p; o.contDeriv = cont; o.nugget = nug; using Q = mpart::QuadTypes;
    switch (q) {
    case 0: o.quadType = Q::ClenshawCurtis; o.quadPts = 6; break;
    case 1: o.quadType = Q::AdaptiveSimpson; o.quadAbsTol = 1e-4; o.quadRelTol = 3e-3; o.quadMaxSub = 6; o.quadMinSub = 1; break;
    default: o.quadType = Q::AdaptiveClenshawCurtis; o.quadPts = 5; o.quadAbsTol = 1e-5; o.quadRelTol = 1e-2; o.quadMaxSub = 5; o.quadMinSub = 1; break;
    }
    return o;
}
template <class M> void addMaps(std::string kind, std::string name, std::shared_ptr<M> p) {
    items.push_back(ptrItem<FunP>(kind, name + "/as-function", p)); items.push_back(ptrItem<MapP>(kind, name + "/as-map", p));
}
template <class B> void addUnset(std::string bn, B) {
    typedef mpart::MultivariateExpansionWorker<B, HS> W; FS s(2, 2); W w(s);
    items.push_back(ptrItem<MapP>("unset", mc::cat("unset-comp-", bn, "-AS"), std::make_shared<mpart::MonotoneComponent<W, mpart::SoftPlus, mpart::AdaptiveSimpson<HS>, HS>>(w, mpart::AdaptiveSimpson<HS>(5, 1, nullptr, 1e-4, 1e-3, mpart::QuadError::First), true, 0.25)));
    items.push_back(ptrItem<MapP>("unset", mc::cat("unset-comp-", bn, "-CC"), std::make_shared<mpart::MonotoneComponent<W, mpart::Exp, mpart::ClenshawCurtisQuadrature<HS>, HS>>(w, mpart::ClenshawCurtisQuadrature<HS>(7, 1, nullptr), false, 0.0)));
}
static void makeItems(bool T) {
    // options: one field changed at a time, all pairs of a few, extremes
    std::vector<std::function<void(mpart::MapOptions&)>> ch = {
        [](mpart::MapOptions& o) { o.basisType = mpart::BasisTypes::HermiteFunctions; }, [](mpart::MapOptions& o) { o.basisType = mpart::BasisTypes::PhysicistHermite; }, [](mpart::MapOptions& o) { o.basisLB = -3.25; }, [](mpart::MapOptions& o) { o.basisUB = 2.5; },
        [](mpart::MapOptions& o) { o.posFuncType = mpart::PosFuncTypes::Exp; }, [](mpart::MapOptions& o) { o.quadType = mpart::QuadTypes::ClenshawCurtis; }, [](mpart::MapOptions& o) { o.quadType = mpart::QuadTypes::AdaptiveClenshawCurtis; },
        [](mpart::MapOptions& o) { o.quadAbsTol = 1e-300; }, [](mpart::MapOptions& o) { o.quadRelTol = 0.1; }, [](mpart::MapOptions& o) { o.quadMaxSub = 4000000000u; }, [](mpart::MapOptions& o) { o.quadMinSub = 3; }, [](mpart::MapOptions& o) { o.quadPts = 0; }, [](mpart::MapOptions& o) { o.contDeriv = false; }, [](mpart::MapOptions& o) { o.basisNorm = false; }, [](mpart::MapOptions& o) { o.nugget = 0.125; }};
    for (size_t i = 0; i < ch.size(); ++i) for (size_t j = i; j < ch.size(); ++j) {
        mpart::MapOptions o; ch[i](o); ch[j](o);
        items.push_back(valueItem<mpart::MapOptions>("options", mc::cat("options", i, ",", j), o, [o](mpart::MapOptions const& r) { return sigOpts(r); }, [] { mpart::MapOptions r; r.basisLB = 7; r.nugget = 9; r.quadPts = 77; r.contDeriv = false; r.quadMaxSub = 5; return r; }));
    }
    // index sets: compressed and dense, from limiters, subsets
    auto addSet = [&](std::string n, FS s) { items.push_back(valueItem<FS>("set", n, s, [](FS const& r) { return sigSet(r); }, [] { return FS(1, 1); })); };
    for (unsigned d = 1; d <= 4; ++d) for (unsigned p = 0; p <= 3; ++p) {
        addSet(mc::cat("total", d, ",", p), FS(d, p)); addSet(mc::cat("fixC", d, ",", p), mpart::MultiIndexSet::CreateTotalOrder(d, p).Fix(true)); addSet(mc::cat("fixD", d, ",", p), mpart::MultiIndexSet::CreateTotalOrder(d, p).Fix(false));
        addSet(mc::cat("tensor", d, ",", p), mpart::MultiIndexSet::CreateTensorProduct(d, std::min(p, 2u)).Fix(p & 1)); addSet(mc::cat("nocross", d, ",", p), mpart::MultiIndexSet::CreateTotalOrder(d, p, mpart::MultiIndexLimiter::MaxDegree(std::max(1u,p) - (p > 1), d)).Fix(true)); addSet(mc::cat("nodiag", d, ",", p), mpart::MultiIndexSet::CreateTotalOrder(d, p, mpart::MultiIndexLimiter::Dimension(0, d - 1)).Fix(true));
    }
    { auto B = subsets(box({2, 1})); for (size_t i = 0; i < B.size(); ++i) { E e = mkComp(Opts(), B[i]); addSet(mc::cat("subset", i), e->mset()); } }
    // views
    for (unsigned n : {0u, 1u, 5u}) { Kokkos::View<double*, HS> v("a label", n); for (unsigned i = 0; i < n; ++i) v(i) = 0.1 * i - 1; items.push_back(valueItem<Kokkos::View<double*, HS>>("view", mc::cat("view", n), v, [](Kokkos::View<double*, HS> const& r) { return sigView(r); }, [] { return Kokkos::View<double*, HS>("o", 3); })); }
    for (unsigned n : {0u, 1u, 3u}) for (unsigned k : {0u, 1u, 2u}) {
        Kokkos::View<double**, Kokkos::LayoutLeft, HS> v("m", n, k); Kokkos::View<double**, Kokkos::LayoutRight, HS> u("", n, k); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < k; ++j) { v(i, j) = i - 0.3 * j; u(i, j) = i * 7 + j; }
        items.push_back(valueItem<decltype(v)>("view2L", mc::cat("viewL", n, "x", k), v, [](decltype(v) const& r) { return sigView(r); }, [] { return decltype(v)("o", 2, 2); })); items.push_back(valueItem<decltype(u)>("view2R", mc::cat("viewR", n, "x", k), u, [](decltype(u) const& r) { return sigView(r); }, [] { return decltype(u)("o", 2, 2); }));
    }
    // bases
    for (int nm = 0; nm < 2; ++nm) {
        typedef mpart::ProbabilistHermite PB; typedef mpart::PhysicistHermite PY; typedef mpart::HermiteFunction HF;
        items.push_back(valueItem<PB>("prob", mc::cat("prob", nm), PB(nm), sigBasis<PB>, [nm] { return PB(!nm); })); items.push_back(valueItem<PY>("phys", mc::cat("phys", nm), PY(nm), sigBasis<PY>, [nm] { return PY(!nm); }));
        items.push_back(valueItem<HF>("hf", mc::cat("hf", nm), HF(), sigBasis<HF>, [] { return HF(); }));
        typedef mpart::LinearizedBasis<PB> LB; typedef mpart::LinearizedBasis<HF> LH;
        items.push_back(valueItem<LB>("linprob", mc::cat("linprob", nm), LB(PB(nm), -1.0, 0.5 + nm), sigBasis<LB>, [nm] { return LB(PB(!nm), 0, 1); })); items.push_back(valueItem<LH>("linhf", mc::cat("linhf", nm), LH(HF(), -0.5 - nm, 1.0), sigBasis<LH>, [] { return LH(HF(), 0, 1); }));
    }
    // rules
    for (unsigned fd : {1u, 3u}) for (int ext = 0; ext < 2; ++ext) {
        static double buf[4096];
        typedef mpart::ClenshawCurtisQuadrature<HS> CC; typedef mpart::AdaptiveSimpson<HS> AS; typedef mpart::AdaptiveClenshawCurtis<HS> AC;
        for (unsigned n : {1u, 2u, 7u}) items.push_back(valueItem<CC>(mc::cat("cc", fd), mc::cat("cc", n, ",", fd, ",", ext), ext ? CC(n, fd, buf) : CC(n, fd), [fd](CC const& q) { return sigQuad(q, fd); }, [] { return CC(4, 2); }));
        for (unsigned sub : {1u, 4u}) for (auto m : {mpart::QuadError::First, mpart::QuadError::NormInf, mpart::QuadError::Norm2}) for (unsigned mn = 0; mn < 2; ++mn) {
            items.push_back(valueItem<AS>(mc::cat("as", fd), mc::cat("as", sub, ",", fd, ",", (int)m, ",", mn, ",", ext), ext ? AS(sub, fd, buf, 1e-3, 1e-2, m, mn) : AS(sub, fd, 1e-3, 1e-2, m, mn), [fd](AS const& q) { return sigQuad(q, fd); }, [] { return AS(3, 2, 0.5, 0.25, mpart::QuadError::Norm1, 2); }));
            items.push_back(valueItem<AC>(mc::cat("acc", fd), mc::cat("acc", sub, ",", fd, ",", (int)m, ",", mn, ",", ext), ext ? AC(1, sub, fd, buf, 1e-3, 1e-2, m, mn) : AC(2, sub, fd, 1e-5, 1e-2, m, mn), [fd](AC const& q) { return sigQuad(q, fd); }, [] { return AC(1, 3, 2, 0.5, 0.25, mpart::QuadError::Norm1, 2); }));
        }
    }
    // expansion workers
    { typedef mpart::MultivariateExpansionWorker<mpart::ProbabilistHermite, HS> W; typedef mpart::MultivariateExpansionWorker<mpart::LinearizedBasis<mpart::HermiteFunction>, HS> WL;
      for (unsigned d = 1; d <= 3; ++d) for (unsigned p = 1; p <= 3; ++p) { items.push_back(valueItem<W>("worker", mc::cat("worker", d, ",", p), W(FS(d, p), mpart::ProbabilistHermite(p & 1)), [d](W const& w) { return sigWorker(w, w.InputSize()); }, [] { return W(FS(2, 1)); })); items.push_back(valueItem<WL>("workerL", mc::cat("workerL", d, ",", p), WL(FS(d, p), mpart::LinearizedBasis<mpart::HermiteFunction>(mpart::HermiteFunction(), -0.2 * p, 1.0)), [d](WL const& w) { return sigWorker(w, w.InputSize()); }, [] { return WL(FS(2, 1)); })); } }
    // components: every option set
    std::vector<Terms> sets = {totalOrder(1, 2), totalOrder(2, 2), {{1, 0}, {0, 2}, {2, 1}}};
    for (int b = 0; b < 3; ++b) for (int nm = 0; nm < 2; ++nm) for (int lin = 0; lin < 4; ++lin) for (int p = 0; p < 2; ++p) for (int q = 0; q < 3; ++q) for (int cont = 0; cont < 2; ++cont) for (double nug : {0.0, 0.375}) for (size_t s = 0; s < sets.size(); ++s) {
        if (!T && (s + b + nm + lin + p + q + cont + (nug > 0)) % 3) continue;      // quick: one of the three index sets per option set
        E e = mkComp(mkOpts(b, nm, lin, p, q, cont, nug), sets[s]); int w = (s + cont) % 3;
        items.push_back(ptrItem<MapP>("comp", mc::cat(e->name, "#", w), given(e, w))); if (s == 0 && nm) items.push_back(ptrItem<FunP>("comp", mc::cat(e->name, "#-"), asFun(given(e, -1))));
    }
    addUnset("prob", mpart::ProbabilistHermite()); addUnset("linhf", mpart::LinearizedBasis<mpart::HermiteFunction>());
    // triangular maps
    auto C = [](unsigned d, int i) { return mkComp(mkOpts(i % 3, 1, i % 4, i % 2, (i / 2) % 3, (i + 1) % 2, i % 2 ? 0.25 : 0), totalOrder(d, d >= 3 ? 1 : 2)); };
    std::vector<E> tris;
    for (int i = 0; i < 6; ++i) { tris.push_back(mkTri({C(1, i)})); tris.push_back(mkTri({C(2, i)})); for (int j = 0; j < 6; ++j) { tris.push_back(mkTri({C(1, i), C(2, j)})); tris.push_back(mkTri({C(2, i), C(3, j)})); if (i < 3) tris.push_back(mkTri({C(1, j), C(2, i), C(3, j + 1)})); } }
    E t12 = mkTri({C(1, 1), C(2, 2)}), t23 = mkTri({C(2, 0), C(3, 1)});
    tris.push_back(mkTri({t12})); tris.push_back(mkTri({t12, C(3, 0)})); tris.push_back(mkTri({C(1, 0), mkTri({C(2, 1)}), C(3, 2)})); tris.push_back(mkTri({C(1, 0), mkTri({C(2, 1), C(3, 4)})})); tris.push_back(mkTri({mkTri({t12}), mkTri({C(3, 5)})})); tris.push_back(mkTri({t12, mkTri({C(3, 0), C(4, 1)})})); tris.push_back(t23); tris.push_back(mkTri({t23, C(4, 2)})); tris.push_back(mkTri({mkTri({t12, C(3, 0)}), C(4, 3)}));
    for (auto& e : tris) { addMaps("tri", e->name + "#1", std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(given(e, 1))); items.push_back(ptrItem<std::shared_ptr<mpart::TriangularMap<HS>>>("tri", e->name + "#as-tri", std::dynamic_pointer_cast<mpart::TriangularMap<HS>>(given(e, 0)))); items.push_back(ptrItem<MapP>("tri", e->name + "#-", given(e, -1))); }
    { std::vector<MapP> v; for (unsigned d = 1; d <= 40; ++d) v.push_back(given(mkComp(mkOpts(0, 1, 0, 0, 0, 1, 0), Terms{std::vector<unsigned>(d, 0), [&] { std::vector<unsigned> t(d, 0); t[d - 1] = 1; return t; }()}), 0)); auto m = std::make_shared<mpart::TriangularMap<HS>>(v, true); items.push_back(ptrItem<MapP>("tri", "forty-blocks", m)); }
    // blocks whose coefficients were never given, in a map that was not given any either; a map that owns only some levels
    { typedef mpart::MultivariateExpansionWorker<mpart::ProbabilistHermite, HS> W; typedef mpart::MonotoneComponent<W, mpart::SoftPlus, mpart::AdaptiveSimpson<HS>, HS> MC;
      auto mk = [&](unsigned d) { return std::make_shared<MC>(W(FS(d, 2)), mpart::AdaptiveSimpson<HS>(5, 1, nullptr, 1e-4, 1e-3, mpart::QuadError::First), true, 0.25); };
      items.push_back(ptrItem<MapP>("unset", "unset-tri", std::make_shared<mpart::TriangularMap<HS>>(std::vector<MapP>{mk(1), mk(2)})));
      auto inner = std::make_shared<mpart::TriangularMap<HS>>(std::vector<MapP>{mk(1), mk(2)}); items.push_back(ptrItem<MapP>("unset", "unset-nested-tri", std::make_shared<mpart::TriangularMap<HS>>(std::vector<MapP>{inner, mk(3)})));
      auto given2 = std::make_shared<mpart::TriangularMap<HS>>(std::vector<MapP>{mk(1), mk(2)}); Expr::setC(*given2, coeffs(given2->numCoeffs, 1)); items.push_back(ptrItem<MapP>("tri", "given-later-tri", given2));
      items.push_back(ptrItem<MapP>("unset", "inner-given-outer-not", std::make_shared<mpart::TriangularMap<HS>>(std::vector<MapP>{given2, mk(3)}))); }
}
static Bytes saved(Item const& it) { std::ostringstream s; cereal::BinaryOutputArchive a(s); it.save(a); return s.str(); }
template <class F> std::string attempt(F f) { try { return f(); } catch (std::exception& e) { return std::string("EXCEPTION ") + e.what(); } }

int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews(); bool T = mc::ctx().thorough;
    makeItems(T); mc::count("objects", mc::ctx().shard == 0 ? items.size() : 0);
    // (1) each object alone: restore, restore over other contents, write again, every truncation
    std::map<std::string, std::vector<size_t>> byKind; for (size_t i = 0; i < items.size(); ++i) byKind[items[i].kind].push_back(i);
    for (size_t i = 0; i < items.size(); ++i) {
        Item& it = items[i]; if (!mc::take("object " + it.name)) continue;
        Bytes b = attempt([&] { return saved(it); }); mc::distinct(mc::hashStr(b));
        if (b.compare(0, 9, "EXCEPTION") == 0) { mc::viol("not-saved", b); continue; }
        for (int poison : {-1, 0xA5, 256}) {
            heap::poison() = poison; std::string s = attempt([&] { std::istringstream in(b); cereal::BinaryInputArchive a(in); std::string r = it.load(a); if (in.peek() != EOF) r = "bytes are left over"; return r; }); heap::poison() = -1;
            mc::count("transitions"); mc::count("traces");
            if (s != it.sig) mc::viol("restored-differs", mc::cat("memory ", poison, "\n restored ", s.substr(0, 400), "\n original ", it.sig.substr(0, 400)));
        }
        std::ostringstream again; std::string s = attempt([&] { std::istringstream in(b); cereal::BinaryInputArchive a(in); cereal::BinaryOutputArchive o(again); return it.reload(a, o); });
        std::string s2 = attempt([&] { std::istringstream in(again.str()); cereal::BinaryInputArchive a(in); return it.load(a); }); mc::count("transitions", 2);
        if (s == it.sig && s2 != it.sig) mc::viol("second-generation-differs", mc::cat("\n restored ", s2.substr(0, 400), "\n original ", it.sig.substr(0, 400)));
        if (attempt([&] { return saved(it); }) != b) mc::viol("saving-changed-it", "writing the object a second time gives other bytes");
        // over every earlier content (quick: a spread of twelve)
        auto& K = byKind[it.kind]; size_t step = T ? std::max<size_t>(1, K.size() / 60) : std::max<size_t>(1, K.size() / 12);
        for (size_t k = i % step; k < K.size(); k += step) {
            Item& before = items[K[k]]; Bytes pb = saved(before); mc::count("transitions", 2); mc::count("traces");
            std::string s = attempt([&] { std::istringstream in(pb), in2(b); cereal::BinaryInputArchive a(in), a2(in2); return it.loadOver(a, a2); });
            // the earlier stream may be of another pointer type of the same family: then it is refused, which is not what is asked here
            if (s != it.sig && s.find("EXCEPTION") == std::string::npos) mc::viol("depends-on-earlier-content", mc::cat("after ", before.name, "\n restored ", s.substr(0, 300), "\n original ", it.sig.substr(0, 300)));
        }
        // every truncation
        for (size_t cut = 0; cut < b.size(); ++cut) {
            mc::count("truncations"); mc::count("transitions"); bool threw = false; std::string r;
            heap::poison() = cut % 2 ? 0xA5 : -1;
            try { std::istringstream in(b.substr(0, cut)); cereal::BinaryInputArchive a(in); r = it.load(a); } catch (std::exception&) { threw = true; }
            heap::poison() = -1;
            if (!threw) { mc::viol("truncation-accepted", mc::cat("cut to ", cut, " of ", b.size(), " bytes; restored ", r.substr(0, 200))); break; }
        }
        if (attempt([&] { std::istringstream in(b); cereal::BinaryInputArchive a(in); return it.load(a); }) != it.sig) mc::viol("failed-restore-has-consequences", "after failed restores the whole stream no longer gives the object");
    }
    // (2) histories: every sequence of saves into one stream, one archive for all or one each, restored in the same order
    std::vector<size_t> menu; { std::set<std::string> kinds; for (size_t i = 0; i < items.size(); ++i) { std::string k = items[i].kind; int n = 0; for (size_t m : menu) n += items[m].kind == k; if (n < ((k == "comp" || k == "tri") ? (T ? 3 : 2) : k == "set" ? 2 : 1)) { if ((k == "comp" || k == "tri" || k == "set" || k == "options") ? i % 5 == 2 : true) menu.push_back(i); } } }
    std::vector<std::vector<size_t>> seqs; for (size_t a : menu) for (size_t b : menu) { seqs.push_back({a, b}); if (T) for (size_t c : menu) seqs.push_back({a, b, c}); }
    if (!T) { std::vector<size_t> few; for (size_t m : menu) { std::string k = items[m].kind; if (k == "comp" || k == "tri" || k == "set" || k == "options" || k == "unset") few.push_back(m); } for (size_t a : few) for (size_t b : few) for (size_t c : few) seqs.push_back({a, b, c}); }
    for (auto& q : seqs) for (int shared = 0; shared < 2; ++shared) {
        std::string name = "history"; for (size_t m : q) name += " " + items[m].name; name += shared ? " one-archive" : " archives"; if (!mc::take(name)) continue;
        std::stringstream ss;
        std::string w = attempt([&] { if (shared) { cereal::BinaryOutputArchive a(ss); for (size_t m : q) items[m].save(a); } else for (size_t m : q) { cereal::BinaryOutputArchive a(ss); items[m].save(a); } return std::string(); });
        if (w.size()) { mc::viol("not-saved", w); continue; }
        mc::distinct(mc::hashStr(ss.str())); mc::count("traces"); std::vector<std::string> got;
        heap::poison() = 0xA5;
        std::string r = attempt([&] { if (shared) { cereal::BinaryInputArchive a(ss); for (size_t m : q) { got.push_back(items[m].load(a)); } } else for (size_t m : q) { cereal::BinaryInputArchive a(ss); got.push_back(items[m].load(a)); } return std::string(); });
        heap::poison() = -1; mc::count("transitions", 2 * q.size());
        if (r.size()) { mc::viol("history-not-restored", r); continue; }
        for (size_t k = 0; k < q.size(); ++k) if (got[k] != items[q[k]].sig) { mc::viol("history-restored-differs", mc::cat("object ", k, "\n restored ", got[k].substr(0, 300), "\n original ", items[q[k]].sig.substr(0, 300))); break; }
    }
    // (3) another size: the tail of a component's stream holds its coefficients; every other number of them is an error
    for (int i = 0; i < 12; ++i) for (unsigned other = 0; other < 9; ++other) {
        E e = mkComp(mkOpts(i % 3, i & 1, i % 4, (i / 2) % 2, i % 3, 1, 0), totalOrder(1 + i % 2, 2)); MapP m = given(e, 0);
        if (!mc::take(mc::cat("splice ", e->name, " with ", other, " coefficients"))) continue;
        std::ostringstream s, t; { cereal::BinaryOutputArchive a(s); a(m); } { Kokkos::View<double*, HS> v = m->Coeffs(); cereal::BinaryOutputArchive a(t); a(v); }
        Bytes b = s.str(), tail = t.str(); if (b.size() < tail.size() || b.compare(b.size() - tail.size(), tail.size(), tail)) { mc::count("splices-not-applicable"); continue; }
        std::ostringstream u; { Kokkos::View<double*, HS> v(std::string(m->Coeffs().label()), other); for (unsigned k = 0; k < other; ++k) v(k) = 0.5; cereal::BinaryOutputArchive a(u); a(v); }
        Bytes x = b.substr(0, b.size() - tail.size()) + u.str(); mc::count("transitions"); mc::distinct(mc::hashStr(x));
        if (other == e->nc || other == 0) continue;   // the right number, or none: a component without coefficients
        bool threw = false; try { std::istringstream in(x); cereal::BinaryInputArchive a(in); MapP r; a(r); } catch (std::exception&) { threw = true; }
        if (!threw) mc::viol("another-size-accepted", mc::cat("a component with ", e->nc, " terms was restored from a stream holding ", other, " coefficients, silently"));
    }
    // (4) what cannot be saved is refused, and stays as it was
    { std::vector<E> no = {mkIdent(2, 2), mkAffine(2, 2, true, true), mkComposed({mkTri({mkComp(Opts(), totalOrder(1, 1)), mkComp(Opts(), totalOrder(2, 1))})}, 1), mkSumm(mkAffine(2, 1, true, true, 0, AFFFUN), mkComp(Opts(), totalOrder(2, 1))), mkTri({mkIdent(1, 1), mkComp(Opts(), totalOrder(2, 1))}), mkTri({mkComp(Opts(), totalOrder(1, 1)), mkIdent(2, 1)})};
      for (auto& e : no) { if (!mc::take("refusal " + e->name)) continue; MapP m = given(e, 0); std::string s = sigMap(*m); std::ostringstream o;
        std::string r = attempt([&] { m->Save(o); return std::string("saved"); }); mc::count("transitions");
        if (r == "saved") { std::istringstream in(o.str()); std::string s2 = attempt([&] { auto q = mpart::ParameterizedFunctionBase<HS>::Load(in); return sigMap(*q); }); if (s2 != s) mc::viol("restored-differs", s2.substr(0, 300)); }
        else { bool threw = false; try { std::istringstream in(o.str()); mpart::ParameterizedFunctionBase<HS>::Load(in); } catch (std::exception&) { threw = true; } if (!threw) mc::viol("truncation-accepted", "what a refused save left behind was restored"); }
        if (sigMap(*m) != s) mc::viol("saving-changed-it", "a refused save changed the map"); } }
    items.clear(); Kokkos::finalize(); return mc::finish();
}
