// C22: ill-formed requests raise and change nothing. (1) Explicit-state exploration of request histories on the real objects: states
// {no coefficients, default, c0, c1}, requests well-formed and ill-formed, after every request the full observable behaviour of the
// object is compared with that of a fresh object in the model's state. (2) Every assembly of small pieces, fitting or not.
#include "exact_alloc.h"
#include "gauss.h"
#include "MParT/MapObjective.h"
#include "MParT/TrainMap.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
#include <cstring>
#include <limits>
typedef mpart::TriangularMap<HS> Tri; typedef mpart::ComposedMap<HS> Comp; typedef std::shared_ptr<mpart::ParameterizedFunctionBase<HS>> FP;
static const double inf_ = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
static Kokkos::View<double*, HS> vec(Vec const& c) { Kokkos::View<double*, HS> v("v", c.size()); for (size_t i = 0; i < c.size(); ++i) v(i) = c[i]; return v; }
static Kokkos::View<double**, HS> pts(unsigned d, unsigned n) { Kokkos::View<double**, HS> v("pts", d, n); for (unsigned j = 0; j < n; ++j) { Vec p = point(d, j + 1); for (unsigned i = 0; i < d; ++i) v(i, j) = p[i]; } return v; }
template <class F> static bool raises(F const& f) { try { f(); return false; } catch (std::exception&) { return true; } }

// ---- everything an object answers, through the checked interfaces; a query that raises contributes "raised"
static std::string behaviour(FP f) {
    std::string s; unsigned in = f->inputDim, out = f->outputDim; auto m = std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(f);
    Kokkos::View<double**, HS> x = pts(in, 3), y = pts(out, 3); CM X = x, Y = y; Eigen::RowMatrixXd ex(in, 3), ey(out, 3); for (int j = 0; j < 3; ++j) { for (unsigned i = 0; i < in; ++i) ex(i, j) = x(i, j); for (unsigned i = 0; i < out; ++i) ey(i, j) = y(i, j); }
    auto add = [&](auto&& q) { try { auto r = q(); for (size_t i = 0; i < (size_t)r.size(); ++i) s.append((const char*)(r.data() + i), 8); s += ";"; } catch (std::exception&) { s += "raised;"; } };
    auto mat = [](CM q) { std::vector<double> v; for (size_t i = 0; i < q.extent(0); ++i) for (size_t j = 0; j < q.extent(1); ++j) v.push_back(q(i, j)); return v; };
    auto eig = [](Eigen::RowMatrixXd const& q) { return std::vector<double>(q.data(), q.data() + q.size()); };
    typedef Eigen::Ref<const Eigen::RowMatrixXd> R;
    add([&] { return mat(f->Evaluate(X)); }); add([&] { return eig(f->Evaluate(R(ex))); });
    add([&] { return mat(f->Gradient(X, Y)); }); add([&] { return eig(f->Gradient(R(ex), R(ey))); });
    add([&] { return mat(f->CoeffGrad(X, Y)); }); add([&] { return eig(f->CoeffGrad(R(ex), R(ey))); });
    if (m) {
        add([&] { auto q = m->LogDeterminant(X); std::vector<double> v(q.extent(0)); for (size_t i = 0; i < v.size(); ++i) v[i] = q(i); return v; }); add([&] { Eigen::VectorXd q = m->LogDeterminant(R(ex)); return std::vector<double>(q.data(), q.data() + q.size()); });
        add([&] { return mat(m->LogDeterminantCoeffGrad(X)); }); add([&] { return eig(m->LogDeterminantCoeffGrad(R(ex))); });
        add([&] { return mat(m->LogDeterminantInputGrad(X)); }); add([&] { return eig(m->LogDeterminantInputGrad(R(ex))); });
        add([&] { CM z = m->Evaluate(X); return mat(m->Inverse(X, z)); }); add([&] { Eigen::RowMatrixXd z = m->Evaluate(R(ex)); return eig(m->Inverse(R(ex), R(z))); });
    }
    add([&] { auto q = f->CoeffMap(); return std::vector<double>(q.data(), q.data() + q.size()); });
    s += mc::cat(f->numCoeffs, " ", f->inputDim, " ", f->outputDim); return s;
}
// no query of an object without coefficients may answer
static bool allRaised(FP f, std::string& which) {
    unsigned in = f->inputDim, out = f->outputDim; auto m = std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(f); Kokkos::View<double**, HS> x = pts(in, 3), y = pts(out, 3); CM X = x, Y = y; Eigen::RowMatrixXd ex = Eigen::RowMatrixXd::Constant(in, 3, 0.25), ey = Eigen::RowMatrixXd::Constant(out, 3, 0.5); typedef Eigen::Ref<const Eigen::RowMatrixXd> R;
    bool ok = true; auto need = [&](const char* n, auto&& q) { mc::count("unset_queries"); if (!raises(q)) { ok = false; which += n; which += " "; } };
    need("Evaluate", [&] { f->Evaluate(X); }); need("Evaluate(Eigen)", [&] { f->Evaluate(R(ex)); }); need("Gradient", [&] { f->Gradient(X, Y); }); need("Gradient(Eigen)", [&] { f->Gradient(R(ex), R(ey)); }); need("CoeffGrad", [&] { f->CoeffGrad(X, Y); }); need("CoeffGrad(Eigen)", [&] { f->CoeffGrad(R(ex), R(ey)); }); need("CoeffMap", [&] { f->CoeffMap(); });
    if (m) { need("LogDeterminant", [&] { m->LogDeterminant(X); }); need("LogDeterminant(Eigen)", [&] { m->LogDeterminant(R(ex)); }); need("LogDeterminantCoeffGrad", [&] { m->LogDeterminantCoeffGrad(X); }); need("LogDeterminantCoeffGrad(Eigen)", [&] { m->LogDeterminantCoeffGrad(R(ex)); }); need("LogDeterminantInputGrad", [&] { m->LogDeterminantInputGrad(X); }); need("LogDeterminantInputGrad(Eigen)", [&] { m->LogDeterminantInputGrad(R(ex)); }); need("Inverse", [&] { m->Inverse(X, Y); }); need("Inverse(Eigen)", [&] { m->Inverse(R(ex), R(ey)); });
        // through densities, samplers and objectives
        if (1) { auto g = std::make_shared<G>(out); need("PullbackDensity", [&] { mpart::PullbackDensity<HS> p(m, g); p.LogDensity(X); }); need("PullbackDensity gradient", [&] { mpart::PullbackDensity<HS> p(m, g); p.LogDensityInputGrad(X); }); need("PullbackDensity coefficient gradient", [&] { mpart::PullbackDensity<HS> p(m, g); p.LogDensityCoeffGrad(X); });
            need("objective", [&] { mpart::KLObjective<HS> o(X, g); o.TrainError(m); }); need("objective gradient", [&] { mpart::KLObjective<HS> o(X, g); o.TrainCoeffGrad(m); });
            if (in == out) { need("PushforwardDensity", [&] { mpart::PushforwardDensity<HS> p(m, g); p.LogDensity(X); }); need("PushforwardSampler", [&] { mpart::PushforwardSampler<HS> p(m, g); p.Sample(3); }); need("PullbackSampler", [&] { mpart::PullbackSampler<HS> p(m, g); p.Sample(3); }); } } }
    return ok;
}
enum { UNSET, DEFAULT, C0, C1 };
static void histories(E e, unsigned depth, bool T) {
    bool fn = e->kind == EXPAN || e->kind == AFFFUN; unsigned n = e->nc; auto make = [&]() -> FP { if (fn) return e->buildFun(); return e->build(); };
    Vec c0 = coeffs(n, 0), c1 = coeffs(n, 3); FP probe = make(); int start = n && !probe->CheckCoefficients() ? UNSET : DEFAULT;
    std::string ref[4]; bool known[4] = {}; std::string which;
    if (start == DEFAULT) { ref[DEFAULT] = behaviour(probe); known[DEFAULT] = true; } else if (!allRaised(probe, which)) { mc::viol("answered-without-coefficients", mc::cat(e->name, ": ", which)); return; }
    for (int k : {C0, C1}) { FP f = make(); f->SetCoeffs(Kokkos::View<const double*, HS>(vec(k == C0 ? c0 : c1))); ref[k] = behaviour(f); known[k] = true; }
    ref[UNSET] = behaviour(make()); known[UNSET] = true; if (start == DEFAULT) ref[UNSET] = "";
    const int OPS = 15; auto m0 = std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(probe); std::vector<int> h;
    // apply a request; returns whether it raised, and whether it should
    auto apply = [&](FP f, int op, int& state, bool& expect, std::vector<Kokkos::View<double*, HS>>& keep) -> bool {
        auto m = std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(f); expect = true; Eigen::VectorXd z;
        auto eigen = [&](size_t k) -> Eigen::VectorXd& { z.setConstant(k, 0.7); return z; }; Vec w; Kokkos::View<double*, HS> v;
        switch (op) {
        case 0: expect = false; { bool r = raises([&] { f->SetCoeffs(Kokkos::View<const double*, HS>(vec(c0))); }); if (!r) state = C0; return r; }
        case 1: expect = false; { z.resize(n); for (unsigned i = 0; i < n; ++i) z(i) = c1[i]; bool r = raises([&] { f->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(z)); }); if (!r) state = C1; return r; }
        case 2: expect = false; { v = vec(c0); keep.push_back(v); bool r = raises([&] { f->WrapCoeffs(v); }); if (!r) state = C0; return r; }
        case 3: if (!n) { expect = false; return false; } return raises([&] { f->SetCoeffs(Kokkos::View<const double*, HS>(vec(Vec(n - 1, 0.3)))); });
        case 4: return raises([&] { f->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(eigen(n + 1))); });
        case 5: v = vec(Vec(n + 1, 0.3)); keep.push_back(v); return raises([&] { f->WrapCoeffs(v); });
        case 6: if (!n) { expect = false; return false; } return raises([&] { f->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(eigen(n - 1))); });
        case 7: return raises([&] { f->SetCoeffs(Kokkos::View<const double*, HS>(vec(Vec(2 * n + 1, 0.3)))); });
        default: break;
        }
        if (!m) { expect = false; return false; }
        unsigned in = m->inputDim, out = m->outputDim;
        switch (op) {
        case 8: { Kokkos::View<double**, HS> x = pts(in, 3), y = pts(out, 2); return raises([&] { m->Inverse(CM(x), CM(y)); }); }
        case 9: { MapP o = mkIdent(in + out + 3, out + 1)->build(); return raises([&] { Tri t({m, o}, false); }); }
        case 10: { MapP o = mkTri({comp(in + 1, 0)})->build(); return raises([&] { Tri t({m, o}, true); }); }          // the other piece has no coefficients
        case 11: { MapP o = mkIdent(in + 1, in + 1)->build(); return raises([&] { Comp t({m, o}, true); }); }
        case 12: { auto g = std::make_shared<G>(out + 1); return raises([&] { mpart::PullbackDensity<HS> p(m, g); }); }
        case 13: { auto g = std::make_shared<G>(out + 2); return raises([&] { mpart::PushforwardSampler<HS> p(m, g); }); }
        default: { Kokkos::View<double**, HS> x = pts(in, 3); auto o = mpart::ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(x), out); return raises([&] { o->TestError(m); }); }
        }
    };
    bool stop = false;
    std::function<void()> go = [&] {
        if (stop) return;
        if (h.size()) {
            mc::count("traces"); FP f = make(); int state = start; std::vector<Kokkos::View<double*, HS>> keep; std::string log;
            for (size_t i = 0; i < h.size(); ++i) {
                bool expect; bool r = apply(f, h[i], state, expect, keep); log += mc::cat(h[i], "/"); 
                if (i + 1 < h.size()) continue;
                mc::count("transitions"); mc::distinct(mc::hashStr(mc::cat(e->name, " ", state, " ", h[i]))); 
                if (expect != r) { mc::viol(expect ? "not-refused" : "refused", mc::cat(e->name, " request ", h[i], " after ", log)); stop = true; return; }
                if (behaviour(f) != ref[state]) { mc::viol("behaviour-changed", mc::cat(e->name, " requests ", log, " (model state ", state, ")")); stop = true; return; }
            }
            std::string w; FP q = f; if (state == UNSET && !allRaised(q, w)) { mc::viol("answered-without-coefficients", mc::cat(e->name, " after ", log, ": ", w)); stop = true; return; }
            if (n && state != UNSET) { FP g = f; Vec c(n); for (unsigned i = 0; i < n; ++i) c[i] = f->Coeffs()(i); if ((state == C0 && c != c0) || (state == C1 && c != c1)) { mc::viol("coefficients-changed", mc::cat(e->name, " requests ", log)); stop = true; return; } }
        }
        if (h.size() < depth) for (int o = 0; o < OPS; ++o) { h.push_back(o); go(); h.pop_back(); }
    };
    go();
}
// ---- assemblies
struct Piece { std::string name; MapP m; bool set; };
static MapP plain(unsigned in, unsigned out, int kind) {   // kind 0: identity, 1: affine, 2: component / triangular with coefficients, 3: without
    if (kind == 0) return mkIdent(in, out)->build();
    if (kind == 1) return mkAffine(in, out, true, true)->build();
    std::vector<E> ch; for (unsigned i = 0; i < out; ++i) ch.push_back(comp(in - out + i + 1, i)); E e = mkTri(ch); MapP m = e->build(); if (kind == 2) Expr::setC(*m, coeffs(e->nc, 0)); return m;
}
struct Shape { unsigned in, out; int kind; };
static std::vector<Shape> shapes(bool T) { std::vector<Shape> r; for (unsigned in = 1; in <= 3; ++in) for (unsigned out = 1; out <= in; ++out) for (int k = 0; k < 4; ++k) if (T || k != 1 || in == out) r.push_back({in, out, k}); return r; }
static void expect(const char* cls, std::string const& what, bool ill, std::function<void()> const& f) { mc::count(ill ? "ill_formed" : "well_formed"); mc::distinct(mc::hashStr(cls + what)); bool r = raises(f); if (r != ill) mc::viol(ill ? "not-refused" : "refused", mc::cat(cls, " ", what)); }
// pieces used in a refused assembly answer as before
static void assemble(bool composed, std::vector<Shape> const& s, bool move, int checks) {
    std::vector<MapP> p; std::string what = composed ? "composed" : "triangular"; bool ill = s.empty(); unsigned nc = 0;
    for (size_t i = 0; i < s.size(); ++i) { p.push_back(plain(s[i].in, s[i].out, s[i].kind)); what += mc::cat(" ", s[i].in, ">", s[i].out, "/", s[i].kind); nc += p[i]->numCoeffs; if (composed) { if (s[i].in != s[i].out || s[i].in != s[0].in) ill = true; } else if (i && s[i].in != s[i - 1].in + s[i].out) ill = true; if (move && s[i].kind == 3) ill = true; }
    what += move ? " moving coefficients" : ""; std::vector<std::string> before; for (auto& m : p) before.push_back(behaviour(m)); MapP r;
    expect("assembly", what, ill, [&] { if (composed) r = std::make_shared<Comp>(p, move, checks); else r = std::make_shared<Tri>(p, move); });
    if (ill || !r) { for (size_t i = 0; i < p.size(); ++i) if (behaviour(p[i]) != before[i]) mc::viol("piece-changed", mc::cat(what, ", piece ", i)); return; }
    unsigned out = 0; for (auto& m : p) out += m->outputDim; if (composed) out = p[0]->outputDim; if (r->inputDim != p.back()->inputDim || r->outputDim != out || r->numCoeffs != nc) mc::viol("dimensions", what);
    if (!move && nc) { std::string w; if (!allRaised(r, w)) mc::viol("answered-without-coefficients", what + ": " + w); r->SetCoeffs(Kokkos::View<const double*, HS>(vec(coeffs(nc, 0)))); }
    if (nc) for (auto& bad : {nc - 1, nc + 1}) if (!raises([&] { r->SetCoeffs(Kokkos::View<const double*, HS>(vec(Vec(bad, 0.1)))); })) mc::viol("not-refused", what + " coefficients");
    Kokkos::View<double**, HS> x = pts(r->inputDim, 3); CM y; if (raises([&] { y = r->Evaluate(CM(x)); })) { mc::viol("refused", what + " evaluation"); return; } for (size_t i = 0; i < y.extent(0); ++i) for (size_t j = 0; j < 3; ++j) if (!std::isfinite(y(i, j))) mc::viol("not-a-number", what);
    auto ld = r->LogDeterminant(CM(x)); for (size_t j = 0; j < 3; ++j) if (!std::isfinite(ld(j))) mc::viol("not-a-number", what + " log-determinant");
    // component access beyond the end
    auto get = [&](unsigned i) { if (composed) std::dynamic_pointer_cast<Comp>(r)->GetComponent(i); else std::dynamic_pointer_cast<Tri>(r)->GetComponent(i); }; for (unsigned i = 0; i < p.size(); ++i) if (raises([&] { get(i); })) mc::viol("refused", what + " component"); for (unsigned i : {(unsigned)p.size(), (unsigned)p.size() + 1, 4294967295u}) if (!raises([&] { get(i); })) mc::viol("not-refused", what + " component beyond the end");
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews(); { bool T = mc::ctx().thorough;
    // (1) request histories
    std::map<int, unsigned> seen; std::map<std::string, bool> dup;
    enumerate([&](E e) {
        unsigned q = seen[(int)e->kind]++; unsigned step = e->kind == COMP ? 97 : e->kind == TRI ? 29 : e->kind == COMPOSED ? 31 : e->kind == SUMM ? 5 : e->kind == EXPAN ? 25 : 7; if (T) step = (step + 2) / 3; if (q % step || e->nc > 25) return;
        if (!mc::take("history/" + e->name)) return; histories(e, e->kind == COMPOSED ? 2 : T ? 3 : 2, T);
    }, T);
    // (2) assemblies: every sequence of up to three pieces
    auto S = shapes(T);
    for (int composed = 0; composed < 2; ++composed) {
        if (mc::take(mc::cat("empty/", composed))) { assemble(composed, {}, false, -1); assemble(composed, {}, true, 1); }
        for (auto& a : S) { std::string key = mc::cat(composed ? "composed/" : "triangular/", a.in, ">", a.out, "/", a.kind); if (!mc::take(key)) continue;
            for (int mv = 0; mv < 2; ++mv) { assemble(composed, {a}, mv, 1); for (auto& b : S) { assemble(composed, {a, b}, mv, -1); for (auto& c : S) { if (!T && (c.in + c.kind + b.kind + a.in + a.kind) % 4) continue; assemble(composed, {a, b, c}, mv, 2); } } } }
    }
    for (unsigned si = 1; si <= 3; ++si) for (unsigned so = 1; so <= 3; ++so) for (int sk = 0; sk < 3; ++sk) { if (so > si && sk != 1) continue; std::string key = mc::cat("summarized/", si, ">", so, "/", sk); if (!mc::take(key)) continue;
        for (auto& c : S) { auto fun = [&](bool set) -> FP { if (sk == 0) return mkIdent(si, so)->build(); if (sk == 2) return mkAffine(si, so, true, true, 0, AFFFUN)->buildFun(); FP f = mpart::MapFactory::CreateExpansion<HS>(so, mpart::FixedMultiIndexSet<HS>(si, 1), simple(0)); return f; };
            bool ill = c.out != 1 || c.in != so + 1; MapP k = plain(c.in, c.out, c.kind); std::string b = behaviour(k); MapP r; expect("summary", mc::cat(key, " with ", c.in, ">", c.out, "/", c.kind), ill, [&] { r = std::make_shared<mpart::SummarizedMap<HS>>(fun(true), k); });
            if (ill && behaviour(k) != b) mc::viol("piece-changed", key); if (r) { if (r->inputDim != si + 1 || r->outputDim != 1 || r->numCoeffs != k->numCoeffs) mc::viol("dimensions", key); if (r->numCoeffs) { std::string w; if (!allRaised(r, w)) mc::viol("answered-without-coefficients", key + ": " + w); } } } }
    // a summary function that has no coefficients
    for (int k = 0; k < 2; ++k) if (mc::take(mc::cat("summarized/unset/", k))) { E t = mkTri({comp(1, 0), comp(2, 1)}), c = comp(3, 0); FP s = t->build(); MapP inner = c->build(); auto r = std::make_shared<mpart::SummarizedMap<HS>>(s, inner); r->SetCoeffs(Kokkos::View<const double*, HS>(vec(coeffs(c->nc, 0)))); std::string w; mc::distinct(mc::hashStr(mc::ctx().current));
        // coefficient-free queries of the function itself aside, every answer needs the summary
        MapP m = k ? std::static_pointer_cast<mpart::ConditionalMapBase<HS>>(std::make_shared<Tri>(std::vector<MapP>{mkIdent(2, 2)->build(), r}, true)) : r; Kokkos::View<double**, HS> x = pts(3, 3), y = pts(m->outputDim, 3); CM X = x, Y = y;
        auto need = [&](const char* n, std::function<void()> f) { mc::count("unset_queries"); if (!raises(f)) mc::viol("answered-without-coefficients", mc::cat("summary function, ", n)); };
        need("Evaluate", [&] { m->Evaluate(X); }); need("Gradient", [&] { m->Gradient(X, Y); }); need("CoeffGrad", [&] { m->CoeffGrad(X, Y); }); need("LogDeterminant", [&] { m->LogDeterminant(X); }); need("LogDeterminantCoeffGrad", [&] { m->LogDeterminantCoeffGrad(X); }); need("LogDeterminantInputGrad", [&] { m->LogDeterminantInputGrad(X); }); need("Inverse", [&] { m->Inverse(X, Y); });
        s->SetCoeffs(Kokkos::View<const double*, HS>(vec(coeffs(t->nc, 1)))); E want = mkSumm([&] { E z = mkTri({comp(1, 0), comp(2, 1)}); z->own = coeffs(t->nc, 1); return z; }(), comp(3, 0)); MapP f = want->build(); Expr::setC(*f, coeffs(c->nc, 0)); if (!k && behaviour(m) != behaviour(f)) mc::viol("behaviour-changed", "after supplying the summary's coefficients"); }
    for (unsigned dim = 0; dim <= 4; ++dim) for (unsigned act = 0; act <= 5; ++act) for (unsigned in = 1; in <= 4; ++in) { std::string key = mc::cat("single/", dim, "/", act, "/", in); if (!mc::take(key)) continue;
        MapP c = comp(in, 0)->build(), r; bool ill = act == 0 || act > dim || in != act; expect("single-entry", key, ill, [&] { r = mpart::MapFactory::CreateSingleEntryMap<HS>(dim, act, c); }); if (!r || ill) continue;
        if (r->inputDim != dim || r->outputDim != dim || r->numCoeffs != c->numCoeffs) { mc::viol("dimensions", key); continue; } Expr::setC(*r, coeffs(r->numCoeffs, 0)); MapP q = comp(in, 0)->build(); Expr::setC(*q, coeffs(q->numCoeffs, 0)); Kokkos::View<double**, HS> x = pts(dim, 3), xs("x", in, 3); for (int j = 0; j < 3; ++j) for (unsigned i = 0; i < in; ++i) xs(i, j) = x(i, j); CM y, z = q->Evaluate(CM(xs)); if (raises([&] { y = r->Evaluate(CM(x)); })) { mc::viol("refused", key); continue; } for (unsigned i = 0; i < dim; ++i) for (int j = 0; j < 3; ++j) if (y(i, j) != (i + 1 == act ? z(0, j) : x(i, j))) mc::viol("wrong-entry", key); }
    for (unsigned in = 0; in <= 3; ++in) for (unsigned out = 0; out <= 4; ++out) for (unsigned ord = 0; ord <= 2; ++ord) { std::string key = mc::cat("triangular-factory/", in, ">", out, "/", ord); if (!mc::take(key)) continue; MapP r; expect("factory", key, out == 0 || out > in, [&] { r = mpart::MapFactory::CreateTriangular<HS>(in, out, ord, simple(0)); }); if (r && (r->inputDim != in || r->outputDim != out)) mc::viol("dimensions", key); }
    for (unsigned in = 1; in <= 3; ++in) for (unsigned out = 1; out <= 4; ++out) { std::string key = mc::cat("identity/", in, ">", out); if (!mc::take(key)) continue; expect("identity", key, out > in, [&] { auto m = std::make_shared<mpart::IdentityMap<HS>>(in, out); Kokkos::View<double**, HS> x = pts(in, 2); m->Evaluate(CM(x)); }); }
    for (unsigned r = 1; r <= 4; ++r) for (unsigned c = 1; c <= 3; ++c) for (unsigned b = 0; b <= 4; ++b) for (int fun = 0; fun < 2; ++fun) { std::string key = mc::cat(fun ? "affine-function/" : "affine-map/", r, "x", c, "+", b); if (!mc::take(key)) continue; // b 0: no shift
        Kokkos::View<double**, HS> A("A", r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) A(i, j) = (i == j + r - c || i == j ? 2.0 : 0.25) + 0.1 * i; Kokkos::View<double*, HS> v = vec(Vec(b, 0.5)); M AA = A; StridedVector<double, HS> bb = v; bool ill = (b && b != r) || (!fun && r > c);
        if (fun && r > c) continue;   // wide summaries only are documented; more outputs than inputs: either answer
        expect("affine", key, ill, [&] { FP f; if (fun) { if (b) f = std::make_shared<mpart::AffineFunction<HS>>(AA, bb); else f = std::make_shared<mpart::AffineFunction<HS>>(AA); } else { if (b) f = std::make_shared<mpart::AffineMap<HS>>(AA, bb); else f = std::make_shared<mpart::AffineMap<HS>>(AA); } Kokkos::View<double**, HS> x = pts(c, 2); f->Evaluate(CM(x)); }); }
    // densities, samplers and distributions
    for (auto& s : S) for (unsigned d = 1; d <= 3; ++d) { std::string key = mc::cat("density/", s.in, ">", s.out, "/", s.kind, "/", d); if (!mc::take(key)) continue; MapP m = plain(s.in, s.out, s.kind); auto g = std::make_shared<G>(d); std::string b = behaviour(m); bool sq = s.in == s.out;
        expect("pullback density", key, s.out != d, [&] { mpart::PullbackDensity<HS> p(m, g); }); expect("pushforward density", key, !sq || s.in != d, [&] { mpart::PushforwardDensity<HS> p(m, g); }); expect("pullback sampler", key, !sq || s.out != d, [&] { mpart::PullbackSampler<HS> p(m, g); }); expect("pushforward sampler", key, !sq || s.in != d, [&] { mpart::PushforwardSampler<HS> p(m, g); });
        auto dist = std::make_shared<mpart::Distribution<HS>>(g, g); expect("pullback", key, !sq || s.out != d, [&] { mpart::CreatePullback<HS>(m, dist); }); expect("pushforward", key, !sq || s.in != d, [&] { mpart::CreatePushforward<HS>(m, dist); });
        if (s.kind != 3 || !m->numCoeffs) { Kokkos::View<double**, HS> x = pts(s.in, 3); CM X = x; auto o = std::make_shared<mpart::KLObjective<HS>>(X, g); expect("training error", key, s.out != d, [&] { o->TrainError(m); }); expect("training gradient", key, s.out != d, [&] { o->TrainCoeffGrad(m); }); }
        if (behaviour(m) != b) mc::viol("piece-changed", key); }
    for (unsigned a = 1; a <= 3; ++a) for (unsigned b = 1; b <= 3; ++b) { std::string key = mc::cat("distribution/", a, "/", b); if (mc::take(key)) { expect("distribution", key, a != b, [&] { mpart::Distribution<HS> d(std::make_shared<G>(a), std::make_shared<G>(b)); });
        auto g = std::make_shared<G>(a); Kokkos::View<double**, HS> x = pts(b, 3), o("o", b, 3); Kokkos::View<double*, HS> l("l", 3); expect("points of the density", key, a != b, [&] { g->LogDensityImpl(CM(x), StridedVector<double, HS>(l)); }); expect("points of the gradient", key, a != b, [&] { g->LogDensityInputGradImpl(CM(x), M(o)); }); expect("samples", key, a != b, [&] { g->SampleImpl(M(o)); }); } }
    for (unsigned r = 1; r <= 3; ++r) for (unsigned c = 1; c <= 3; ++c) for (unsigned mu = 0; mu <= 3; ++mu) for (int bad = 0; bad < 3; ++bad) { std::string key = mc::cat("gaussian/", r, "x", c, "/mean", mu, "/", bad); if (!mc::take(key)) continue; if (bad && r != c) continue;
        Kokkos::View<double**, HS> A("A", r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) A(i, j) = i == j ? (bad == 1 && i + 1 == r ? -1.0 : bad == 2 ? 0.0 : 2.0) : bad ? 0 : 0.25; Kokkos::View<double*, HS> v = vec(Vec(mu, 0.5)); M AA = A; StridedVector<double, HS> mm = v; bool ill = r != c || (mu && mu != r) || bad;
        expect("gaussian", key, ill, [&] { if (mu) G g(mm, AA); else G g(AA); }); }
    // options that do not exist
    { using namespace mpart; struct O { std::string n; Opts o; bool ill, expan; }; std::vector<O> os; Opts d = simple(0);
        for (int b = 0; b < 5; ++b) for (int p = 0; p < 4; ++p) for (int q = 0; q < 5; ++q) for (int lin = 0; lin < 2; ++lin) { Opts o = d; o.basisType = (BasisTypes)b; o.posFuncType = (PosFuncTypes)p; o.quadType = (QuadTypes)q; if (lin) { o.basisLB = -1; o.basisUB = 1; } os.push_back({mc::cat("options/", b, p, q, lin), o, b >= 3 || p >= 2 || q >= 3, b >= 3}); }
        int k = 0; for (auto& lu : std::vector<std::pair<double, double>>{{1, -1}, {1, 1}, {0, 0}, {3, -inf_}, {inf_, 2}, {nan_, 1}, {-1, nan_}}) for (int b = 0; b < 3; ++b) { Opts o = d; o.basisType = (BasisTypes)b; o.basisLB = lu.first; o.basisUB = lu.second; os.push_back({mc::cat("options/bounds", k, "/", b), o, true, true}); if (b == 2) ++k; }
        for (auto& o : os) { if (!mc::take(o.n)) continue; FixedMultiIndexSet<HS> ms(2, 1); expect("component", o.n, o.ill, [&] { MapFactory::CreateComponent<HS>(ms, o.o); }); expect("expansion", o.n, o.expan, [&] { MapFactory::CreateExpansion<HS>(1, ms, o.o); }); expect("triangular", o.n, o.ill, [&] { MapFactory::CreateTriangular<HS>(2, 1, 1, o.o); }); expect("component after a refusal", o.n, false, [&] { MapFactory::CreateComponent<HS>(ms, simple(0)); }); } }
    // numbers of quadrature points and subdivisions at and below the documented minimum: refused, or a finite increasing map
    { using namespace mpart; for (int q = 0; q < 3; ++q) for (unsigned np : {0u, 1u, 2u, 3u}) for (unsigned ms : {0u, 1u}) { std::string key = mc::cat("options/points/", q, "/", np, "/", ms); if (!mc::take(key)) continue; Opts o = simple(0); o.quadType = (QuadTypes)q; o.quadPts = np; o.quadMaxSub = ms; mc::distinct(mc::hashStr(key)); MapP m; mc::count("ill_formed");
        if (raises([&] { FixedMultiIndexSet<HS> set(2, 2); m = MapFactory::CreateComponent<HS>(set, o); })) continue; Expr::setC(*m, coeffs(m->numCoeffs, 0)); Kokkos::View<double**, HS> x = pts(2, 3); CM y; if (raises([&] { y = m->Evaluate(CM(x)); })) continue; for (int j = 0; j < 3; ++j) if (!std::isfinite(y(0, j))) mc::viol("not-a-number", key); } }
    // training: index sets, limits, data and optimisers that do not fit
    { using namespace mpart; for (unsigned in = 1; in <= 3; ++in) for (unsigned out = 1; out <= in; ++out) for (unsigned n = 0; n <= 3; ++n) { std::string key = mc::cat("adaptive/", in, ">", out, "/", n); if (!mc::take(key)) continue; unsigned combos = 1; for (unsigned i = 0; i < n; ++i) combos *= 3;
        Kokkos::View<double**, HS> a = pts(in, 6), b = pts(in, 4); auto obj = ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(a), CM(b), out);
        for (unsigned c = 0; c < combos; ++c) for (unsigned md = 0; md <= 4; ++md) { std::vector<MultiIndexSet> sets; bool ill = n != out || (md && md != in); unsigned cc = c; bool skip = false; for (unsigned i = 0; i < n; ++i, cc /= 3) { int len = int(in) - int(n) + 1 + int(i) + int(cc % 3) - 1; if (len < 1) { skip = true; break; } if (n == out && cc % 3 != 1) ill = true; sets.push_back(MultiIndexSet::CreateTotalOrder(len, 1)); } if (skip) continue;
            std::vector<std::string> before; auto text = [&] { std::vector<std::string> r; for (auto& z : sets) { std::string t; for (unsigned i = 0; i < z.Size(); ++i) t += z[i].String() + " "; r.push_back(t); } return r; }; before = text();
            ATMOptions o; static_cast<MapOptions&>(o) = simple(0); o.opt_maxeval = 2; o.maxSize = 1; if (md) o.maxDegrees = MultiIndex(std::vector<unsigned>(md, 3)); MapP r; std::string what = mc::cat(key, " lengths ", c, " degrees ", md); expect("adaptive", what, ill, [&] { r = TrainMapAdaptive<HS>(sets, obj, o); });
            if (ill) { if (text() != before) mc::viol("set-changed", what); std::vector<MultiIndexSet> good; for (unsigned i = 0; i < out; ++i) good.push_back(MultiIndexSet::CreateTotalOrder(in - out + 1 + i, 0)); o.maxDegrees = MultiIndex(); expect("adaptive after a refusal", what, false, [&] { TrainMapAdaptive<HS>(good, obj, o); }); } else if (r && (r->inputDim != in || r->outputDim != out)) mc::viol("dimensions", what); } }
      int k = 0; for (std::string alg : {"", "nonsense", "LD_", "LD_SLSQP ", "ld_slsqp", "LD_LBFGS\n"}) for (int set = 0; set < 2; ++set) { std::string key = mc::cat("optimiser/", k++ / 2, "/", set); if (!mc::take(key)) continue; E e = mkTri({comp(1, 0), comp(2, 0)}); MapP m = e->build(); if (set) Expr::setC(*m, coeffs(e->nc, 1)); std::string b = behaviour(m); bool had = m->CheckCoefficients(); Kokkos::View<double**, HS> a = pts(2, 6); auto obj = ObjectiveFactory::CreateGaussianKLObjective<HS>(CM(a), 2); TrainOptions o; o.opt_alg = alg;
        expect("optimiser", key, true, [&] { TrainMap<HS>(m, obj, o); }); if (m->CheckCoefficients() != had || behaviour(m) != b) mc::viol("piece-changed", key); o.opt_alg = "LD_SLSQP"; o.opt_maxeval = 3; expect("optimiser after a refusal", key, false, [&] { TrainMap<HS>(m, obj, o); }); } }
    // index sets of the wrong length
    for (unsigned a = 1; a <= 3; ++a) for (unsigned b = 1; b <= 3; ++b) { std::string key = mc::cat("sets/", a, "/", b); if (!mc::take(key)) continue; using namespace mpart; auto s = MultiIndexSet::CreateTotalOrder(a, 2); unsigned n0 = s.Size();
        expect("adding an index", key, a != b, [&] { s += MultiIndex(std::vector<unsigned>(b, 1)); }); expect("uniting sets", key, a != b, [&] { s.Union(MultiIndexSet::CreateTotalOrder(b, 1)); }); expect("bounding", key, b < a, [&] { s.FilterBounded(MultiIndex(std::vector<unsigned>(b, 2))); }); if (a != b && s.Size() != n0) mc::viol("set-changed", key); expect("assigning", key, a != b, [&] { MultiIndexSet t = MultiIndexSet::CreateTotalOrder(a, 1); t = MultiIndexSet::CreateTotalOrder(b, 1); }); }
    }
    Kokkos::finalize(); return mc::finish();
}
