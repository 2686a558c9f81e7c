// C14: every history of set / wrap / write / assemble operations on maps and their pieces.
// Breadth-first over the states of a small ownership model (buffers with contents, handles into them); every transition is
// replayed on the real objects from scratch and everything observable is compared with the model.
#include "exact_alloc.h"
#include "refmap.h"
#include <Kokkos_Core.hpp>
#include "MParT/MonotoneComponent.h"
#include "MParT/MultivariateExpansionWorker.h"
#include "MParT/MultivariateExpansion.h"
#include "MParT/OrthogonalPolynomial.h"
#include "MParT/PositiveBijectors.h"
#include "MParT/Quadrature.h"
#include <unordered_set>
using namespace ref; using mpart::StridedMatrix;
typedef StridedMatrix<const double, HS> CM; typedef Kokkos::View<double*, HS> V1; typedef Kokkos::View<const double*, HS> CV1;

// ---- structures: a list of nodes; leaves exist from the start, parents are made by an operation ----
enum NK { LEAF, NTRI, NCOMP, NSUMM };
struct Node { NK kind; E leaf; std::vector<int> ch; std::string name; };
struct Structure { std::string name; std::vector<Node> n; bool deep; };
static E lin(unsigned d, Terms t) { Opts o; o.quadType = mpart::QuadTypes::ClenshawCurtis; o.quadPts = 5; o.basisNorm = false; return mkComp(o, t); }
static E C1() { return lin(1, {{0}, {1}}); }
static E C2() { return lin(2, {{0, 1}, {1, 0}}); }
static E C2b() { return lin(2, {{0, 1}, {1, 1}, {2, 0}}); }
static std::vector<Structure> structures(bool T) {
    std::vector<Structure> r; auto L = [](E e, std::string n) { return Node{LEAF, e, {}, n}; };
    r.push_back({"component", {L(C2b(), "c")}, true});
    { Opts o; o.basisNorm = false; E e = mkExpan(o, {{0, 1}, {1, 0}}, 1); r.push_back({"expansion", {L(e, "f")}, true}); }
    r.push_back({"identity", {L(mkIdent(2, 1), "id")}, true});
    r.push_back({"tri2", {L(C1(), "c1"), L(C2(), "c2"), {NTRI, nullptr, {0, 1}, "t"}}, true});
    r.push_back({"tri-identity-first", {L(mkIdent(1, 1), "id"), L(C2(), "c2"), {NTRI, nullptr, {0, 1}, "t"}}, true});
    r.push_back({"tri-affine-last", {L(C1(), "c1"), L(mkAffine(2, 1, true, true), "af"), {NTRI, nullptr, {0, 1}, "t"}}, true});
    r.push_back({"tri-one", {L(C2(), "c"), {NTRI, nullptr, {0}, "t"}}, true});
    r.push_back({"two-parents", {L(C1(), "c1"), L(C2(), "c2"), {NTRI, nullptr, {0, 1}, "t"}, {NTRI, nullptr, {0, 1}, "u"}}, false});
    r.push_back({"composed", {L(C1(), "c1"), L(C1(), "k1"), {NCOMP, nullptr, {0, 1}, "p"}}, true});
    r.push_back({"composed-same-twice", {L(C1(), "c1"), {NCOMP, nullptr, {0, 0}, "p"}}, true});
    r.push_back({"composed-affine-middle", {L(C1(), "c1"), L(mkAffine(1, 1, true, true), "af"), L(C1(), "k1"), {NCOMP, nullptr, {0, 1, 2}, "p"}}, false});
    r.push_back({"tri-in-composed", {L(C1(), "c1"), L(C2(), "c2"), {NTRI, nullptr, {0, 1}, "t"}, {NCOMP, nullptr, {2}, "p"}}, false});
    r.push_back({"tri-in-tri", {L(C1(), "c1"), L(C2(), "c2"), {NTRI, nullptr, {0}, "t"}, {NTRI, nullptr, {2, 1}, "u"}}, false});
    r.push_back({"summarised", {L(C2(), "c"), {NSUMM, mkAffine(2, 1, true, true, 0, AFFFUN), {0}, "s"}}, true});
    r.push_back({"summarised-in-tri", {L(C1(), "c1"), L(C2(), "c"), {NSUMM, mkAffine(1, 1, true, true, 0, AFFFUN), {1}, "s"}, {NTRI, nullptr, {0, 2}, "t"}}, false});
    return r;
}
// components straight from their constructor (factory-made ones come with zeros as coefficients)
typedef mpart::MultivariateExpansionWorker<mpart::ProbabilistHermite, HS> Worker; typedef mpart::MonotoneComponent<Worker, mpart::SoftPlus, mpart::ClenshawCurtisQuadrature<HS>, HS> Component;
static FunP makeLeaf(E e) {
    if (e->kind == COMP) { mpart::ClenshawCurtisQuadrature<HS> q(5, 1); return std::make_shared<Component>(Worker(e->mset(), mpart::ProbabilistHermite(false)), q, true, 0.0); }
    if (e->kind == EXPAN) return std::make_shared<mpart::MultivariateExpansion<mpart::ProbabilistHermite, HS>>(e->out, e->mset(), mpart::ProbabilistHermite(false));
    return e->build();
}
// ---- operations ------------------------------------------------------------------------------------
enum OK { SETV, SETE, SETFROM, WRAPX, WRAPE, BADSET, BADWRAP, WRITEX, WRITEM, WRITEVIEW, MAKE, DROPX, ASSIGN };
struct Op { OK k; int o, a, b; };
static const int NX = 12;        // length of each caller-owned buffer (0 and 1 Kokkos views, 2 an Eigen vector)
static double pattern(int p, int i) { return (p ? -0.4 : 0.5) + 0.125 * i; }
static double xinit(int x, int i) { return 0.25 + 0.5 * x + 0.0625 * i; }

struct Handle { int buf = -1, off = 0, len = 0; bool set() const { return buf >= 0; } bool operator==(Handle const& h) const { return buf == h.buf && off == h.off && len == h.len; } };
struct Model {
    std::vector<std::vector<double>> buf;              // 0..2 are the caller's
    std::vector<Handle> h; std::vector<char> alive; std::vector<unsigned> n; bool dropped[2] = {false, false};
    Structure const* S;
    Model(Structure const& s) : S(&s) {
        for (int x = 0; x < 3; ++x) { buf.emplace_back(NX); for (int i = 0; i < NX; ++i) buf[x][i] = xinit(x, i); }
        for (auto& k : s.n) { h.emplace_back(); alive.push_back(k.kind == LEAF); unsigned c = k.leaf && k.kind == LEAF ? k.leaf->nc : 0; for (int j : k.ch) c += n[j]; n.push_back(c); }
    }
    bool check(int o) const { return n[o] == 0 || (h[o].set() && h[o].len == (int)n[o]); }
    void wrap(int o, Handle x) { h[o] = x; int off = x.off; for (int c : S->n[o].ch) { wrap(c, Handle{x.buf, off, (int)n[c]}); off += n[c]; } }
    std::vector<double> vals(Handle x) const { return std::vector<double>(buf[x.buf].begin() + x.off, buf[x.buf].begin() + x.off + x.len); }
    void set(int o, std::vector<double> const& v) {
        if (!h[o].set()) { buf.push_back(v); h[o] = Handle{(int)buf.size() - 1, 0, (int)n[o]}; }
        else for (unsigned i = 0; i < n[o]; ++i) buf[h[o].buf][h[o].off + i] = v[i];
        wrap(o, h[o]);
    }
    // what this node evaluates with, in block order
    std::vector<double> effective(int o) const { if (S->n[o].kind == LEAF) return n[o] ? vals(h[o]) : std::vector<double>(); std::vector<double> r; for (int c : S->n[o].ch) { auto v = effective(c); r.insert(r.end(), v.begin(), v.end()); } return r; }
    bool evaluable(int o) const { if (!check(o)) return false; for (int c : S->n[o].ch) if (!evaluable(c)) return false; return true; }
    // true: performed; false: to be refused. overlap: the library may also refuse (copy between overlapping ranges of one buffer)
    bool apply(Op const& p, bool& maybe) {
        maybe = false;
        switch (p.k) {
        case SETV: case SETE: { std::vector<double> v(n[p.o]); for (unsigned i = 0; i < n[p.o]; ++i) v[i] = pattern(p.a, i); set(p.o, v); return true; }
        case SETFROM: { if (!h[p.a].set()) return n[p.o] == 0; if (h[p.a].len != (int)n[p.o]) return false; Handle a = h[p.a], b = h[p.o]; maybe = b.set() && a.buf == b.buf && a.off != b.off && std::abs(a.off - b.off) < a.len; set(p.o, vals(a)); return true; }
        case WRAPX: wrap(p.o, Handle{p.a, p.b, (int)n[p.o]}); return true;
        case WRAPE: wrap(p.o, Handle{2, p.b, (int)n[p.o]}); return true;
        case BADSET: case BADWRAP: return false;
        case WRITEX: buf[p.a][p.b] = -buf[p.a][p.b]; return true;
        case WRITEM: case WRITEVIEW: { Handle x = h[p.o]; buf[x.buf][x.off + p.b] *= -1; return true; }
        case MAKE: {
            alive[p.o] = 1;
            if (S->n[p.o].kind == NSUMM || !p.a) { h[p.o] = Handle(); return true; }
            std::vector<double> v; for (int c : S->n[p.o].ch) { if (!check(c)) { alive[p.o] = 0; h[p.o] = Handle(); return false; } if (n[c]) { auto w = vals(h[c]); v.insert(v.end(), w.begin(), w.end()); } }
            buf.push_back(v); wrap(p.o, Handle{(int)buf.size() - 1, 0, (int)n[p.o]}); return true; }
        case DROPX: dropped[p.a] = true; return true;
        case ASSIGN: h[p.o] = Handle{p.a, p.b, (int)n[p.o]}; return true;
        }
        return true;
    }
    bool enabled(Op const& p) const {
        if (p.o >= 0 && p.k != MAKE && !alive[p.o]) return false;
        switch (p.k) {
        case SETFROM: return alive[p.a] && p.a != p.o;
        case WRAPX: case ASSIGN: return !dropped[p.a] && p.b + (int)n[p.o] <= NX;
        case WRITEX: return p.a == 2 || !dropped[p.a];
        case WRITEM: case WRITEVIEW: return h[p.o].set() && (int)n[p.o] > p.b;
        case MAKE: { for (int c : S->n[p.o].ch) if (!alive[c]) return false; for (size_t q = 0; q < S->n.size(); ++q) if (alive[q]) for (int c : S->n[q].ch) if (c == p.o) return false; return true; }   // a parent in use by another one is not replaced
        case DROPX: return !dropped[p.a];
        default: return true;
        }
    }
    uint64_t hash() const {
        std::vector<int> ren(buf.size(), -1); int k = 0; std::string s; auto id = [&](int b) { if (b < 3) return b; if (ren[b] < 0) ren[b] = 3 + k++; return ren[b]; };
        for (size_t o = 0; o < h.size(); ++o) { s += mc::cat(int(alive[o]), ","); if (h[o].set()) s += mc::cat(id(h[o].buf), ":", h[o].off, ":", h[o].len); s += ";"; }
        for (size_t b = 0; b < buf.size(); ++b) if (b < 3 || ren[b] >= 0) { s += mc::cat("b", id(b), dropped[b < 2 ? b : 0] && b < 2 ? "d" : ""); for (double v : buf[b]) s += mc::cat(v, ","); }
        return mc::hashStr(s);
    }
};
static std::string show(Structure const& S, Op const& p) {
    static const char* nm[] = {"SetCoeffs(view ", "SetCoeffs(Eigen ", "SetCoeffs(coefficients of ", "WrapCoeffs(buffer ", "WrapCoeffs(Eigen buffer at ", "SetCoeffs(wrong size ", "WrapCoeffs(wrong size ", "write buffer ", "write through CoeffMap ", "write through Coeffs() ", "assemble(move=", "caller lets go of buffer ", "Coeffs() = buffer "};
    std::string s = p.o >= 0 ? S.n[p.o].name + "." : ""; s += nm[p.k];
    switch (p.k) { case SETFROM: s += S.n[p.a].name; break; case WRITEM: case WRITEVIEW: case WRAPE: s += mc::cat(p.b); break; case BADSET: case BADWRAP: s += mc::cat(p.a > 0 ? "+" : "", p.a, p.b ? " Eigen" : ""); break; case WRAPX: case WRITEX: case ASSIGN: s += mc::cat(p.a, " at ", p.b); break; default: s += mc::cat(p.a); }
    return s + ")";
}
// ---- the real objects -------------------------------------------------------------------------------
struct Real {
    Structure const* S; std::vector<FunP> o; V1 X[2]; Eigen::VectorXd Z; double* xp[3];
    Real(Structure const& s) : S(&s) {
        for (int x = 0; x < 2; ++x) { X[x] = V1("caller", NX); for (int i = 0; i < NX; ++i) X[x](i) = xinit(x, i); xp[x] = X[x].data(); }
        Z.resize(NX); for (int i = 0; i < NX; ++i) Z(i) = xinit(2, i); xp[2] = Z.data();
        for (auto& k : s.n) o.push_back(k.kind == LEAF ? makeLeaf(k.leaf) : nullptr);
    }
    MapP map(int i) { return std::dynamic_pointer_cast<mpart::ConditionalMapBase<HS>>(o[i]); }
    void apply(Op const& p) {
        FunP f = p.o >= 0 ? o[p.o] : nullptr; unsigned n = f ? f->numCoeffs : 0;
        switch (p.k) {
        case SETV: { V1 v("src", n); for (unsigned i = 0; i < n; ++i) v(i) = pattern(p.a, i); f->SetCoeffs(CV1(v)); for (unsigned i = 0; i < n; ++i) { if (v(i) != pattern(p.a, i)) mc::viol("source-changed", "SetCoeffs changed its argument"); v(i) = 77; } return; }
        case SETE: { Eigen::VectorXd v(n); for (unsigned i = 0; i < n; ++i) v(i) = pattern(p.a, i); f->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(v)); for (unsigned i = 0; i < n; ++i) v(i) = 77; return; }
        case SETFROM: { FunP g = o[p.a]; f->SetCoeffs(CV1(g->Coeffs())); return; }
        case WRAPX: f->WrapCoeffs(V1(Kokkos::subview(X[p.a], std::make_pair(p.b, p.b + (int)n)))); return;
        case WRAPE: f->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(Z.segment(p.b, n))); return;
        case BADSET: { int m = std::max(0, (int)n + p.a); if (p.b) { Eigen::VectorXd v = Eigen::VectorXd::Constant(m, 3.5); f->SetCoeffs(Eigen::Ref<Eigen::VectorXd>(v)); } else if (m == 0) f->SetCoeffs(CV1()); else { V1 v("src", m); Kokkos::deep_copy(v, 3.5); f->SetCoeffs(CV1(v)); } return; }
        case BADWRAP: { int m = std::max(0, (int)n + p.a); if (p.b) { Eigen::VectorXd v = Eigen::VectorXd::Constant(m, 3.5); f->WrapCoeffs(Eigen::Ref<Eigen::VectorXd>(v)); } else { V1 v("src", m); Kokkos::deep_copy(v, 3.5); f->WrapCoeffs(v); } return; }
        case WRITEX: xp[p.a][p.b] = -xp[p.a][p.b]; return;
        case WRITEM: { auto m = f->CoeffMap(); if (m.size() != (int)n) mc::viol("coeffmap-size", mc::cat(m.size())); m(p.b) *= -1; return; }
        case WRITEVIEW: f->Coeffs()(p.b) *= -1; return;
        case ASSIGN: f->Coeffs() = V1(Kokkos::subview(X[p.a], std::make_pair(p.b, p.b + (int)n))); return;
        case DROPX: { X[p.a] = V1(); std::vector<V1> again; for (int i = 0; i < 4; ++i) { again.emplace_back("reuse", NX); Kokkos::deep_copy(again.back(), 99.0); } return; }   // were it freed, the memory would be overwritten now
        case MAKE: {
            auto& k = S->n[p.o]; o[p.o] = nullptr; std::vector<MapP> v; for (int c : k.ch) v.push_back(map(c));
            if (k.kind == NTRI) o[p.o] = std::make_shared<mpart::TriangularMap<HS>>(v, p.a != 0);
            else if (k.kind == NCOMP) o[p.o] = std::make_shared<mpart::ComposedMap<HS>>(v, p.a != 0);
            else o[p.o] = std::make_shared<mpart::SummarizedMap<HS>>(k.leaf->buildFun(), v[0]);
            return; }
        }
    }
};
static E refExpr(Structure const& S, int o) { auto& k = S.n[o]; if (k.kind == LEAF) return k.leaf; std::vector<E> c; for (int j : k.ch) c.push_back(refExpr(S, j)); return k.kind == NTRI ? mkTri(c) : k.kind == NCOMP ? mkComposed(c, -1) : mkSumm(k.leaf, c[0]); }

// everything observable against the model
static bool observe(Structure const& S, Model const& M, Real& R, std::vector<E> const& ex, std::string const& hist) {
    bool good = true; auto bad = [&](const char* cls, std::string d) { good = false; mc::viol(cls, d + " after " + hist); };
    for (int x = 0; x < 3; ++x) if (x == 2 || !M.dropped[x]) for (int i = 0; i < NX; ++i) if (R.xp[x][i] != M.buf[x][i]) { bad("caller-buffer", mc::cat("caller's buffer ", x, " entry ", i, " is ", R.xp[x][i], ", expected ", M.buf[x][i])); break; }
    std::map<int, double*> base; for (int x = 0; x < 3; ++x) base[x] = R.xp[x];
    for (size_t o = 0; o < S.n.size(); ++o) {
        if (!M.alive[o]) { continue; }
        auto& f = *R.o[o]; std::string nm = S.n[o].name;
        if (f.numCoeffs != M.n[o]) { bad("numCoeffs", nm); continue; }
        if (f.CheckCoefficients() != M.check(o)) { bad("check", mc::cat(nm, ".CheckCoefficients() is ", !M.check(o))); continue; }
        if (M.n[o] && M.h[o].set()) {
            auto& h = M.h[o]; auto v = f.Coeffs();
            if (v.size() != M.n[o]) { bad("length", nm); continue; }
            for (unsigned i = 0; i < M.n[o]; ++i) if (v(i) != M.buf[h.buf][h.off + i]) { bad("reported", mc::cat(nm, " reports ", v(i), " as coefficient ", i, ", expected ", M.buf[h.buf][h.off + i])); break; }
            double* b = v.data() - h.off;
            auto it = base.find(h.buf); if (it == base.end()) { for (auto& kv : base) if (kv.second == b && kv.first != h.buf) bad("alias", nm + " shares memory it should not share"); base[h.buf] = b; }
            else if (it->second != b) bad("alias", nm + " does not alias the memory it should alias");
            mpart::ParameterizedFunctionBase<HS> const& cf = f; if (cf.Coeffs().data() != v.data() || cf.Coeffs().size() != v.size()) bad("const-view", nm);
            auto m = f.CoeffMap(); if (m.data() != v.data() || m.size() != (int)v.size()) bad("coeffmap", nm);
        }
        auto& e = *ex[o]; Vec x = point(e.in, 1); auto P = points({x}, e.in); mc::count("evaluated_objects");
        if (!M.check(o)) {
            bool threw = false; try { f.Evaluate(cmat(P)); } catch (std::exception const&) { threw = true; } if (!threw) bad("no-refusal", nm + " evaluated without coefficients");
            threw = false; try { f.CoeffMap(); } catch (std::exception const&) { threw = true; } if (!threw) bad("no-refusal", nm + ".CoeffMap() without coefficients");
        } else if (M.evaluable(o)) {
            auto c = M.effective(o); Vec y(e.out); e.eval<double>(x.data(), c.data(), y.data());
            auto r = f.Evaluate(cmat(P));
            for (unsigned i = 0; i < e.out; ++i) if (!(std::fabs(r(i, 0) - y[i]) < 1e-9 * (1 + std::fabs(y[i])))) { bad("evaluated", mc::cat(nm, " evaluates to ", r(i, 0), ", with its coefficients ", mc::str(c), " it is ", y[i])); break; }
        }
    }
    return good;
}

int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews(); const bool T = mc::ctx().thorough;
    {
        for (auto& S : structures(T)) {
            std::vector<E> ex; for (size_t o = 0; o < S.n.size(); ++o) ex.push_back(refExpr(S, o));
            std::vector<Op> ops; Model M0(S); const int N = S.n.size();
            for (int o = 0; o < N; ++o) if (S.n[o].kind != LEAF) { ops.push_back({MAKE, o, 1, 0}); ops.push_back({MAKE, o, 0, 0}); }
            for (int o = 0; o < N; ++o) {
                ops.push_back({SETV, o, 0, 0}); ops.push_back({SETV, o, 1, 0}); ops.push_back({SETE, o, 1, 0});
                ops.push_back({WRAPX, o, 0, 0}); ops.push_back({WRAPX, o, 0, 1}); ops.push_back({WRAPX, o, 1, 2}); ops.push_back({WRAPE, o, 2, 1});
                ops.push_back({WRITEM, o, 0, 0}); ops.push_back({WRITEVIEW, o, 0, (int)std::max(1u, M0.n[o]) - 1});
                for (int a : {-1, 1, -100}) for (int b = 0; b < 2; ++b) { if (M0.n[o] == 0 && a < 0) continue; ops.push_back({BADSET, o, a, b}); ops.push_back({BADWRAP, o, a, b}); }
                for (int a = 0; a < N; ++a) if (a != o) ops.push_back({SETFROM, o, a, 0});
                if (S.n[o].kind == LEAF && N == 1 && M0.n[o]) ops.push_back({ASSIGN, o, 0, 1});
            }
            for (int b = 0; b < 4; ++b) ops.push_back({WRITEX, -1, b % 3, b});
            ops.push_back({DROPX, -1, 0, 0}); ops.push_back({DROPX, -1, 1, 0});
            int depth = (N == 1 ? 4 : N <= 3 ? 3 : 2) + (T ? 1 : 0);
            // parents first: in larger structures also start from everything assembled
            std::vector<std::vector<Op>> starts = {{}};
            std::vector<Op> all; for (int o = 0; o < N; ++o) if (S.n[o].kind != LEAF) all.push_back({MAKE, o, 0, 0});
            if (all.size() > 1) starts.push_back(all);
            if (!all.empty()) { std::vector<Op> mv; for (int o = 0; o < N; ++o) if (S.n[o].kind == LEAF) mv.push_back({SETV, o, 0, 0}); for (auto& a : all) { Op b = a; b.a = 1; mv.push_back(b); if (S.n[a.o].kind == NSUMM) mv.push_back({SETV, a.o, 1, 0}); } starts.push_back(mv); }
            for (size_t si = 0; si < starts.size(); ++si) for (size_t f = 0; f < ops.size(); ++f) {
                if (!mc::take(mc::cat(S.name, si ? mc::cat(" start", si) : std::string(), " first:", show(S, ops[f])))) continue;
                // breadth-first below the first operation
                struct St { Model m; std::vector<Op> h; };
                std::vector<St> fr; { St s{Model(S), {}}; bool mb; bool ok = true; for (auto& p : starts[si]) { if (!s.m.enabled(p)) ok = false; s.m.apply(p, mb); s.h.push_back(p); } if (!ok || !s.m.enabled(ops[f])) continue; fr.push_back(s); }
                std::unordered_set<uint64_t> seen; bool stop = false;
                for (int d = 0; d < depth && !stop; ++d) {
                    std::vector<St> nx;
                    for (auto& s : fr) { if (stop) break; for (size_t oi = 0; oi < ops.size(); ++oi) {
                        if (d == 0 && oi != f) continue;
                        Op const& p = ops[oi]; if (!s.m.enabled(p)) continue;
                        Model m = s.m; bool maybe; bool should = m.apply(p, maybe);
                        std::string hist; for (auto& q : s.h) hist += show(S, q) + "; "; hist += show(S, p);
                        Real R(S); for (auto& q : s.h) { try { R.apply(q); } catch (std::exception const&) {} }
                        bool did = true; try { R.apply(p); } catch (std::exception const&) { did = false; }
                        mc::count("transitions"); mc::count("traces");
                        if (did != should && !(maybe && !did)) { mc::viol(should ? "refused" : "not-refused", mc::cat(should ? "refused: " : "accepted: ", hist)); stop = true; break; }
                        if (maybe && !did) { m = s.m; mc::count("overlapping_copies_refused"); }
                        if (!observe(S, m, R, ex, hist)) { stop = true; break; }
                        uint64_t h = m.hash(); mc::distinct(mc::hashStr(S.name, h));
                        if (seen.insert(h).second && d + 1 < depth) { St t{m, s.h}; t.h.push_back(p); nx.push_back(std::move(t)); }
                    } }
                    fr.swap(nx);
                }
            }
        }
        // constructors that take coefficients
        for (int d = -1; d <= 2; ++d) for (int cont = 0; cont < 2; ++cont) if (mc::take(mc::cat("component constructor with coefficients, length ", d < 0 ? "-1" : mc::cat("+", d)))) {
            using namespace mpart;
            (void)cont; mc::count("transitions"); mc::count("traces");
            FixedMultiIndexSet<HS> ms(2, 1); int n = ms.Size();
            V1 c("c", n + d); for (int i = 0; i < n + d; ++i) c(i) = pattern(0, i);
            bool threw = false;
            try {
                ClenshawCurtisQuadrature<HS> q(5, 1); Component m(Worker(ms, ProbabilistHermite(false)), q, cont != 0, 0.0, CV1(c));
                if (d == 0) { for (int i = 0; i < n; ++i) if (m.Coeffs()(i) != c(i) || &m.Coeffs()(i) == &c(i)) mc::viol("constructor", "coefficients given to the constructor"); }
            } catch (std::invalid_argument const&) { threw = true; }
            if (threw != (d != 0)) mc::viol("constructor-length", mc::cat("a constructor given ", n + d, " coefficients for ", n, " terms ", threw ? "refused" : "accepted them"));
        }
    }
    Kokkos::finalize(); return mc::finish();
}
