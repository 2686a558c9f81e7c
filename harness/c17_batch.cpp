// C17: results depend on argument values only. Each expression, each query: every way of batching, every layout of
// arguments and outputs, the Eigen and view interfaces, every earlier content of outputs, of fresh memory and of the per-thread
// scratch memory, every earlier query on the same object.
#include "exact_alloc.h"
#include "alloc.h"
#include "family.h"
#include "mat.h"
#include <Kokkos_Core.hpp>
enum Op { EVAL, INV, INVP, LD, GRAD, CGRAD, LDC, LDX, NOPS };
static const char* opName[] = {"Evaluate", "Inverse", "Inverse of the conditioning inputs only", "LogDeterminant", "Gradient", "CoeffGrad", "LogDeterminantCoeffGrad", "LogDeterminantInputGrad"};

typedef std::vector<Vec> Cols;   // a column per point
static unsigned rowsOf(E e, Op o) { switch (o) { case EVAL: case INV: case INVP: return e->out; case LD: return 1; case GRAD: case LDX: return e->in; default: return e->nc; } }
static Mat fillMat(Cols const& v, unsigned r, int lay) { Mat m(r, v.size(), lay, -77.25); for (size_t j = 0; j < v.size(); ++j) for (unsigned i = 0; i < r; ++i) m.at(i, j) = v[j][i]; return m; }

struct Args { Cols x, s, y; };   // points, sensitivities, values to invert
static Args select(Args const& a, std::vector<unsigned> const& idx) { Args r; for (unsigned i : idx) { r.x.push_back(a.x[i]); r.s.push_back(a.s[i]); r.y.push_back(a.y[i]); } return r; }

// the library's per-thread scratch memory, filled by a kernel of our own
static void scribble(double v) {
    typedef Kokkos::TeamPolicy<Kokkos::DefaultHostExecutionSpace> P; const int bytes = 1 << 16;
    Kokkos::parallel_for(P(1, 1).set_scratch_size(1, Kokkos::PerTeam(0), Kokkos::PerThread(bytes)), [=](P::member_type const& t) { Kokkos::View<double*, P::execution_space::scratch_memory_space, Kokkos::MemoryUnmanaged> w(t.thread_scratch(1), bytes / 8 - 16); for (size_t i = 0; i < w.extent(0); ++i) w(i) = v; });
}
struct Refused { std::string what; };
static std::string bad;   // what went wrong besides the values
// run one query; layouts of input and output, earlier contents of the output
static Cols run(E e, FunP f, Op o, Args const& a, int li, int lo, double stale) {
    unsigned n = a.x.size(), r = rowsOf(e, o); auto* m = dynamic_cast<mpart::ConditionalMapBase<HS>*>(f.get());
    Mat X = fillMat(a.x, o == INVP ? e->in - e->out : e->in, li), S = fillMat(a.s, e->out, (li + 1) % 5), Y = fillMat(a.y, e->out, (li + 2) % 5), X0 = X, S0 = S, Y0 = Y, O(r, n, o == LD ? (lo >= 4 ? 4 : 1) : lo, stale);
    switch (o) {
    case EVAL: f->EvaluateImpl(CM(X.view()), O.view()); break;
    case GRAD: f->GradientImpl(CM(X.view()), CM(S.view()), O.view()); break;
    case CGRAD: f->CoeffGradImpl(CM(X.view()), CM(S.view()), O.view()); break;
    case INV: case INVP: m->InverseImpl(CM(X.view()), CM(Y.view()), O.view()); break;
    case LD: m->LogDeterminantImpl(CM(X.view()), StridedVector<double, HS>(O.buf.data() + O.off, Kokkos::LayoutStride(n, O.sc))); break;
    case LDC: m->LogDeterminantCoeffGradImpl(CM(X.view()), O.view()); break;
    default: m->LogDeterminantInputGradImpl(CM(X.view()), O.view()); break;
    }
    if (memcmp(X.buf.data(), X0.buf.data(), 8 * X.buf.size()) || memcmp(S.buf.data(), S0.buf.data(), 8 * S.buf.size()) || memcmp(Y.buf.data(), Y0.buf.data(), 8 * Y.buf.size())) bad = "an argument was modified";
    if (!O.paddingKept()) bad = "something was written next to the output";
    Cols v(n, Vec(r)); for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < r; ++i) v[j][i] = O.at(i, j);
    return v;
}
// the public wrappers that allocate the output: views (how 0) or Eigen (how 1: row major, 2: block of a larger row-major matrix)
static Cols runPublic(E e, FunP f, Op o, Args const& a, int how) {
    unsigned n = a.x.size(), r = rowsOf(e, o); auto* m = dynamic_cast<mpart::ConditionalMapBase<HS>*>(f.get()); Cols v(n, Vec(r));
    auto dims = [&](size_t rr, size_t cc) { if (rr != r || (cc != n && r)) { bad = mc::cat("the answer is ", rr, "x", cc, ", expected ", r, "x", n); return false; } return true; };
    if (how == 0) {
        Mat X = fillMat(a.x, o == INVP ? e->in - e->out : e->in, 0), S = fillMat(a.s, e->out, 0), Y = fillMat(a.y, e->out, 0); CM x = X.view(), s = S.view(), y = Y.view();
        if (o == LD) { StridedVector<double, HS> q = m->LogDeterminant(x); if (q.extent(0) != n) bad = "length"; else for (unsigned j = 0; j < n; ++j) v[j][0] = q(j); return v; }
        M q; switch (o) { case EVAL: q = f->Evaluate(x); break; case GRAD: q = f->Gradient(x, s); break; case CGRAD: q = f->CoeffGrad(x, s); break; case INV: case INVP: q = m->Inverse(x, y); break; case LDC: q = m->LogDeterminantCoeffGrad(x); break; default: q = m->LogDeterminantInputGrad(x); }
        if (dims(q.extent(0), q.extent(1))) for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < r; ++i) v[j][i] = q(i, j);
        return v;
    }
    Eigen::RowMatrixXd bx(e->in + 2, n + 3), bs(e->out + 2, n + 3), by(e->out + 2, n + 3); bx.setConstant(1e30); bs.setConstant(1e30); by.setConstant(1e30); unsigned o0 = how == 2 ? 1 : 0;
    for (unsigned j = 0; j < n; ++j) { for (unsigned i = 0; i < e->in; ++i) bx(i + o0, j + o0) = a.x[j][i]; for (unsigned i = 0; i < e->out; ++i) { bs(i + o0, j + o0) = a.s[j][i]; by(i + o0, j + o0) = a.y[j][i]; } }
    Eigen::RowMatrixXd cx = bx.block(o0, o0, o == INVP ? e->in - e->out : e->in, n), cs = bs.block(o0, o0, e->out, n), cy = by.block(o0, o0, e->out, n); unsigned xr = o == INVP ? e->in - e->out : e->in;
    typedef Eigen::Ref<const Eigen::RowMatrixXd> R;
    auto go = [&](R x, R s, R y) {
        if (o == LD) { Eigen::VectorXd q = m->LogDeterminant(x); if (q.size() != (int)n) bad = "length"; else for (unsigned j = 0; j < n; ++j) v[j][0] = q(j); return; }
        Eigen::RowMatrixXd q; switch (o) { case EVAL: q = f->Evaluate(x); break; case GRAD: q = f->Gradient(x, s); break; case CGRAD: q = f->CoeffGrad(x, s); break; case INV: case INVP: q = m->Inverse(x, y); break; case LDC: q = m->LogDeterminantCoeffGrad(x); break; default: q = m->LogDeterminantInputGrad(x); }
        if (dims(q.rows(), q.cols())) for (unsigned j = 0; j < n; ++j) for (unsigned i = 0; i < r; ++i) v[j][i] = q(i, j);
    };
    if (how == 1) go(cx, cs, cy); else go(bx.block(1, 1, xr, n), bs.block(1, 1, e->out, n), by.block(1, 1, e->out, n));
    return v;
}
static double tolOf(E e, Op o) {   // plain pieces are bit-identical; matrix products may sum in another order for another shape
    bool affine = false; std::function<void(E)> go = [&](E k) { affine |= k->kind == AFFINE || k->kind == AFFFUN; for (auto& q : k->ch) go(q); }; go(e);
    return !affine ? 0 : o == INV || o == INVP ? 1e-5 : 1e-11;
}
static std::string worst;
static bool same(E e, Op o, Cols const& a, Cols const& b) {
    double t = tolOf(e, o); if (a.size() != b.size()) { worst = "number of points"; return false; }
    for (size_t j = 0; j < a.size(); ++j) for (size_t i = 0; i < a[j].size(); ++i) { double x = a[j][i], y = b[j][i]; bool ok = !memcmp(&x, &y, 8) || x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= t * (1 + std::fabs(y)); if (!ok) { worst = mc::cat("point ", j, " entry ", i, ": ", x, ", expected ", y); return false; } }
    return true;
}
static void one(E e, bool T) {
    bool fn = e->kind == EXPAN || e->kind == AFFFUN;
    Vec c = coeffs(e->nc, 0);
    auto make = [&] { FunP f; if (fn) f = e->buildFun(); else f = e->build(); if (e->nc) Expr::setC(*f, c); return f; };
    std::vector<Op> ops = fn ? std::vector<Op>{EVAL, GRAD, CGRAD} : std::vector<Op>{EVAL, INV, INVP, LD, GRAD, CGRAD, LDC, LDX};
    const unsigned N = 5; Args a; FunP f = make();
    for (unsigned j = 0; j < N; ++j) { a.x.push_back(point(e->in, j)); Vec s(e->out); for (unsigned i = 0; i < e->out; ++i) s[i] = 0.75 - 0.5 * i + 0.25 * j * (i + 1); a.s.push_back(s); }
    // one point alone is the reference for that point
    a.y = Cols(N, Vec(e->out, 0.0)); std::vector<std::vector<Cols>> ref(NOPS); std::vector<char> have(NOPS, 1);
    { Cols y = run(e, make(), EVAL, a, 0, 0, 0); for (auto& v : y) for (double t : v) if (!(std::fabs(t) < 1e6)) { mc::count("overflowing_cases_skipped"); return; } a.y = y; for (unsigned j = 0; j < N; ++j) for (unsigned i = 0; i < e->out; ++i) a.y[j][i] *= 0.9; }
    std::string ctxs;
    auto viol = [&](const char* cls, Op o, std::string what) { mc::viol(cls, mc::cat(opName[o], " of ", e->name, ": ", what, " (", bad.size() ? bad : worst, ")")); bad.clear(); };
    Cols base[NOPS];
    for (Op o : ops) {
        try { for (unsigned j = 0; j < N; ++j) { FunP g = make(); base[o].push_back(run(e, g, o, select(a, {j}), 0, 0, 0.0)[0]); } } catch (std::invalid_argument&) { have[o] = 0; mc::count("refused"); }
        if (bad.size()) { viol("footprint", o, "one point"); return; }
    }
    auto expectAll = [&](Op o, std::vector<unsigned> const& idx) { Cols r; for (unsigned i : idx) r.push_back(base[o][i]); return r; };
    std::vector<unsigned> all = {0, 1, 2, 3, 4};
    // batching: every ordered selection of up to three points (all pairs, triples), reversed, repeated, sizes around the team size, empty
    std::vector<std::vector<unsigned>> sel = {all, {4, 3, 2, 1, 0}, {}, {2, 2, 2, 2}}; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { if (T || (i + 2 * j) % 5 < 2) sel.push_back({i, j}); if (T) for (unsigned k = 0; k < N; ++k) sel.push_back({i, j, k}); }
    for (unsigned n : {7u, 64u, 65u, 257u}) { std::vector<unsigned> s; for (unsigned i = 0; i < n; ++i) s.push_back((i * 3) % N); if (n <= 7 || e->kind != COMP || T || n == 64) sel.push_back(s); }
    for (Op o : ops) if (have[o]) {
        for (auto& s : sel) { mc::count("batches"); Cols r = run(e, f, o, select(a, s), 0, 0, 7.5); if (!same(e, o, r, expectAll(o, s)) || bad.size()) { viol("batch", o, mc::cat("batch of points ", mc::str(s).substr(0, 60))); break; } }
        // layouts: input x output
        for (int li = 0; li < 5; ++li) for (int lo = 0; lo < 5; ++lo) { mc::count("layouts"); Cols r; try { r = run(e, f, o, a, li, lo, (li + lo) % 2 ? std::nan("") : 1e300); } catch (std::exception& ex) { bad = ex.what(); } if (bad.size() || !same(e, o, r, base[o])) { viol("layout", o, mc::cat("input layout ", li, ", output layout ", lo)); break; } }
        for (int li = 0; li < 5; ++li) { mc::count("layouts"); Cols r; try { r = run(e, f, o, select(a, {1}), li, (li + 3) % 5, std::nan("")); } catch (std::exception& ex) { bad = ex.what(); } if (bad.size() || !same(e, o, r, expectAll(o, {1}))) { viol("layout", o, mc::cat("one point, input layout ", li)); break; } }
        // earlier contents: of the output, of fresh memory, of the scratch memory
        for (double st : {std::nan(""), 1e300, -3.0}) for (int p : {-1, 0x00, 0xFF, 256}) { mc::count("memories"); scribble(st); heap::poison() = p; Cols r = run(e, f, o, a, 1, 0, st); heap::poison() = -1; if (bad.size() || !same(e, o, r, base[o])) { viol("stale-memory", o, mc::cat("earlier content ", st, ", fresh memory ", p)); break; } }
        for (int how = 0; how < 3; ++how) for (int p : {-1, 0xFF}) for (auto& s : {all, std::vector<unsigned>{3}, std::vector<unsigned>{}}) { mc::count("interfaces"); heap::poison() = p; Cols r; try { r = runPublic(e, f, o, select(a, s), how); } catch (std::exception& ex) { bad = ex.what(); } heap::poison() = -1; if (bad.size() || !same(e, o, r, expectAll(o, s))) { viol("interface", o, mc::cat("interface ", how, ", fresh memory ", p, ", ", s.size(), " points")); break; } }
    }
    // a component inverts several values for one conditioning point, given once
    if (e->kind == COMP && have[INV]) for (auto& s : sel) if (s.size()) for (unsigned xi : {0u, 3u}) for (int part = 0; part < 2; ++part) {
        mc::count("broadcasts"); Args q = select(a, s), r1; for (auto& x : q.x) x = a.x[xi]; Cols want; for (unsigned j = 0; j < s.size() && j < 40; ++j) { r1.x = {a.x[xi]}; r1.s = {q.s[j]}; r1.y = {q.y[j]}; want.push_back(run(e, make(), part ? INVP : INV, r1, 0, 0, 0)[0]); }
        Mat X = fillMat({a.x[xi]}, part ? e->in - 1 : e->in, 0), Y = fillMat(q.y, 1, part), O(1, s.size(), 0, std::nan("")); bad.clear();
        try { dynamic_cast<mpart::ConditionalMapBase<HS>*>(f.get())->InverseImpl(CM(X.view()), CM(Y.view()), O.view()); } catch (std::exception& ex) { bad = ex.what(); }
        Cols r; for (unsigned j = 0; j < want.size(); ++j) r.push_back({O.at(0, j)});
        if (bad.size() || !same(e, INV, r, want)) { viol("broadcast", part ? INVP : INV, mc::cat(s.size(), " values for one point")); break; }
    }
    // earlier queries on the same object: every ordered pair (thorough: triple), other points and other coefficients in between
    Args b; for (unsigned j = 0; j < 3; ++j) { b.x.push_back(point(e->in, 6 + j)); b.s.push_back(a.s[j]); b.y.push_back(Vec(e->out, 0.3 * j)); }
    std::vector<std::vector<int>> hist; for (int p = -1; p < NOPS; ++p) { hist.push_back({p}); if (T) for (int q = -1; q < NOPS; ++q) hist.push_back({p, q}); }
    for (auto& h : hist) { FunP g = make(); bool skip = false;
        for (int p : h) { if (p >= 0 && (!have[p] || std::find(ops.begin(), ops.end(), (Op)p) == ops.end())) { skip = true; break; } if (p < 0) { if (e->nc) { Expr::setC(*g, coeffs(e->nc, 3)); run(e, g, EVAL, b, 0, 0, 0); Expr::setC(*g, c); } } else run(e, g, (Op)p, b, 0, 0, 0); }
        if (skip) continue; bad.clear();
        for (Op o : ops) if (have[o]) { mc::count("histories"); Cols r = run(e, g, o, a, 0, 0, 0); if (bad.size() || !same(e, o, r, base[o])) { std::string s; for (int p : h) s += std::string(" after ") + (p < 0 ? "other coefficients" : opName[p]); viol("history", o, s); return; } }
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews(); bool T = mc::ctx().thorough; unsigned k = 0; std::map<int, unsigned> seen;
    enumerate([&](E e) {
        ++k; unsigned q = seen[(int)e->kind]++;
        unsigned step = e->kind == COMP ? 5 : e->kind == COMPOSED ? 5 : e->kind == TRI ? 7 : e->kind == EXPAN ? 3 : 1;
        if (!T && q % step) return;
        if (!mc::take(e->name)) return;
        mc::distinct(mc::hashStr(e->name)); one(e, T);
    }, T);
    Kokkos::finalize(); return mc::finish();
}
