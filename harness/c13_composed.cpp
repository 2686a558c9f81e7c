// C13: every (number of layers, pattern of layers with and without coefficients, memory budget, operation): the layers are recording
// stand-ins that know the state they must be asked at; live heap bytes are measured at every call into a layer.
#include "exact_alloc.h"
#include "mc.h"
#include "alloc.h"
#include "MParT/ComposedMap.h"
#include <Kokkos_Core.hpp>
#include <memory>
typedef Kokkos::HostSpace HS;
using mpart::StridedMatrix; using mpart::StridedVector;
typedef StridedMatrix<const double, HS> CM; typedef StridedMatrix<double, HS> MM; typedef std::vector<double> Vec;

static const unsigned DIM = 2;
static unsigned NP = 3;
static size_t peak, base;
static int calls;
static std::string fault;
static std::vector<std::vector<Vec>> truth;   // truth[layer][point] = state the layer receives
static size_t live() { return heap::bytes(); }
static void note() { size_t l = live(); peak = std::max(peak, l > base ? l - base : 0); ++calls; }

// layer k: y0 = a x0 + 0.1 sin(x1) + c-part, y1 = b x1 + 0.2 x0^2/(1+x0^2); increasing diagonal, non-zero off-diagonals, coefficients scale terms
struct Shape { double a, b, c; bool has; };
static void fval(Shape const& s, double x0, double x1, double* y) { y[0] = s.a * x0 + 0.1 * std::sin(x1 + s.c); y[1] = s.b * x1 + 0.2 * s.c * x0 * x0 / (1 + x0 * x0) + 0.3 * std::sin(x0); }
static void fjac(Shape const& s, double x0, double x1, double J[2][2]) { J[0][0] = s.a; J[0][1] = 0.1 * std::cos(x1 + s.c); J[1][0] = 0.2 * s.c * 2 * x0 / ((1 + x0 * x0) * (1 + x0 * x0)) + 0.3 * std::cos(x0); J[1][1] = s.b; }
static void fcoef(Shape const& s, double x0, double x1, double* g) { g[0] = 0.1 * std::cos(x1 + s.c); g[1] = 0.2 * x0 * x0 / (1 + x0 * x0); }
// its log-determinant: any smooth function will do for the chain rule
static double fld(Shape const& s, double x0, double x1) { return 0.3 * std::sin(x0 + 0.5 * s.c) + 0.2 * x0 * x1 + 0.1 * s.c * x1; }
static void fldx(Shape const& s, double x0, double x1, double* g) { g[0] = 0.3 * std::cos(x0 + 0.5 * s.c) + 0.2 * x1; g[1] = 0.2 * x0 + 0.1 * s.c; }
static double fldc(Shape const& s, double x0, double x1) { return 0.15 * std::cos(x0 + 0.5 * s.c) + 0.1 * x1; }

struct Layer : mpart::ConditionalMapBase<HS> {
    unsigned k; Shape s0;
    Layer(unsigned k, Shape s) : mpart::ConditionalMapBase<HS>(DIM, DIM, s.has ? 1 : 0), k(k), s0(s) {}
    Shape S() const { Shape s = s0; if (s.has) s.c = this->savedCoeffs(0); return s; }
    void at(const char* what, CM const& pts) {
        note();
        if (pts.extent(0) != DIM || pts.extent(1) != NP) { fault = mc::cat(what, " of layer ", k, " was given points of shape ", pts.extent(0), "x", pts.extent(1)); return; }
        for (unsigned p = 0; p < NP; ++p) for (unsigned i = 0; i < DIM; ++i) if (!mc::close(pts(i, p), truth[k][p][i], 1e-12, 1e-12)) { if (fault.empty()) fault = mc::cat(what, " of layer ", k, " was asked at ", pts(i, p), " instead of ", truth[k][p][i], " (point ", p, ", entry ", i, ")"); return; }
    }
    void EvaluateImpl(CM const& pts, MM out) override { at("Evaluate", pts); Shape s = S(); for (unsigned p = 0; p < pts.extent(1); ++p) { double y[2]; fval(s, pts(0, p), pts(1, p), y); out(0, p) = y[0]; out(1, p) = y[1]; } }
    void GradientImpl(CM const& pts, CM const& sens, MM out) override { at("Gradient", pts); Shape s = S(); for (unsigned p = 0; p < pts.extent(1); ++p) { double J[2][2]; fjac(s, pts(0, p), pts(1, p), J); double u = sens(0, p), v = sens(1, p); out(0, p) = u * J[0][0] + v * J[1][0]; out(1, p) = u * J[0][1] + v * J[1][1]; } }
    void CoeffGradImpl(CM const& pts, CM const& sens, MM out) override { at("CoeffGrad", pts); if (!s0.has) return; Shape s = S(); for (unsigned p = 0; p < pts.extent(1); ++p) { double g[2]; fcoef(s, pts(0, p), pts(1, p), g); out(0, p) = sens(0, p) * g[0] + sens(1, p) * g[1]; } }
    void LogDeterminantImpl(CM const& pts, StridedVector<double, HS> out) override { at("LogDeterminant", pts); Shape s = S(); for (unsigned p = 0; p < pts.extent(1); ++p) out(p) = fld(s, pts(0, p), pts(1, p)); }
    void LogDeterminantCoeffGradImpl(CM const& pts, MM out) override { at("LogDeterminantCoeffGrad", pts); if (!s0.has) return; Shape s = S(); for (unsigned p = 0; p < pts.extent(1); ++p) out(0, p) = fldc(s, pts(0, p), pts(1, p)); }
    void LogDeterminantInputGradImpl(CM const& pts, MM out) override { at("LogDeterminantInputGrad", pts); Shape s = S(); for (unsigned p = 0; p < pts.extent(1); ++p) { double g[2]; fldx(s, pts(0, p), pts(1, p), g); out(0, p) = g[0]; out(1, p) = g[1]; } }
    void InverseImpl(CM const&, CM const& r, MM out) override { note(); for (unsigned p = 0; p < r.extent(1); ++p) for (unsigned i = 0; i < DIM; ++i) {
        if (!mc::close(r(i, p), truth[k + 1][p][i], 1e-12, 1e-12)) { if (fault.empty()) fault = mc::cat("Inverse of layer ", k, " was asked for ", r(i, p), " instead of ", truth[k + 1][p][i]); }
        out(i, p) = truth[k][p][i]; } }
};
static const char* OPS[] = {"Evaluate", "LogDeterminant", "Gradient", "CoeffGrad", "LogDeterminantCoeffGrad", "LogDeterminantInputGrad", "Inverse"};

struct Result { size_t peak; int calls; };
static Result run(unsigned n, unsigned pattern, int budget, int op, bool report) {
    std::vector<Shape> S; std::vector<std::shared_ptr<mpart::ConditionalMapBase<HS>>> L; Vec c;
    for (unsigned k = 0; k < n; ++k) { Shape s{0.9 + 0.07 * (k % 5), 1.1 - 0.09 * (k % 4), 0.3 - 0.11 * (k % 7), bool(pattern >> (k % 16) & 1)}; if (s.has) c.push_back(s.c); S.push_back(s); L.push_back(std::make_shared<Layer>(k, s)); }
    mpart::ComposedMap<HS> m(L, false, budget);
    if (m.inputDim != DIM || m.outputDim != DIM || m.numCoeffs != c.size()) { mc::viol("dimensions", mc::ctx().current); return {0, 0}; }
    if (c.size()) { Kokkos::View<double*, HS> v("c", c.size()); for (size_t i = 0; i < c.size(); ++i) v(i) = c[i]; m.SetCoeffs(Kokkos::View<const double*, HS>(v)); }
    truth.assign(n + 1, std::vector<Vec>(NP, Vec(2))); Kokkos::View<double**, HS> X("x", DIM, NP), Sens("s", DIM, NP);
    for (unsigned p = 0; p < NP; ++p) { truth[0][p] = {0.4 - 0.3 * (p % 11), -0.2 + 0.17 * (p % 7)}; for (int i = 0; i < 2; ++i) { X(i, p) = truth[0][p][i]; Sens(i, p) = 0.7 - 0.5 * i + 0.1 * (p % 5); } }
    for (unsigned k = 0; k < n; ++k) for (unsigned p = 0; p < NP; ++p) fval(S[k], truth[k][p][0], truth[k][p][1], truth[k + 1][p].data());
    // the plain chain rule
    unsigned rows = op == 1 ? 1 : op == 3 || op == 4 ? c.size() : DIM; std::vector<Vec> want(NP, Vec(rows));
    for (unsigned p = 0; p < NP; ++p) {
        if (op == 0) want[p] = truth[n][p];
        if (op == 6) want[p] = truth[0][p];
        if (op == 1) for (unsigned k = 0; k < n; ++k) want[p][0] += fld(S[k], truth[k][p][0], truth[k][p][1]);
        if (op >= 2 && op <= 5) {
            double s[2] = {op <= 3 ? Sens(0, p) : 0, op <= 3 ? Sens(1, p) : 0}; unsigned e = c.size();
            for (int k = n - 1; k >= 0; --k) {
                double x0 = truth[k][p][0], x1 = truth[k][p][1], J[2][2], g[2]; fjac(S[k], x0, x1, J); fcoef(S[k], x0, x1, g);
                if (S[k].has) { --e; if (op == 3 || op == 4) want[p][e] = s[0] * g[0] + s[1] * g[1] + (op == 4 ? fldc(S[k], x0, x1) : 0); }
                double t0 = s[0] * J[0][0] + s[1] * J[1][0], t1 = s[0] * J[0][1] + s[1] * J[1][1];
                if (op >= 4) { fldx(S[k], x0, x1, g); t0 += g[0]; t1 += g[1]; }
                s[0] = t0; s[1] = t1;
            }
            if (op == 2 || op == 5) want[p] = {s[0], s[1]};
        }
    }
    Kokkos::View<double**, HS> out("o", rows, NP); Kokkos::View<double*, HS> o1("o", NP);
    for (unsigned i = 0; i < rows; ++i) for (unsigned p = 0; p < NP; ++p) out(i, p) = -77.5;
    for (unsigned p = 0; p < NP; ++p) o1(p) = -77.5;
    CM cx = X, cs = Sens; Kokkos::View<double**, HS> Rv("r", DIM, NP); for (unsigned p = 0; p < NP; ++p) for (int i = 0; i < 2; ++i) Rv(i, p) = truth[n][p][i];
    CM cr = Rv;
    fault.clear(); peak = 0; calls = 0; base = live();
    switch (op) {
    case 0: m.EvaluateImpl(cx, out); break; case 1: m.LogDeterminantImpl(cx, o1); break; case 2: m.GradientImpl(cx, cs, out); break;
    case 3: m.CoeffGradImpl(cx, cs, out); break; case 4: m.LogDeterminantCoeffGradImpl(cx, out); break; case 5: m.LogDeterminantInputGradImpl(cx, out); break; case 6: m.InverseImpl(cx, cr, out); break;
    }
    Result R{peak, calls};
    if (!report) return R;
    mc::count("transitions", calls); mc::count("traces");
    if (!fault.empty()) mc::viol("layer-state", mc::cat(mc::ctx().current, " ", OPS[op], ": ", fault));
    for (unsigned p = 0; p < NP; ++p) for (unsigned i = 0; i < rows; ++i) { double got = op == 1 ? o1(p) : out(i, p); if (!mc::close(got, want[p][i], 1e-10, 1e-12)) { mc::viol("result", mc::cat(mc::ctx().current, " ", OPS[op], " point ", p, " entry ", i, ": ", got, " expected ", want[p][i])); p = NP; break; } }
    for (unsigned p = 0; p < NP; ++p) for (unsigned i = 0; i < DIM; ++i) if (X(i, p) != truth[0][p][i]) { mc::viol("input-modified", mc::ctx().current); p = NP; break; }
    return R;
}
int main(int argc, char** argv) {
    mc::init(argc, argv); bool T = mc::ctx().thorough;
    Kokkos::initialize(); exactViews();
    // (1) results and states, every budget; all patterns of coefficient-less layers for few layers
    unsigned allPat = T ? 8 : 6, N = T ? 40 : 18;
    for (unsigned n = 1; n <= N; ++n) {
        std::vector<unsigned> pats; if (n <= allPat) for (unsigned m = 0; m < (1u << n); ++m) pats.push_back(m); else pats = {0xffffu, 0x5b6du};
        for (unsigned pat : pats) for (int b = -1; b <= (int)n + 2; ++b) {
            if (!mc::take(mc::cat("layers=", n, ",pattern=", pat, ",budget=", b))) continue;
            NP = 3; mc::distinct(mc::hashStr(mc::ctx().current)); mc::sample(mc::ctx().current);
            for (int op = 0; op < 7; ++op) run(n, pat, b, op, true);
        }
    }
    // (2) live states: in units of one state of a large batch; what is held beyond a budget of one may grow by at most one state per
    // unit of budget, and with a fixed budget nothing may grow with the number of layers
    for (unsigned n = 1; n <= (T ? 24u : 12u); ++n) for (int b = 1; b <= (int)n + 1; ++b) {
        if (!mc::take(mc::cat("live:layers=", n, ",budget=", b))) continue;
        NP = 4096; double unit; { size_t a = live(); Kokkos::View<double**, Kokkos::LayoutLeft, HS> v("u", DIM, NP); unit = live() - a; } mc::distinct(mc::hashStr(mc::ctx().current));
        for (int op = 0; op < 6; ++op) {
            size_t one = run(2, 0xffff, 1, op, false).peak, mine = run(n, 0xffff, b, op, false).peak;
            double extra = (double(mine) - double(one)) / unit; mc::count("live_measurements");
            if (extra > b - 1 + 0.45) mc::viol("budget", mc::cat(mc::ctx().current, " ", OPS[op], ": ", extra, " states more than with a budget of one"));
        }
    }
    return mc::finish();
}
