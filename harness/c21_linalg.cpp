// C21: every shape (including empty ones), layout, transposition and scaling of the dense kernels and conversions, with small
// integer entries so that the textbook result is exact; padding around every argument is checked to stay untouched.
#include "exact_alloc.h"
#include "mc.h"
#include "MParT/Utilities/LinearAlgebra.h"
#include <Eigen/Dense>
using namespace mpart;
typedef Kokkos::HostSpace H;
typedef StridedMatrix<double, H> SM;
typedef StridedMatrix<const double, H> CSM;
typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> RowMat;
static const double PAD = 777.25, NaN = std::numeric_limits<double>::quiet_NaN();
static const char* LN[] = {"right", "left", "right+pad", "left+pad", "strided"};

// A matrix of given logical shape in one of five storage layouts, inside a buffer of exactly the size it needs.
struct Mat {
    int r, c, lay, s0, s1; std::vector<double> buf; // the buffer ends with the last element (AddressSanitizer sees any overrun)
    Mat(int r, int c, int lay) : r(r), c(c), lay(lay) {
        switch (lay) {
        case 0: s0 = c; s1 = 1; break;
        case 1: s0 = 1; s1 = r; break;
        case 2: s0 = c + 2; s1 = 1; break;
        case 3: s0 = 1; s1 = r + 3; break;
        default: s0 = 2; s1 = 2 * r + 1; break;
        }
        if (s0 < 1) s0 = 1; if (s1 < 1) s1 = 1;
        size_t n = (r > 0 && c > 0) ? (size_t)(r - 1) * s0 + (size_t)(c - 1) * s1 + 1 : 0;
        buf.assign(n, PAD); buf.shrink_to_fit();
    }
    double& at(int i, int j) { return buf[(size_t)i * s0 + (size_t)j * s1]; }
    SM view() { return Kokkos::View<double**, Kokkos::LayoutStride, H, Kokkos::MemoryTraits<Kokkos::Unmanaged>>(buf.data(), Kokkos::LayoutStride(r, s0, c, s1)); }
    CSM cview() { return CSM(view()); }
    void fill(int seed) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) at(i, j) = (double)(((i * 7 + j * 5 + seed * 3 + i * j) % 11) - 5); }
    void fillAll(double v) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) at(i, j) = v; }
    bool padOK() { // everything that is not an element still holds PAD
        std::vector<char> el(buf.size(), 0);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) el[(size_t)i * s0 + (size_t)j * s1] = 1;
        for (size_t k = 0; k < buf.size(); ++k) if (!el[k] && buf[k] != PAD) return false;
        return true;
    }
};
static std::string key;
static void fail(const char* cls, std::string const& d) { mc::viol(cls, key + " :: " + d); }
static void same(const char* cls, double got, double want, int i, int j, double tol = 0) {
    mc::count("entries_compared");
    if (!(std::fabs(got - want) <= tol)) fail(cls, mc::cat("(", i, ",", j, ") got ", got, " expected ", want));
}
typedef std::vector<std::vector<double>> VV;
static VV ref(Mat& m, bool t) { VV o(t ? m.c : m.r, std::vector<double>(t ? m.r : m.c)); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) (t ? o[j][i] : o[i][j]) = m.at(i, j); return o; }

static void products(int N, bool T) {
    double scal[5][2] = {{1, 0}, {2, -1}, {0, 3}, {-0.5, 0}, {1, 1}};
    for (int m = 0; m <= N; ++m) for (int k = 0; k <= N; ++k) for (int n = 0; n <= N; ++n) {
        if (!mc::take(mc::cat("dgemm ", m, "x", k, "x", n))) continue;
        for (int la = 0; la < 5; ++la) for (int lb = 0; lb < 5; ++lb) for (int lc = 0; lc < 5; ++lc)
        for (int ta = 0; ta < 2; ++ta) for (int tb = 0; tb < 2; ++tb) for (auto& s : scal) for (int dirty = 0; dirty < (s[1] == 0 ? 2 : 1); ++dirty) {
            Mat A(ta ? k : m, ta ? m : k, la), B(tb ? n : k, tb ? k : n, lb), C(m, n, lc);
            A.fill(1); B.fill(2); C.fill(3); if (dirty) C.fillAll(NaN);
            auto a0 = A.buf, b0 = B.buf;
            key = mc::cat("dgemm ", m, "x", k, "x", n, " A:", LN[la], ta ? "^T" : "", " B:", LN[lb], tb ? "^T" : "", " C:", LN[lc], " alpha=", s[0], " beta=", s[1], dirty ? " C undefined" : "");
            VV a = ref(A, ta), b = ref(B, tb), c0 = ref(C, false);
            TransposeObject<H> TA = ta ? transpose(A.cview()) : TransposeObject<H>(A.cview()), TB = tb ? transpose(transpose(transpose(B.cview()))) : transpose(transpose(B.cview()));
            if (TA.rows() != m || TA.cols() != k || TB.rows() != k || TB.cols() != n) fail("transpose shape", mc::cat(TA.rows(), "x", TA.cols(), " ", TB.rows(), "x", TB.cols()));
            dgemm<H>(s[0], TA, TB, s[1], C.view());
            for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double v = s[1] == 0 ? 0 : s[1] * c0[i][j]; for (int q = 0; q < k; ++q) v += s[0] * a[i][q] * b[q][j]; same(dirty ? "product into undefined memory" : "product", C.at(i, j), v, i, j); }
            if (A.buf != a0 || B.buf != b0) fail("product modified an input", "");
            if (!C.padOK()) fail("product wrote outside C", "");
            mc::distinct(mc::hashStr(key));
            if (lc == 0 && s[0] == 1 && s[1] == 0 && !dirty) { // operators and the overload without transposes
                auto chk = [&](const char* w, SM P) {
                    if ((int)P.extent(0) != m || (int)P.extent(1) != n) { fail(w, "shape"); return; }
                    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double v = 0; for (int q = 0; q < k; ++q) v += a[i][q] * b[q][j]; same(w, P(i, j), v, i, j); }
                };
                chk("operator* (T,T)", TA * TB);
                if (!ta) { chk("operator* (V,T)", A.view() * TB); chk("operator* (constV,T)", A.cview() * TB); }
                if (!tb) { chk("operator* (T,V)", TA * B.view()); }
                if (!ta && !tb) {
                    chk("operator* (V,V)", A.view() * B.view()); chk("operator* (constV,constV)", A.cview() * B.cview());
                    Mat D(m, n, lb); D.fill(9); dgemm(1.0, A.view(), B.view(), 0.0, D.view()); chk("dgemm (views)", D.view());
                }
            }
        }
    }
}
static void sums(int N) {
    for (int m = 0; m <= N; ++m) for (int n = 0; n <= N; ++n) {
        if (!mc::take(mc::cat("add ", m, "x", n))) continue;
        for (int la = 0; la < 5; ++la) for (int lb = 0; lb < 5; ++lb) {
            key = mc::cat("add ", m, "x", n, " ", LN[la], " ", LN[lb]);
            mc::distinct(mc::hashStr(key));
            auto each = [&](const char* w, std::function<void(Mat&, Mat&)> f) {
                Mat A(m, n, la), B(m, n, lb); A.fill(1); B.fill(2); VV a = ref(A, false), b = ref(B, false); auto b0 = B.buf;
                f(A, B);
                for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) same(w, A.at(i, j), a[i][j] + b[i][j], i, j);
                if (!A.padOK() || B.buf != b0) fail(w, "wrote outside its output");
            };
            each("AddInPlace", [&](Mat& A, Mat& B) { AddInPlace(A.view(), B.cview()); });
            each("operator+= (V)", [&](Mat& A, Mat& B) { SM x = A.view(), y = B.view(); x += y; });
            each("operator+ (const)", [&](Mat& A, Mat& B) { auto z = A.cview() + B.cview(); if ((int)z.extent(0) != m || (int)z.extent(1) != n) { fail("operator+", "shape"); return; } for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A.at(i, j) = z(i, j); });
            // columns and rows as vectors
            if (n > 0 && m > 0) {
                each("AddInPlace (vectors)", [&](Mat& A, Mat& B) { for (int j = 0; j < n; ++j) { SM a = A.view(); CSM b = B.cview();
                    StridedVector<double, H> x = Kokkos::subview(a, Kokkos::ALL(), j); StridedVector<const double, H> y = Kokkos::subview(b, Kokkos::ALL(), j);
                    if (j % 2) AddInPlace(x, y); else { auto z = StridedVector<const double, H>(x) + y; for (int i = 0; i < m; ++i) x(i) = z(i); } } });
                each("operator+ (plain)", [&](Mat& A, Mat& B) {
                    Kokkos::View<double**, H> x("x", m, n), y("y", m, n); Kokkos::deep_copy(x, A.view()); Kokkos::deep_copy(y, B.view());
                    auto z = x + y; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (x(i, j) != A.at(i, j) || y(i, j) != B.at(i, j)) fail("operator+ changed its argument", "");
                    x += y; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { if (x(i, j) != z(i, j)) fail("operator+= differs from operator+", ""); A.at(i, j) = z(i, j); } });
            }
        }
    }
}
template <ReduceDimMap Map, unsigned D> static void reduce1(Mat& A, double alpha) {
    ReduceDim<Map, H, D> rd(A.view(), alpha);
    int keep = D == 1 ? A.r : A.c, red = D == 1 ? A.c : A.r;
    std::vector<double> out(keep, NaN);
    Kokkos::parallel_reduce(red, rd, out.data());
    for (int i = 0; i < keep; ++i) { double v = 0; for (int j = 0; j < red; ++j) { double x = D == 1 ? A.at(i, j) : A.at(j, i); v += alpha * (Map == ReduceDimMap::sum ? x : x * x); } same("reduction", out[i], v, i, 0); }
    if (rd.value_count != (size_t)keep) fail("reduction", "size");
}
static void reductions(int N) {
    for (int m = 1; m <= N + 3; ++m) for (int n = 0; n <= N + 3; ++n) {
        if (!mc::take(mc::cat("reduce ", m, "x", n))) continue;
        for (int la = 0; la < 5; ++la) for (double al : {1.0, -0.5, 0.0, 4.0}) {
            key = mc::cat("reduce ", m, "x", n, " ", LN[la], " alpha=", al); mc::distinct(mc::hashStr(key));
            Mat A(m, n, la); A.fill(4); auto a0 = A.buf;
            reduce1<ReduceDimMap::sum, 1>(A, al); reduce1<ReduceDimMap::norm, 1>(A, al);
            if (n > 0) { reduce1<ReduceDimMap::sum, 0>(A, al); reduce1<ReduceDimMap::norm, 0>(A, al); }
            if (A.buf != a0) fail("reduction modified its input", "");
        }
    }
}
static double leibniz(std::vector<std::vector<double>> const& a) {
    int n = a.size(); if (n == 0) return 1; if (n == 1) return a[0][0];
    double d = 0;
    for (int k = 0; k < n; ++k) { VV b; for (int i = 1; i < n; ++i) { std::vector<double> r; for (int j = 0; j < n; ++j) if (j != k) r.push_back(a[i][j]); b.push_back(r); } d += (k % 2 ? -1 : 1) * a[0][k] * leibniz(b); }
    return d;
}
typedef Kokkos::View<double**, Kokkos::LayoutLeft, H> LM;
static LM leftOf(Mat& m, std::vector<double>& own) { return LM(Kokkos::View<double**, Kokkos::LayoutLeft, H, Kokkos::MemoryTraits<Kokkos::Unmanaged>>(own.data(), m.r, m.c)); }
struct LeftMat { int r, c, ld; LM base; LM v; LeftMat(int r, int c, int pad) : r(r), c(c), ld(r + pad), base("b", r + pad, c) { Kokkos::deep_copy(base, PAD); v = Kokkos::subview(base, std::make_pair(0, r), Kokkos::ALL()); }
    bool padOK() { for (int j = 0; j < c; ++j) for (int i = r; i < ld; ++i) if (base(i, j) != PAD) return false; return true; } };

static void factor(VV const& a, bool spd, VV const& Lref) {
    int n = a.size();
    double det = leibniz(a);
    for (int pad = 0; pad < 2; ++pad) {
        LeftMat A(n, n, pad * 2); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A.v(i, j) = a[i][j];
        for (int solver = 0; solver < (spd ? 2 : 1); ++solver) {
            Kokkos::View<const double**, Kokkos::LayoutLeft, H> cA = A.v;
            PartialPivLU<H> lu; Cholesky<H> ch;
            if (pad) { if (solver) ch = Cholesky<H>(cA); else lu = PartialPivLU<H>(cA); } else { if (solver) ch.compute(cA); else lu.compute(cA); }
            double d = solver ? ch.determinant() : lu.determinant();
            same(solver ? "Cholesky determinant" : "LU determinant", d, det, 0, 0, 1e-11 * (1 + std::fabs(det)));
            if (det == 0) continue;
            for (int k = 0; k <= 3; ++k) for (int lay = 0; lay < 5; ++lay) {
                Mat X(n, k, lay); X.fill(6);
                LeftMat B(n, k, lay % 2 ? 3 : 0);
                for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { double v = 0; for (int q = 0; q < n; ++q) v += a[i][q] * X.at(q, j); B.v(i, j) = v; }
                Mat R(n, k, lay); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) R.at(i, j) = B.v(i, j);
                auto r0 = R.buf;
                auto S = solver ? ch.solve(R.cview()) : lu.solve(R.cview());
                if ((int)S.extent(0) != n || (int)S.extent(1) != k) { fail("solve", "shape"); continue; }
                for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) same(solver ? "Cholesky solve" : "LU solve", S(i, j), X.at(i, j), i, j, 1e-9);
                if (R.buf != r0) fail("solve changed its argument", "");
                if (solver) ch.solveInPlace(B.v); else lu.solveInPlace(B.v);
                for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) same(solver ? "Cholesky solveInPlace" : "LU solveInPlace", B.v(i, j), X.at(i, j), i, j, 1e-9);
                if (!B.padOK()) fail("solveInPlace wrote outside", "");
                if (solver) {
                    LeftMat Y(n, k, lay % 2 ? 1 : 0); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) Y.v(i, j) = X.at(i, j);
                    auto M = ch.multiplyL(Kokkos::View<const double**, Kokkos::LayoutLeft, H>(Y.v));
                    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { double v = 0; for (int q = 0; q < n; ++q) v += Lref[i][q] * X.at(q, j); same("Cholesky multiplyL", M(i, j), v, i, j, 1e-10); Y.v(i, j) = v; }
                    ch.solveInPlaceL(Y.v);
                    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) same("Cholesky solveInPlaceL", Y.v(i, j), X.at(i, j), i, j, 1e-10);
                    if (!Y.padOK()) fail("solveInPlaceL wrote outside", "");
                }
            }
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (A.v(i, j) != a[i][j]) fail("factorisation changed its argument", "");
        }
    }
}
static void factors(bool T) {
    std::vector<int> E2{-2, -1, 0, 1, 3}, E3 = T ? std::vector<int>{-1, 0, 1, 2} : std::vector<int>{-1, 0, 2};
    for (int n = 0; n <= 3; ++n) {
        std::vector<int> const& E = n <= 2 ? E2 : E3;
        int tot = 1; for (int i = 0; i < n * n; ++i) tot *= E.size();
        for (int ch = 0; ch < tot; ch += 256) {
            if (!mc::take(mc::cat("LU ", n, "x", n, " block ", ch))) continue;
            for (int q = ch; q < std::min(tot, ch + 256); ++q) {
                VV a(n, std::vector<double>(n)); int z = q; for (auto& r : a) for (auto& x : r) { x = E[z % E.size()]; z /= E.size(); }
                key = mc::cat("LU ", n, " #", q); mc::distinct(mc::hashStr(key)); factor(a, false, {});
            }
        }
    }
    for (int n = 0; n <= 4; ++n) { // SPD matrices L L^T
        int off = n * (n - 1) / 2, tot = 1 << n; for (int i = 0; i < off; ++i) tot *= (n < 4 || T) ? 3 : 2;
        int base = (n < 4 || T) ? 3 : 2;
        for (int ch = 0; ch < tot; ch += 256) {
            if (!mc::take(mc::cat("Cholesky ", n, "x", n, " block ", ch))) continue;
            for (int q = ch; q < std::min(tot, ch + 256); ++q) {
                VV L(n, std::vector<double>(n, 0)), a = L; int z = q;
                for (int i = 0; i < n; ++i) { L[i][i] = 1 + (z % 2); z /= 2; }
                for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { L[i][j] = (z % base) - 1; z /= base; }
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int p = 0; p < n; ++p) a[i][j] += L[i][p] * L[j][p];
                key = mc::cat("Cholesky ", n, " #", q); mc::distinct(mc::hashStr(key)); factor(a, true, L);
            }
        }
    }
}
// --- conversions. got(i,j) must equal the logical matrix; writing through an aliasing result must show in the source and vice versa.
template <class V> static void eqM(const char* w, V const& v, Mat& m) { if ((int)v.extent(0) != m.r || (int)v.extent(1) != m.c) { fail(w, mc::cat("shape ", v.extent(0), "x", v.extent(1))); return; } for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) same(w, v(i, j), m.at(i, j), i, j); }
template <class V> static void eqE(const char* w, V const& v, Mat& m) { if (v.rows() != m.r || v.cols() != m.c) { fail(w, mc::cat("shape ", v.rows(), "x", v.cols())); return; } for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) same(w, v(i, j), m.at(i, j), i, j); }
static void conversions(int N) {
    typedef Eigen::Map<Eigen::MatrixXd, 0, Eigen::Stride<-1, -1>> CMap; typedef Eigen::Map<RowMat, 0, Eigen::Stride<-1, -1>> RMap;
    for (int m = 0; m <= N; ++m) for (int n = 0; n <= N; ++n) {
        if (!mc::take(mc::cat("convert ", m, "x", n))) continue;
        for (int la = 0; la < 5; ++la) {
            key = mc::cat("convert ", m, "x", n, " ", LN[la]); mc::distinct(mc::hashStr(key));
            Mat A(m, n, la); A.fill(5);
            CMap ec(A.buf.data(), m, n, Eigen::Stride<-1, -1>(A.s1, A.s0)); RMap er(A.buf.data(), m, n, Eigen::Stride<-1, -1>(A.s0, A.s1));
            auto v1 = MatToKokkos<double>(ec); eqM("MatToKokkos(column-major Eigen)", v1, A);
            Eigen::Ref<RowMat, 0, Eigen::Stride<-1, -1>> rr(er);
            auto v2 = MatToKokkos<double>(rr); eqM("MatToKokkos(row-major Eigen)", v2, A);
            if (m && n) { v1(m - 1, n - 1) = 41; v2(0, 0) = 42; if (A.at(0, 0) != 42 || (m * n > 1 && A.at(m - 1, n - 1) != 41)) fail("MatToKokkos does not alias", ""); A.fill(5); }
            if (A.s1 == 1) { // rows contiguous: the row-major reference binds without a copy
                Eigen::Map<RowMat, 0, Eigen::Stride<-1, 1>> e1(A.buf.data(), m, n, Eigen::Stride<-1, 1>(A.s0, 1));
                Eigen::Ref<const RowMat, 0, Eigen::Stride<-1, 1>> r1(e1);
                auto v = ConstRowMatToKokkos<double>(r1); eqM("ConstRowMatToKokkos", v, A);
                if (m && n) { if (v.data() != A.buf.data()) fail("ConstRowMatToKokkos does not alias", ""); A.at(m - 1, n - 1) = 43; same("ConstRowMatToKokkos alias", v(m - 1, n - 1), 43, m - 1, n - 1); A.fill(5); }
                Eigen::Ref<const RowMat> r2(e1); auto vv = ConstRowMatToKokkos<double, H>(r2); eqM("ConstRowMatToKokkos(Ref)", vv, A);
                CSM as = ConstRowMatToKokkos<double, H>(r2); eqM("ConstRowMatToKokkos as strided", as, A);
            }
            if (A.s0 == 1) {
                Eigen::Map<Eigen::MatrixXd, 0, Eigen::Stride<-1, 1>> e1(A.buf.data(), m, n, Eigen::Stride<-1, 1>(A.s1, 1));
                Eigen::Ref<const Eigen::MatrixXd, 0, Eigen::Stride<-1, 1>> r1(e1);
                auto v = ConstColMatToKokkos<double>(r1); eqM("ConstColMatToKokkos", v, A);
                if (m && n && v.data() != A.buf.data()) fail("ConstColMatToKokkos does not alias", "");
                CSM as = ConstColMatToKokkos<double, H>(r1); eqM("ConstColMatToKokkos as strided", as, A);
            }
            { auto e = KokkosToMat(A.view()); eqE("KokkosToMat(strided)", e, A); if (m && n) { e(m - 1, n - 1) = 44; same("KokkosToMat alias", A.at(m - 1, n - 1), 44, m - 1, n - 1); A.fill(5); } }
            { auto e = ConstKokkosToMat(A.cview()); eqE("ConstKokkosToMat(strided)", e, A); }
            { Kokkos::LayoutStride q(n, A.s1); }
            { auto e = CopyKokkosToMat(A.view()); eqE("CopyKokkosToMat(strided)", e, A); if (m && n) { e(0, 0) = 45; if (A.at(0, 0) == 45) fail("CopyKokkosToMat aliases", ""); } }
            if (la == 0 || la == 2) { // LayoutRight views, plain and with a longer row stride
                Kokkos::View<double**, Kokkos::LayoutRight, H> base("b", m, n + (la == 2 ? 2 : 0)), v = base; Kokkos::deep_copy(base, PAD);
                if (la == 2) v = Kokkos::subview(base, Kokkos::ALL(), std::make_pair(0, n));
                for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) v(i, j) = A.at(i, j);
                eqE("KokkosToMat(right)", KokkosToMat(v), A); eqE("CopyKokkosToMat(right)", CopyKokkosToMat(v), A);
                Kokkos::View<const double**, Kokkos::LayoutRight, H> cv = v; eqE("ConstKokkosToMat(right)", ConstKokkosToMat(cv), A);
                auto h = ToHost(SM(v)); eqM("ToHost", h, A);
                if (m && n) { auto e = KokkosToMat(v); e(m - 1, n - 1) = 46; if (v(m - 1, n - 1) != 46) fail("KokkosToMat(right) does not alias", ""); }
            }
            if (la == 1 || la == 3) {
                LeftMat L(m, n, la == 3 ? 3 : 0); LM v = L.v;
                for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) v(i, j) = A.at(i, j);
                eqE("KokkosToMat(left)", KokkosToMat(v), A); eqE("CopyKokkosToMat(left)", CopyKokkosToMat(v), A);
                Kokkos::View<const double**, Kokkos::LayoutLeft, H> cv = v; eqE("ConstKokkosToMat(left)", ConstKokkosToMat(cv), A);
                if (m && n) { auto e = KokkosToMat(v); e(m - 1, n - 1) = 46; if (v(m - 1, n - 1) != 46) fail("KokkosToMat(left) does not alias", ""); }
            }
            if (la == 0) {
                auto v = ToKokkos<double, Kokkos::LayoutRight>(A.buf.data(), m, n); eqM("ToKokkos(right)", v, A);
                auto c = ToConstKokkos<double, Kokkos::LayoutRight>(A.buf.data(), m, n); eqM("ToConstKokkos(right)", c, A);
                if (n) { auto s = MatToKokkos<double, H>(A.buf, n); auto sc = MatToConstKokkos<double, H>(A.buf, n); if (m) { eqM("MatToKokkos(vector)", s, A); eqM("MatToConstKokkos(vector)", sc, A); s(m - 1, 0) = 47; same("MatToKokkos alias", A.at(m - 1, 0), 47, 0, 0); A.fill(5); } }
            }
            if (la == 1) { auto v = ToKokkos<double>(A.buf.data(), m, n); eqM("ToKokkos(left)", v, A); auto c = ToConstKokkos<double>(A.buf.data(), m, n); eqM("ToConstKokkos(left)", c, A); }
            { auto v = ToKokkos<double>(std::make_tuple((long)A.buf.data(), std::make_tuple(m, n), std::make_tuple(A.s0, A.s1))); eqM("ToKokkos(tuple)", v, A); if (m && n && v.data() != A.buf.data()) fail("ToKokkos(tuple) does not alias", ""); }
            // every column and row as a vector
            for (int row = 0; row < 2; ++row) for (int j = 0; j < (row ? m : n); ++j) {
                int len = row ? n : m, st = row ? A.s1 : A.s0; if (len == 0) continue;
                double* p = row ? &A.at(j, 0) : &A.at(0, j);
                auto el = [&](int i) -> double& { return row ? A.at(j, i) : A.at(i, j); };
                Eigen::Map<Eigen::VectorXd, 0, Eigen::InnerStride<>> ev(p, len, Eigen::InnerStride<>(st));
                auto v = VecToKokkos<double>(ev);
                StridedVector<double, H> sv = ToKokkos<double>(std::make_tuple((long)p, len, st));
                auto back = KokkosToVec(sv); auto cp = CopyKokkosToVec(sv); auto st2 = KokkosToStd(sv);
                if ((int)v.extent(0) != len || (int)sv.extent(0) != len || back.size() != len || cp.size() != len || (int)st2.size() != len) { fail("vector conversion size", ""); continue; }
                for (int i = 0; i < len; ++i) { same("VecToKokkos(Eigen)", v(i), el(i), i, j); same("ToKokkos(tuple vector)", sv(i), el(i), i, j); same("KokkosToVec", back(i), el(i), i, j); same("CopyKokkosToVec", cp(i), el(i), i, j); same("KokkosToStd", st2[i], el(i), i, j); }
                v(len - 1) = 48; same("VecToKokkos alias", el(len - 1), 48, 0, 0); same("KokkosToVec alias", back(len - 1), 48, 0, 0); if (cp(len - 1) == 48 || st2[len - 1] == 48) fail("vector copy aliases", ""); A.fill(5);
            }
        }
        if (n == 0) { // plain vectors of length m
            std::vector<double> x(m); for (int i = 0; i < m; ++i) x[i] = i * i - 2; auto x0 = x;
            auto a = ToKokkos<double>(x.data(), m); auto b = ToConstKokkos<double>(x.data(), m); auto c = VecToKokkos<double, H>(x); auto d = ConstVecToKokkos<double, H>(x); auto e = VecToConstKokkos<double, H>(x);
            auto ev = KokkosToVec(a); auto ec = CopyKokkosToVec(a); auto es = KokkosToStd(a); auto th = ToHost(Kokkos::View<double*, H>(a));
            for (auto n2 : {(int)a.extent(0), (int)b.extent(0), (int)c.extent(0), (int)d.extent(0), (int)e.extent(0), (int)ev.size(), (int)ec.size(), (int)es.size(), (int)th.extent(0)}) if (n2 != m) fail("vector length", mc::cat(n2));
            for (int i = 0; i < m; ++i) for (double g : {a(i), b(i), c(i), d(i), e(i), ev(i), ec(i), es[i], th(i)}) same("vector conversion", g, x0[i], i, 0);
            if (m) { x[m - 1] = 49; for (double g : {a(m - 1), b(m - 1), c(m - 1), d(m - 1), e(m - 1), ev(m - 1)}) same("vector alias", g, 49, m - 1, 0); if (ec(m - 1) == 49 || es[m - 1] == 49) fail("vector copy aliases", ""); }
        }
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    Kokkos::initialize(); exactViews();
    bool T = mc::ctx().thorough; int N = T ? 4 : 3;
    products(N, T); sums(N + 1); reductions(N); factors(T); conversions(N + 1);
    mc::sample("all shapes 0..3 with five layouts per argument");
    return mc::finish();
}
