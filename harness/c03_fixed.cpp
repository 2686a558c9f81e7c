// C03: built-in and frozen index sets against their definitions.
#include "exact_alloc.h"
#include "mc.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include "MParT/MultiIndices/FixedMultiIndexSet.h"
using namespace mpart;
typedef std::vector<unsigned> V;
typedef FixedMultiIndexSet<Kokkos::HostSpace> Fixed;
static unsigned vsum(V const& v) { unsigned s = 0; for (auto x : v) s += x; return s; }
static std::vector<V> box(unsigned d, unsigned hi) {
    std::vector<V> o; size_t n = 1; for (unsigned i = 0; i < d; ++i) n *= hi + 1;
    for (size_t k = 0; k < n; ++k) { V v(d); size_t r = k; for (unsigned i = 0; i < d; ++i) { v[i] = r % (hi + 1); r /= hi + 1; } o.push_back(v); }
    return o;
}
struct Lim { std::string name; MultiIndexSet::LimiterType f; std::function<bool(V const&)> g; };
static std::vector<Lim> limiters(unsigned d) {
    using namespace MultiIndexLimiter;
    std::vector<Lim> o;
    o.push_back({"None", None(), [](V const&) { return true; }});
    for (unsigned p = 0; p <= 3; ++p) o.push_back({mc::cat("TotalOrder(", p, ")"), TotalOrder(p), [p](V const& v) { return vsum(v) <= p; }});
    for (unsigned lo = 0; lo <= d; ++lo) for (unsigned n = 0; lo + n <= d + 1; ++n)
        o.push_back({mc::cat("Dimension(", lo, ",", n, ")"), Dimension(lo, n), [lo, n](V const& v) { for (unsigned i = 0; i < v.size(); ++i) if ((i < lo || i >= lo + n) && v[i]) return false; return true; }});
    // weights are powers of two so that the documented strict and the implemented threshold are separated exactly
    for (double eps : {0.2, 0.6, 0.03}) {
        std::vector<double> w; for (unsigned i = 0; i < d; ++i) w.push_back(i % 3 == 0 ? 0.5 : i % 3 == 1 ? 0.25 : 1.0);
        o.push_back({mc::cat("Anisotropic(eps=", eps, ")"), Anisotropic(w, eps), [w, eps](V const& v) { double p = 1; for (unsigned i = 0; i < v.size(); ++i) for (unsigned k = 0; k < v[i]; ++k) p *= w[i]; return p > eps; }});
    }
    for (unsigned m = 0; m <= 2; ++m) o.push_back({mc::cat("MaxDegree(", m, ")"), MaxDegree(m, d), [m](V const& v) { for (auto x : v) if (x > m) return false; return true; }});
    V md; for (unsigned i = 0; i < d; ++i) md.push_back(i + (i == 0 ? 2 : 0));
    o.push_back({"MaxDegree(vec)", MaxDegree(md), [md](V const& v) { for (unsigned i = 0; i < v.size(); ++i) if (v[i] > md[i]) return false; return true; }});
    V wl(d + 1, 1); o.push_back({"MaxDegree(wrong length)", MaxDegree(wl), [](V const&) { return false; }});
    auto A = [](V const& v) { return vsum(v) <= 2; };
    auto B = [](V const& v) { return v[0] <= 1; };
    auto fB = [](MultiIndex const& m) { return m.Get(0) <= 1; };
    o.push_back({"And", And(TotalOrder(2), fB), [=](V const& v) { return A(v) && B(v); }});
    o.push_back({"Or", Or(TotalOrder(2), fB), [=](V const& v) { return A(v) || B(v); }});
    o.push_back({"Xor", Xor(TotalOrder(2), fB), [=](V const& v) { return A(v) != B(v); }});
    return o;
}
// A frozen set against the expected sequence of terms.
static void checkFixed(Fixed const& f, unsigned d, std::vector<V> const& terms, unsigned hi, std::string const& how) {
    mc::count("frozen_sets");
    if (f.Length() != d) mc::viol("fixed-length", mc::cat(how, " length ", f.Length()));
    if (f.Size() != terms.size()) { mc::viol("fixed-size", mc::cat(how, " size ", f.Size(), " expected ", terms.size())); return; }
    V md(d, 0);
    for (unsigned i = 0; i < terms.size(); ++i) {
        if (f.IndexToMulti(i) != terms[i]) { mc::viol("fixed-term", mc::cat(how, " term ", i, " is ", mc::str(f.IndexToMulti(i)), " expected ", mc::str(terms[i]))); return; }
        for (unsigned k = 0; k < d; ++k) md[k] = std::max(md[k], terms[i][k]);
        // the row tables that every evaluation reads must describe the same term
        V row(d, 0); bool ok = f.nzStarts.extent(0) == terms.size() + 1 && f.nzStarts(i + 1) >= f.nzStarts(i) && f.nzStarts(i + 1) <= f.nzOrders.extent(0) && f.nzStarts(i + 1) <= f.nzDims.extent(0);
        if (ok) for (unsigned j = f.nzStarts(i); j < f.nzStarts(i + 1); ++j) { if (f.nzDims(j) >= d) { ok = false; break; } row[f.nzDims(j)] += f.nzOrders(j); }
        if (!ok || row != terms[i]) { mc::viol("fixed-row", mc::cat(how, " rows read by evaluation describe term ", i, " as ", mc::str(row), " expected ", mc::str(terms[i]))); return; }
    }
    auto g = f.MaxDegrees();
    if (g.extent(0) != d) mc::viol("fixed-maxdegrees", how + " wrong length");
    else for (unsigned k = 0; k < d; ++k) if (g(k) != md[k]) mc::viol("fixed-maxdegrees", mc::cat(how, " dimension ", k, ": ", g(k), " expected ", md[k]));
    std::map<V, int> pos; for (unsigned i = 0; i < terms.size(); ++i) pos.emplace(terms[i], (int)i);
    for (auto const& v : box(d, hi)) {
        auto it = pos.find(v); int want = it == pos.end() ? -1 : it->second; int got = f.MultiToIndex(v);
        mc::count("lookups");
        if (got != want) { mc::viol(want < 0 ? "fixed-absent" : "fixed-lookup", mc::cat(how, " looking up ", mc::str(v), " gave ", got, " expected ", want)); return; }
    }
}
static void checkSet(MultiIndexSet const& s, unsigned d, std::set<V> const& want, unsigned hi, std::string const& how) {
    std::vector<V> terms; std::set<V> have;
    for (unsigned i = 0; i < s.Size(); ++i) { terms.push_back(s.IndexToMulti(i).Vector()); have.insert(terms.back()); if (s[i].Vector() != terms.back() || s.at(i).Vector() != terms.back()) mc::viol("set-access", how); }
    if (have != want || have.size() != terms.size()) { mc::viol("set-terms", mc::cat(how, " holds ", terms.size(), " terms (", have.size(), " distinct), expected ", want.size())); return; }
    if (s.Length() != d) mc::viol("set-length", how);
    V mo(d, 0); for (auto& t : terms) for (unsigned k = 0; k < d; ++k) mo[k] = std::max(mo[k], t[k]);
    if (s.MaxOrders() != mo) mc::viol("set-maxorders", how);
    for (auto const& v : box(d, hi)) {
        int got = s.MultiToIndex(MultiIndex(v)); bool in = want.count(v);
        if (in ? (got < 0 || got >= (int)terms.size() || terms[got] != v) : got != -1) { mc::viol("set-lookup", mc::cat(how, " looking up ", mc::str(v), " gave ", got)); return; }
    }
    checkFixed(s.Fix(true), d, terms, hi, how + " compressed");
    checkFixed(s.Fix(false), d, terms, hi, how + " dense");
    Fixed c = s.Fix(true); Fixed c2 = c; Fixed c3 = c.ToDevice<Kokkos::HostSpace>(); checkFixed(c2, d, terms, hi, how + " copied"); checkFixed(c3, d, terms, hi, how + " to-device");
    mc::distinct(mc::hashStr(mc::cat(d, how)));
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews();
    bool T = mc::ctx().thorough;
    for (unsigned d = 1; d <= (T ? 5u : 4u); ++d) for (unsigned p = 0; p <= (d <= 2 ? 6u : d == 3 ? 4u : 3u); ++p) {
        for (auto& L : limiters(d)) for (int kind = 0; kind < 2; ++kind) {
            if (kind == 1 && d >= 4 && p > 2) continue;
            std::string k = mc::cat(kind ? "tensor" : "total", " dim=", d, " order=", p, " limiter=", L.name);
            if (!mc::take(k)) continue; mc::sample(k);
            std::set<V> want;
            for (auto const& v : box(d, p)) if ((kind || vsum(v) <= p) && L.g(v)) want.insert(v);
            MultiIndexSet s = kind ? MultiIndexSet::CreateTensorProduct(d, p, L.f) : MultiIndexSet::CreateTotalOrder(d, p, L.f);
            checkSet(s, d, want, p + 1, k);
        }
        std::string k = mc::cat("direct dim=", d, " order=", p);
        if (mc::take(k)) {
            std::set<V> want; for (auto const& v : box(d, p)) if (vsum(v) <= p) want.insert(v);
            Fixed f(d, p); std::vector<V> terms; std::set<V> have;
            for (unsigned i = 0; i < f.Size(); ++i) { terms.push_back(f.IndexToMulti(i)); have.insert(terms.back()); }
            if (have != want || have.size() != terms.size()) mc::viol("direct-terms", k);
            else checkFixed(f, d, terms, p + 1, k);
            Fixed h = f; checkFixed(h, d, terms, p + 1, k + " copy");
        }
        // evaluation of limiters themselves on a larger box
        for (auto& L : limiters(d)) {
            std::string kk = mc::cat("limiter dim=", d, " ", L.name, " box=", p);
            if (!mc::take(kk)) continue;
            for (auto const& v : box(d, p)) { mc::count("limiter_calls"); if (L.f(MultiIndex(v)) != L.g(v)) mc::viol("limiter", mc::cat(kk, " at ", mc::str(v))); }
            if (L.name.rfind("Anisotropic", 0) == 0 || L.name.rfind("MaxDegree", 0) == 0) { if (L.f(MultiIndex(d + 1, 0)) && L.name != "MaxDegree(wrong length)") mc::viol("limiter-length", kk); }
        }
    }
    // The anisotropic threshold is documented as strict: product > epsilon.
    for (unsigned d = 1; d <= 2; ++d) { std::string k = mc::cat("anisotropic threshold dim=", d);
        if (mc::take(k)) { std::vector<double> w(d, 0.5); MultiIndexLimiter::Anisotropic L(w, 0.25);
            for (auto const& v : box(d, 3)) { double p = std::pow(0.5, vsum(v)); if (L(MultiIndex(v)) != (p > 0.25)) mc::viol("anisotropic-threshold", mc::cat("at ", mc::str(v), " product ", p)); } } }
    // Every subset of a small box, in two insertion orders, from a matrix, as explicit rows in both storage forms.
    for (unsigned d = 1; d <= 3; ++d) {
        auto b = box(d, d == 1 ? 5 : d == 2 ? 2 : 1);
        if (d == 2 && !T) b.resize(8);
        for (unsigned long m = 0; m < (1ul << b.size()); ++m) {
            std::string k = mc::cat("subset dim=", d, " mask=", m);
            if (!mc::take(k)) continue;
            std::vector<V> terms; for (size_t i = 0; i < b.size(); ++i) if (m >> i & 1) terms.push_back(b[i]);
            for (int rev = 0; rev < 2; ++rev) {
                std::vector<V> t = terms; if (rev) std::reverse(t.begin(), t.end());
                std::set<V> want(t.begin(), t.end());
                Eigen::MatrixXi M(t.size(), d); for (size_t i = 0; i < t.size(); ++i) for (unsigned j = 0; j < d; ++j) M(i, j) = t[i][j];
                MultiIndexSet s(M); checkSet(s, d, want, 3, k + " matrix");
                for (unsigned i = 0; i < s.Size(); ++i) if (s.IndexToMulti(i).Vector() != t[i]) { mc::viol("matrix-order", k); break; }
                Eigen::Matrix<int, -1, -1, Eigen::ColMajor> M2(2 * t.size(), d); M2 << M, M; MultiIndexSet s2(M2); checkSet(s2, d, want, 3, k + " doubled matrix");
                Kokkos::View<unsigned*, Kokkos::HostSpace> o("o", t.size() * d); for (size_t i = 0; i < t.size(); ++i) for (unsigned j = 0; j < d; ++j) o(i * d + j) = t[i][j];
                checkFixed(Fixed(d, o), d, t, 3, k + " explicit dense");
                unsigned nz = 0; for (auto& v : t) for (auto x : v) nz += x > 0;
                Kokkos::View<unsigned*, Kokkos::HostSpace> st("s", t.size() + 1), dm("d", nz), od("o", nz); unsigned c = 0;
                for (size_t i = 0; i < t.size(); ++i) { st(i) = c; for (unsigned j = 0; j < d; ++j) if (t[i][j]) { dm(c) = j; od(c) = t[i][j]; ++c; } } st(t.size()) = c;
                checkFixed(Fixed(d, st, dm, od), d, t, 3, k + " explicit compressed");
            }
        }
    }
    return mc::finish(); // Kokkos is left initialised on purpose: its views may outlive main
}
