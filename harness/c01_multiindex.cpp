// C01: every construction and edit history of a MultiIndex against a dense integer vector.
#include "mc.h"
#include "MParT/MultiIndices/MultiIndex.h"
#include <iostream>
using namespace mpart;
typedef std::vector<unsigned> V;
static std::string text(V const& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + std::to_string(v[i]); return s; }
static unsigned vsum(V const& v) { unsigned s = 0; for (auto x : v) s += x; return s; }
static unsigned vmax(V const& v) { unsigned s = 0; for (auto x : v) s = std::max(s, x); return s; }
static unsigned vnz(V const& v) { unsigned s = 0; for (auto x : v) s += x > 0; return s; }
static int cmp(V const& a, V const& b) {   // the documented order
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    if (vsum(a) != vsum(b)) return vsum(a) < vsum(b) ? -1 : 1;
    if (vmax(a) != vmax(b)) return vmax(a) < vmax(b) ? -1 : 1;
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
static bool same(MultiIndex const& m, V const& v, std::string const& how) {
    bool ok = true;
    auto bad = [&](const char* what, std::string got, std::string want) {
        ok = false; mc::viol(std::string("observe-") + what, mc::cat(how, ": expected ", want, " got ", got)); };
    if (m.Length() != v.size()) bad("Length", std::to_string(m.Length()), std::to_string(v.size()));
    if (m.Sum() != vsum(v)) bad("Sum", std::to_string(m.Sum()), std::to_string(vsum(v)));
    if (m.Max() != vmax(v)) bad("Max", std::to_string(m.Max()), std::to_string(vmax(v)));
    if (m.NumNz() != vnz(v)) bad("NumNz", std::to_string(m.NumNz()), std::to_string(vnz(v)));
    if (m.Vector() != v) bad("Vector", mc::str(m.Vector()), mc::str(v));
    if (m.String() != text(v)) bad("String", m.String(), text(v));
    std::ostringstream os; os << m; if (os.str() != text(v)) bad("stream", os.str(), text(v));
    for (unsigned i = 0; i < v.size(); ++i) if (m.Get(i) != v[i]) bad("Get", std::to_string(m.Get(i)), std::to_string(v[i]));
    for (unsigned i = v.size(); i < v.size() + 2; ++i) {
        bool threw = false; unsigned got = 0;
        try { got = m.Get(i); } catch (std::out_of_range&) { threw = true; } catch (std::exception&) { threw = true; }
        if (!threw) bad("Get-beyond", std::to_string(got), "a refusal for component " + std::to_string(i));
    }
    mc::count("checks");
    return ok;
}
// every way of building v
static std::vector<std::pair<std::string, MultiIndex>> builds(V const& v) {
    std::vector<std::pair<std::string, MultiIndex>> o;
    if (!v.empty()) {
        o.emplace_back("vector", MultiIndex(v));
        o.emplace_back("pointer", MultiIndex(v.data(), v.size()));
        bool small = true; for (auto x : v) small &= x < 1000000000u;
        if (small) {
            Eigen::RowVectorXi r(v.size()); Eigen::VectorXi c(v.size()); Eigen::MatrixXi M(3, v.size());
            for (size_t i = 0; i < v.size(); ++i) { r(i) = v[i]; c(i) = v[i]; M(0, i) = 7; M(1, i) = v[i]; M(2, i) = 9; }
            o.emplace_back("eigen-row", MultiIndex(r)); o.emplace_back("eigen-col", MultiIndex(c)); o.emplace_back("eigen-block", MultiIndex(M.row(1)));
        }
    }
    bool uniform = true; for (auto x : v) uniform &= x == (v.empty() ? 0 : v[0]);
    if (uniform) o.emplace_back("fill", MultiIndex((unsigned)v.size(), v.empty() ? 0u : v[0]));
    if (v.empty()) { o.emplace_back("default", MultiIndex()); o.emplace_back("fill-empty-3", MultiIndex(0u, 3u)); }
    if (v.size() == 1) o.emplace_back("list", MultiIndex{v[0]});
    if (v.size() == 2) o.emplace_back("list", MultiIndex{v[0], v[1]});
    if (v.size() == 3) o.emplace_back("list", MultiIndex{v[0], v[1], v[2]});
    if (v.size() == 4) o.emplace_back("list", MultiIndex{v[0], v[1], v[2], v[3]});
    MultiIndex e((unsigned)v.size()); for (unsigned i = v.size(); i-- > 0;) e.Set(i, v[i]); o.emplace_back("sets-descending", e);
    MultiIndex f((unsigned)v.size(), 2u); for (unsigned i = 0; i < v.size(); ++i) { f.Set(i, 5); f.Set(i, 0); f.Set(i, v[i]); } o.emplace_back("overwrites", f);
    MultiIndex g((unsigned)v.size(), 1u); g = e; o.emplace_back("copy", g);
    return o;
}
static void allVecs(unsigned len, std::vector<unsigned> const& vals, std::vector<V>& out) {
    V v(len); size_t n = 1; for (unsigned i = 0; i < len; ++i) n *= vals.size();
    for (size_t k = 0; k < n; ++k) { size_t r = k; for (unsigned i = 0; i < len; ++i) { v[i] = vals[r % vals.size()]; r /= vals.size(); } out.push_back(v); }
}
static void histories(MultiIndex m, V v, unsigned depth, std::string const& h) {
    if (depth == 0) return;
    static const unsigned vals[] = {0, 1, 2, 3};
    for (unsigned i = 0; i < v.size() + 2; ++i) for (unsigned x : vals) {
        MultiIndex m2 = m; V v2 = v; bool threw = false, ret = false;
        std::string h2 = mc::cat(h, " Set(", i, ",", x, ")");
        mc::count("transitions");
        try { ret = m2.Set(i, x); } catch (std::exception&) { threw = true; }
        if (i >= v.size()) {
            if (!threw) { mc::viol("Set-beyond", h2 + " was accepted"); continue; }
        } else {
            if (threw) { mc::viol("Set-refused", h2 + " was refused"); continue; }
            bool want = v[i] != 0; v2[i] = x;
            if (ret != want) mc::viol("Set-return", mc::cat(h2, " returned ", ret, " although the component was ", want ? "nonzero" : "zero"));
        }
        if (!same(m2, v2, h2)) return;
        if (m2 != MultiIndex(v2.data(), v2.size())) { mc::viol("history-dependent-equality", h2 + " is not equal to the same vector built directly"); return; }
        if (!same(m, v, h2 + " (the copied original)")) return;
        mc::distinct(mc::hashStr(mc::cat(v2.size(), ":", m2.String())));
        if (i < v.size()) histories(m2, v2, depth - 1, h2);
    }
}
static void checkPair(MultiIndex const& a, V const& va, MultiIndex const& b, V const& vb, std::string const& how) {
    int c = cmp(va, vb);
    if ((a == b) != (c == 0)) mc::viol("equality", how);
    if ((a != b) != (c != 0)) mc::viol("inequality", how);
    if ((a < b) != (c < 0)) mc::viol("less", how);
    if ((a > b) != (c > 0)) mc::viol("greater", how);
    if ((a <= b) != (c <= 0)) mc::viol("less-equal", how);
    if ((a >= b) != (c >= 0)) mc::viol("greater-equal", how);
    bool threw = false, r = false;
    try { r = a.AnyBounded(b); } catch (std::invalid_argument&) { threw = true; }
    if (va.size() > vb.size()) { if (!threw) mc::viol("AnyBounded-length", how + " accepted a shorter bound"); }
    else {
        bool want = false; for (size_t i = 0; i < va.size(); ++i) want |= va[i] >= vb[i];
        if (threw || r != want) mc::viol("AnyBounded", mc::cat(how, " expected ", want, " got ", threw ? -1 : (int)r));
    }
    mc::count("pairs");
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    bool T = mc::ctx().thorough;
    std::vector<V> all;
    for (unsigned len = 0; len <= (T ? 5u : 4u); ++len) allVecs(len, len <= 3 ? V{0, 1, 2, 3} : (len == 4 ? V{0, 1, 2} : V{0, 1}), all);
    for (unsigned len = 1; len <= 3; ++len) for (unsigned i = 0; i < len; ++i) for (unsigned big : {2147483647u, 2147483648u, 4294967295u}) { V v(len, 0); v[i] = big; all.push_back(v); }
    for (auto const& v : all) {
        if (!mc::take("construct " + mc::cat(v.size(), ":", text(v)))) continue;
        mc::distinct(mc::hashStr(mc::cat(v.size(), ":", text(v))));
        for (auto& b : builds(v)) { same(b.second, v, b.first); mc::count("traces"); }
        if (v.size()) mc::sample("construct " + text(v));
    }
    for (size_t i = 0; i < all.size(); ++i) {
        if (!mc::take("pairs of " + mc::cat(all[i].size(), ":", text(all[i])))) continue;
        auto bi = builds(all[i]);
        for (size_t j = 0; j < all.size(); ++j) {
            auto bj = builds(all[j]);
            for (auto& x : bi) for (auto& y : bj) checkPair(x.second, all[i], y.second, all[j], mc::cat(text(all[i]), " (", x.first, ") vs ", text(all[j]), " (", y.first, ")"));
        }
    }
    for (unsigned len = 0; len <= 3; ++len) for (unsigned fill = 0; fill <= 2; ++fill) {
        unsigned depth = len == 1 ? (T ? 5 : 4) : len == 2 ? (T ? 4 : 3) : (T ? 4 : 3);
        V start(len, fill);
        for (unsigned i = 0; i < len + 2; ++i) for (unsigned x = 0; x < 4; ++x) {   // the first edit splits the work
            std::string k = mc::cat("edits len=", len, " fill=", fill, " depth=", depth, " first=Set(", i, ",", x, ")");
            if (!mc::take(k)) continue;
            MultiIndex m(len, fill); V v = start; mc::sample(k);
            if (!same(m, v, "start")) continue;
            try { m.Set(i, x); if (i >= len) { mc::viol("Set-beyond", k); continue; } v[i] = x; }
            catch (std::exception&) { if (i < len) mc::viol("Set-refused", k); }
            if (same(m, v, k)) histories(m, v, depth - 1, k);
        }
    }
    return mc::finish();
}
