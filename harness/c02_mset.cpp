// C02: explicit-state exploration of the real MultiIndexSet against a set-theoretic model.
#include "mc.h"
#include "MParT/MultiIndices/MultiIndexSet.h"
#include "MParT/MultiIndices/MultiIndexLimiter.h"
#include <unordered_map>
using namespace mpart;
typedef std::vector<unsigned> V;

// State identity: the full protected state where its members are known by these names, and otherwise what can be observed.
struct Peek : public MultiIndexSet {
    template <class P> static auto inner(P const& s, std::ostream& o, int) -> decltype((void)s.allMultis, (void)s.active2global, (void)s.global2active, (void)s.outEdges, (void)s.inEdges, (void)s.maxOrders) {
        for (auto& m : s.allMultis) o << m.String() << ";";
        o << "|"; for (auto x : s.active2global) o << x << ","; o << "|"; for (auto x : s.global2active) o << x << ",";
        for (auto& e : s.outEdges) { o << "/"; for (auto x : e) o << x << ","; } o << "|";
        for (auto& e : s.inEdges) { o << "/"; for (auto x : e) o << x << ","; } o << "|";
        for (auto x : s.maxOrders) o << x << ",";
    }
    template <class P> static void inner(P const& s, std::ostream& o, long) {
        for (unsigned i = 0; i < s.Size(); ++i) o << s[i].String() << ";";
        for (auto& m : s.Margin()) o << m.String() << "/"; for (auto x : s.MaxOrders()) o << x << ",";
    }
    static uint64_t hash(MultiIndexSet const& s, int lim, uint64_t h) {
        std::ostringstream o; o << lim << "|"; inner(static_cast<Peek const&>(s), o, 0); return mc::hashStr(o.str(), h);
    }
};
struct Lim { std::string name; MultiIndexSet::LimiterType f; std::function<bool(V const&)> g; };
static unsigned D, HI; static std::vector<Lim> LIMS; static std::vector<V> UNI; static std::vector<V> OPU;
static unsigned vsum(V const& v) { unsigned s = 0; for (auto x : v) s += x; return s; }
static std::vector<V> box(unsigned d, unsigned hi) {
    std::vector<V> o; size_t n = 1; for (unsigned i = 0; i < d; ++i) n *= hi + 1;
    for (size_t k = 0; k < n; ++k) { V v(d); size_t r = k; for (unsigned i = 0; i < d; ++i) { v[i] = r % (hi + 1); r /= hi + 1; } o.push_back(v); }
    return o;
}
// The neighbourhood in force: the default one, or one in which no entry ever exceeds CAP.
static unsigned CAP = ~0u;
struct Capped : DefaultNeighborhood {
    unsigned cap; Capped(unsigned c) : cap(c) {}
    std::vector<MultiIndex> ForwardNeighbors(MultiIndex const& m) override { std::vector<MultiIndex> o; for (auto& x : DefaultNeighborhood::ForwardNeighbors(m)) if (x.Max() <= cap) o.push_back(x); return o; }
    std::vector<MultiIndex> BackwardNeighbors(MultiIndex const& m) override { if (m.Max() > cap) return {}; return DefaultNeighborhood::BackwardNeighbors(m); }
};
struct Model {
    int lim = 0; std::vector<V> act; std::map<V, unsigned> pos;
    bool ok(V const& v) const { return LIMS[lim].g(v); }
    bool active(V const& v) const { return pos.count(v) > 0; }
    void add(V const& v) { pos[v] = act.size(); act.push_back(v); }
    static std::vector<V> fwd(V v) { std::vector<V> o; for (auto& x : v) { ++x; if (x <= CAP) o.push_back(v); --x; } return o; }
    static std::vector<V> bwd(V v) { std::vector<V> o; for (auto x : v) if (x > CAP) return o; for (auto& x : v) if (x) { --x; o.push_back(v); ++x; } return o; }
    bool allBack(V const& v) const { for (auto x : v) if (x > CAP) return false; for (auto& b : bwd(v)) if (!active(b)) return false; return true; }
    bool admissible(V const& v) const { return ok(v) && (active(v) || allBack(v)); }
    bool expandable(V const& v) const { for (auto& f : fwd(v)) if (!active(f) && admissible(f)) return true; return false; }
    void force(V const& v, std::set<V>& out) const { if (active(v) || out.count(v)) return; out.insert(v); for (auto& b : bwd(v)) if (ok(b)) force(b, out); }
};
static std::string tx(V const& v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + ")"; }
static std::string tx(std::set<V> const& s) { std::string o = "{"; for (auto& v : s) o += tx(v); return o + "}"; }
static bool isZero(V const& v) { return vsum(v) == 0; }

// Every observation of s against the definitions. Returns false on the first disagreement.
static bool observe(MultiIndexSet& s, Model const& m, std::string const& h) {
    auto bad = [&](const char* w, std::string d) { mc::viol(w, h + " :: " + d); return false; };
    if (s.Size() != m.act.size()) return bad("size", mc::cat(s.Size(), " expected ", m.act.size()));
    if (s.Length() != D) return bad("length", "");
    V mo(D, 0);
    for (unsigned i = 0; i < m.act.size(); ++i) {
        V const& v = m.act[i]; MultiIndex mi(v);
        if (s.IndexToMulti(i).Vector() != v || s[i].Vector() != v || s.at(i).Vector() != v) return bad("numbering", mc::cat("term ", i, " is ", s[i].String(), " expected ", tx(v)));
        if (s.MultiToIndex(mi) != (int)i) return bad("lookup", mc::cat(tx(v), " -> ", s.MultiToIndex(mi), " expected ", i));
        if (!s.GetLimiter()(mi)) return bad("limit", tx(v) + " is active but not allowed by the limiter");
        for (unsigned k = 0; k < D; ++k) mo[k] = std::max(mo[k], v[k]);
    }
    if (s.MaxOrders() != mo) return bad("max-orders", mc::cat(mc::str(s.MaxOrders()), " expected ", mc::str(mo)));
    std::set<V> margin, red;
    std::set<V> uni(UNI.begin(), UNI.end()); for (auto& v : m.act) for (auto& f : Model::fwd(v)) uni.insert(f);
    for (auto const& v : uni) {
        MultiIndex mi(v); bool a = m.active(v);
        if (s.IsActive(mi) != a) return bad("is-active", tx(v));
        if (!a && s.MultiToIndex(mi) != -1) return bad("lookup-absent", mc::cat(tx(v), " -> ", s.MultiToIndex(mi)));
        if (!(isZero(v) && !a) && s.IsAdmissible(mi) != m.admissible(v)) return bad("is-admissible", mc::cat(tx(v), " reported ", s.IsAdmissible(mi)));
        if (!a && m.ok(v)) {
            bool any = false; for (auto& b : Model::bwd(v)) any |= m.active(b);
            if (any) margin.insert(v);
            if (m.allBack(v) && !isZero(v)) red.insert(v);
        }
    }
    auto asSet = [&](std::vector<MultiIndex> const& x, bool& dup) { std::set<V> o; for (auto& y : x) if (!o.insert(y.Vector()).second) dup = true; return o; };
    bool dup = false;
    std::set<V> gm = asSet(s.Margin(), dup), gr = asSet(s.ReducedMargin(), dup); gr.erase(V(D, 0));
    if (gm != margin) return bad("margin", tx(gm) + " expected " + tx(margin));
    if (gr != red) return bad("reduced-margin", tx(gr) + " expected " + tx(red));
    if (dup) return bad("margin-duplicate", "");
    for (auto& v : gm) {   // inactive members: their active backward neighbours
        std::set<unsigned> got, want; for (auto i : s.BackwardNeighbors(MultiIndex(v))) if (i < m.act.size()) got.insert(i);
        for (auto& b : Model::bwd(v)) if (m.active(b)) want.insert(m.pos.at(b));
        if (got != want) return bad("backward-of-inactive", tx(v));
    }
    std::set<unsigned> fr, sf, gfr, gsf, sfOpt;
    for (unsigned i = 0; i < m.act.size(); ++i) {
        V const& v = m.act[i]; bool anyAct = false; unsigned nAct = 0, nFwd = 0; std::set<V> adm;
        for (auto& f : Model::fwd(v)) { if (m.active(f)) { anyAct = true; ++nAct; } if (m.ok(f)) ++nFwd; if (m.admissible(f)) adm.insert(f); }
        bool e = m.expandable(v);
        if (e) fr.insert(i);
        if (e && !anyAct) sf.insert(i);
        if (!e && !anyAct) sfOpt.insert(i);
        if (s.IsExpandable(i) != e) return bad("is-expandable", tx(v));
        if (s.NumActiveForward(i) != nAct) return bad("num-active-forward", mc::cat(tx(v), " ", s.NumActiveForward(i), " expected ", nAct));
        if (s.NumForward(i) != nFwd) return bad("num-forward", mc::cat(tx(v), " ", s.NumForward(i), " expected ", nFwd));
        bool d2 = false; std::set<V> ga = asSet(s.AdmissibleForwardNeighbors(i), d2);
        if (ga != adm || d2) return bad("admissible-forward", tx(v) + " " + tx(ga) + " expected " + tx(adm));
        std::set<unsigned> got, want; for (auto j : s.BackwardNeighbors(i)) if (j < m.act.size()) got.insert(j);
        for (auto& b : Model::bwd(v)) if (m.active(b)) want.insert(m.pos.at(b));
        if (got != want) return bad("backward", tx(v) + " " + mc::str(got) + " expected " + mc::str(want));
    }
    for (auto i : s.Frontier()) if (!gfr.insert(i).second) return bad("frontier-duplicate", "");
    for (auto i : s.StrictFrontier()) if (!sfOpt.count(i) && !gsf.insert(i).second) return bad("strict-frontier-duplicate", "");
    if (gfr != fr) return bad("frontier", mc::str(gfr) + " expected " + mc::str(fr));
    if (gsf != sf) return bad("strict-frontier", mc::str(gsf) + " expected " + mc::str(sf));
    for (auto const& b : {V(D, 1), V(D, 2), OPU.back()}) {
        auto got = s.FilterBounded(MultiIndex(b));
        if (got.size() != m.act.size()) return bad("filter-size", "");
        for (unsigned i = 0; i < m.act.size(); ++i) { bool w = false; for (unsigned k = 0; k < D; ++k) w |= m.act[i][k] >= b[k]; if (got[i] != w) return bad("filter", tx(m.act[i])); }
    }
    mc::count("checks");
    return true;
}
// After an operation: the terms that were active keep their numbers, `added` became active, and `ret` (if given) names them.
static bool settle(MultiIndexSet& s, Model& m, std::set<V> const& added, std::vector<unsigned> const* ret, std::string const& h) {
    unsigned n = m.act.size();
    if (s.Size() != n + added.size()) { std::string got; for (unsigned i = n; i < s.Size(); ++i) got += "(" + s[i].String() + ")"; mc::viol("op-added", h + mc::cat(" :: activated ", got, " expected ", tx(added))); return false; }
    std::set<unsigned> want;
    for (unsigned i = n; i < s.Size(); ++i) {
        V v = s.IndexToMulti(i).Vector();
        if (!added.count(v) || m.active(v)) { mc::viol("op-added", h + " :: activated " + tx(v) + " expected " + tx(added)); return false; }
        m.add(v); want.insert(i);
    }
    if (ret) { std::set<unsigned> got(ret->begin(), ret->end()); if (got != want) { mc::viol("op-return", h + " :: reported " + mc::str(got) + " expected " + mc::str(want)); return false; } }
    return true;
}
struct Op { int kind; int arg; };
enum { ADD, ACT, EXP, EXPALL, FEXP, FACT, SETLIM, UNION, PLUSEQ, ASSIGN };
static std::vector<std::pair<std::string, MultiIndexSet>> OTHERS; static std::vector<std::vector<V>> OTHER_ACT;
static std::vector<Op> ops(Model const& m) {
    std::vector<Op> o;
    for (int i = 0; i < (int)OPU.size(); ++i) { o.push_back({ADD, i}); if (!(isZero(OPU[i])) && m.admissible(OPU[i]) && !m.active(OPU[i])) o.push_back({ACT, i}); if (m.ok(OPU[i])) o.push_back({FACT, i}); }
    for (int i = 0; i < (int)m.act.size(); ++i) { o.push_back({EXP, i}); o.push_back({FEXP, i}); }
    o.push_back({EXPALL, 0});
    for (int i = 0; i < (int)LIMS.size(); ++i) o.push_back({SETLIM, i});
    for (int i = 0; i < (int)OTHERS.size(); ++i) o.push_back({UNION, i});
    o.push_back({ASSIGN, 0});
    return o;
}
static std::string name(Op const& o, Model const& m) {
    switch (o.kind) {
        case ADD: return "AddActive" + tx(OPU[o.arg]); case ACT: return "Activate" + tx(OPU[o.arg]); case EXP: return "Expand[" + tx(m.act[o.arg]) + "]";
        case EXPALL: return "Expand()"; case FEXP: return "ForciblyExpand[" + tx(m.act[o.arg]) + "]"; case FACT: return "ForciblyActivate" + tx(OPU[o.arg]);
        case SETLIM: return "SetLimiter(" + LIMS[o.arg].name + ")"; case UNION: return "Union(" + OTHERS[o.arg].first + ")"; default: return "Assign";
    }
}
// apply to the real set and to the model; false if they disagree
static bool apply(MultiIndexSet& s, Model& m, Op const& o, std::string const& h) {
    switch (o.kind) {
        case ADD: {
            V const& v = OPU[o.arg]; bool was = m.active(v), can = m.ok(v); std::set<V> a; if (!was && can) a.insert(v);
            unsigned n = m.act.size();
            int r = s.AddActive(MultiIndex(v)); int want = was ? (int)m.pos[v] : can ? (int)n : -1;
            if (r != want) { mc::viol("add-return", mc::cat(h, " :: returned ", r, " expected ", want)); return false; }
            return settle(s, m, a, nullptr, h);
        }
        case ACT: { s.Activate(MultiIndex(OPU[o.arg])); return settle(s, m, {OPU[o.arg]}, nullptr, h); }
        case EXP: {
            std::set<V> a; for (auto& f : Model::fwd(m.act[o.arg])) if (!m.active(f) && m.admissible(f)) a.insert(f);
            auto r = s.Expand(o.arg); if (r.size() != a.size()) { mc::viol("op-return", h); return false; } return settle(s, m, a, &r, h);
        }
        case EXPALL: {
            std::set<V> a; for (auto& v : m.act) for (auto& f : Model::fwd(v)) if (!m.active(f) && m.admissible(f)) a.insert(f);
            auto r = s.Expand(); if (r.size() != a.size()) { mc::viol("op-return", mc::cat(h, " :: ", r.size(), " numbers reported, expected ", tx(a))); return false; } return settle(s, m, a, &r, h);
        }
        case FEXP: {
            std::set<V> a; for (auto& f : Model::fwd(m.act[o.arg])) if (m.ok(f)) m.force(f, a);
            auto r = s.ForciblyExpand(o.arg); if (r.size() != a.size()) { mc::viol("op-return", mc::cat(h, " :: ", r.size(), " numbers reported, expected ", tx(a))); return false; } return settle(s, m, a, &r, h);
        }
        case FACT: {
            std::set<V> a; m.force(OPU[o.arg], a);
            auto r = s.ForciblyActivate(MultiIndex(OPU[o.arg])); if (r.size() != a.size()) { mc::viol("op-return", mc::cat(h, " :: ", r.size(), " numbers reported, expected ", tx(a))); return false; } return settle(s, m, a, &r, h);
        }
        case SETLIM: {
            bool fits = true; for (auto& v : m.act) fits &= LIMS[o.arg].g(v);
            bool threw = false; try { s.SetLimiter(LIMS[o.arg].f); } catch (std::invalid_argument&) { threw = true; }
            if (threw == fits) { mc::viol("setlimiter-refusal", mc::cat(h, fits ? " was refused" : " was accepted")); return false; }
            if (fits) m.lim = o.arg;
            for (auto& v : UNI) if (s.GetLimiter()(MultiIndex(v)) != m.ok(v)) { mc::viol("setlimiter-state", h + " :: the limiter in place is not the expected one, at " + tx(v)); return false; }
            return settle(s, m, {}, nullptr, h);
        }
        case UNION: {
            std::set<V> a; for (auto& v : OTHER_ACT[o.arg]) if (m.ok(v) && !m.active(v)) a.insert(v);
            MultiIndexSet t = s; t += OTHERS[o.arg].second;
            MultiIndexSet p = s + OTHERS[o.arg].second;
            unsigned r = s.Union(OTHERS[o.arg].second);
            if (r != a.size()) { mc::viol("union-return", mc::cat(h, " :: returned ", r, " expected ", a.size())); return false; }
            if (Peek::hash(t, 0, 7) != Peek::hash(s, 0, 7) || Peek::hash(p, 0, 7) != Peek::hash(s, 0, 7)) { mc::viol("union-operators", h + " :: +=, + and Union differ"); return false; }
            return settle(s, m, a, nullptr, h);
        }
        default: {
            MultiIndexSet t(D); t += MultiIndex(V(D, 1)); t = s; s = t; s.~MultiIndexSet(); new (&s) MultiIndexSet(t);
            MultiIndexSet w(D + 1); bool threw = false; try { w = s; } catch (std::runtime_error&) { threw = true; }
            if (!threw) { mc::viol("assign-length", h); return false; }
            bool t2 = false; try { s.Expand(s.Size()); } catch (std::out_of_range&) { t2 = true; }
            if (!t2) { mc::viol("expand-range", h); return false; }
            return settle(s, m, {}, nullptr, h);
        }
    }
}
static std::unordered_map<uint64_t, unsigned> visited;
static void explore(MultiIndexSet const& s, Model const& m, unsigned depth, std::string const& h) {
    uint64_t id = Peek::hash(s, m.lim, D + (uint64_t)CAP * 8);
    auto it = visited.find(id);
    if (it != visited.end() && it->second >= depth) return;
    bool fresh = it == visited.end();
    visited[id] = depth;
    MultiIndexSet c = s;
    if (Peek::hash(c, m.lim, D + (uint64_t)CAP * 8) != id) { mc::viol("copy", h); return; }
    if (fresh) { mc::distinct(id); if (!observe(c, m, h)) return;
                 if (Peek::hash(c, m.lim, D + (uint64_t)CAP * 8) != id) { mc::viol("query-modifies", h); return; } }
    if (!depth) return;
    for (auto& o : ops(m)) {
        std::string h2 = h + " " + name(o, m);
        mc::setCrumb(mc::ctx().current); mc::count("transitions");
        MultiIndexSet s2 = s; Model m2 = m;
        if (!apply(s2, m2, o, h2)) continue;
        if (Peek::hash(s, m.lim, D + (uint64_t)CAP * 8) != id) { mc::viol("copy-aliases", h2); return; }
        mc::count("traces");
        bool in = true; for (auto& v : m2.act) for (auto x : v) in &= x <= HI;
        if (in && m2.act.size() <= 14) explore(s2, m2, depth - 1, h2);
        else { mc::count("leaves_outside_box"); observe(s2, m2, h2); }
    }
}
static void setup(unsigned d) {
    D = d; HI = d == 1 ? 4 : d == 2 ? 3 : 2; UNI = box(d, HI + 2); OPU = d == 1 ? box(1, 3) : d == 2 ? box(2, 2) : box(3, 1);
    if (d == 3) { OPU.push_back({2, 0, 0}); OPU.push_back({0, 0, 2}); }
    using namespace MultiIndexLimiter;
    LIMS.clear();
    LIMS.push_back({"None", None(), [](V const&) { return true; }});
    LIMS.push_back({"TotalOrder2", TotalOrder(2), [](V const& v) { return vsum(v) <= 2; }});
    V md(d, 1); md[0] = 2; LIMS.push_back({"MaxDegree", MaxDegree(md), [md](V const& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] > md[i]) return false; return true; }});
    V hole(d, 0); hole[0] = 2; LIMS.push_back({"NotOne", [hole](MultiIndex const& m) { return m.Vector() != hole; }, [hole](V const& v) { return v != hole; }});   // not downward closed
    if (d > 1) LIMS.push_back({"NoCross", [](MultiIndex const& m) { return m.NumNz() <= 1; }, [](V const& v) { int n = 0; for (auto x : v) n += x > 0; return n <= 1; }});
    OTHERS.clear(); OTHER_ACT.clear();
    auto other = [&](std::string n, MultiIndexSet s) { std::vector<V> a; for (unsigned i = 0; i < s.Size(); ++i) a.push_back(s[i].Vector()); OTHERS.emplace_back(n, s); OTHER_ACT.push_back(a); };
    other("total1", MultiIndexSet::CreateTotalOrder(d, 1)); other("tensor1", MultiIndexSet::CreateTensorProduct(d, 1));
    V far(d, 1); far[d - 1] = 2; MultiIndexSet g(d); g += MultiIndex(far); other("lone", g);
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    bool T = mc::ctx().thorough;
    for (unsigned d = 1; d <= 3; ++d) {
        setup(d);
        unsigned depth = d == 1 ? (T ? 7 : 5) : d == 2 ? (T ? 5 : 4) : (T ? 3 : 2);
        std::vector<std::tuple<std::string, MultiIndexSet, Model>> inits;
        for (int l = 0; l < (int)LIMS.size(); ++l) for (int k = 0; k < 5; ++k) {
            Model m; m.lim = l; MultiIndexSet s(d, LIMS[l].f); std::string n;
            if (k == 0) n = "empty";
            else if (k == 1) { n = "total1"; s = MultiIndexSet::CreateTotalOrder(d, 1, LIMS[l].f); }
            else if (k == 2) { n = "tensor2"; s = MultiIndexSet::CreateTensorProduct(d, d == 3 ? 1 : 2, LIMS[l].f); }
            else if (k == 4) { if (l) continue; n = "capped-neighbourhood"; s = MultiIndexSet(d, LIMS[l].f, std::make_shared<Capped>(d == 1 ? 3 : 2)); s += MultiIndex(V(d, 0)); }
            else { if (l) continue; n = "matrix-with-gaps"; Eigen::MatrixXi M(3, d); M.setZero(); M(0, 0) = 2; M(1, d - 1) = 1; M(2, 0) = 1; M(2, d - 1) = 2; s = MultiIndexSet(M); }
            for (unsigned i = 0; i < s.Size(); ++i) m.add(s[i].Vector());
            inits.emplace_back(mc::cat("dim=", d, " ", n, "/", LIMS[l].name), s, m);
        }
        for (auto& in : inits) {
            CAP = std::get<0>(in).find("capped") == std::string::npos ? ~0u : d == 1 ? 3 : 2;
            MultiIndexSet& s = std::get<1>(in); Model& m = std::get<2>(in); std::string base = std::get<0>(in);
            for (auto& o : ops(m)) {
                std::string k = base + " " + name(o, m);
                if (!mc::take(k)) continue;
                mc::sample(k + mc::cat(" then all histories of ", depth - 1, " more operations"));
                MultiIndexSet s2 = s; Model m2 = m;
                MultiIndexSet s1 = s; if (!observe(s1, m, base)) continue;
                mc::count("transitions");
                if (!apply(s2, m2, o, k)) continue;
                explore(s2, m2, depth - 1, k);
            }
        }
    }
    // the default neighbourhood itself, for every pair of terms of a box
    CAP = ~0u;
    for (unsigned d = 1; d <= 4; ++d) {
        std::string k = mc::cat("neighbours dim=", d); if (!mc::take(k)) continue;
        DefaultNeighborhood N; auto all = box(d, d <= 2 ? 4 : d == 3 ? 2 : 1); auto wide = box(d, d <= 2 ? 5 : d == 3 ? 3 : 2);
        for (auto& a : all) {
            MultiIndex ma(a); std::set<V> f, b, wf, wb; auto wfv = Model::fwd(a), wbv = Model::bwd(a); wf.insert(wfv.begin(), wfv.end()); wb.insert(wbv.begin(), wbv.end());
            for (auto& x : N.ForwardNeighbors(ma)) if (!f.insert(x.Vector()).second) mc::viol("neighbour-twice", tx(a));
            for (auto& x : N.BackwardNeighbors(ma)) if (!b.insert(x.Vector()).second) mc::viol("neighbour-twice", tx(a));
            if (f != wf) mc::viol("forward-neighbours", tx(a) + " " + tx(f)); if (b != wb) mc::viol("backward-neighbours", tx(a) + " " + tx(b));
            for (auto& c : wide) { MultiIndex mc_(c); mc::count("neighbour_pairs");
                if (N.IsForward(ma, mc_) != (wf.count(c) > 0)) mc::viol("is-forward", tx(a) + " to " + tx(c));
                if (N.IsBackward(ma, mc_) != (wb.count(c) > 0)) mc::viol("is-backward", tx(a) + " to " + tx(c)); }
        }
    }
    return mc::finish();
}
