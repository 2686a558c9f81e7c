// C18: adaptive training as a reactive system. The objective is the environment: every answer it can give (which candidate has the
// largest gradient, ties, no slope at all, not-a-number; test errors better, equal, worse or not-a-number than the best) is
// explored, for every configuration, and after every step the library's state is compared with a model of the algorithm.
#include "exact_alloc.h"
#include "mc.h"
#include "MParT/TrainMapAdaptive.h"
#include "MParT/MapObjective.h"
#include <Kokkos_Core.hpp>
#include <limits>
typedef Kokkos::HostSpace HS; using namespace mpart;
typedef std::vector<unsigned> Term; typedef std::set<Term> Set; typedef std::vector<Set> Sets;
typedef std::shared_ptr<ConditionalMapBase<HS>> MapP;

static Set setOf(MultiIndexSet const& m) { Set s; for (unsigned i = 0; i < m.Size(); ++i) s.insert(m[i].Vector()); return s; }
static Sets setsOf(std::vector<MultiIndexSet> const& v) { Sets r; for (auto& m : v) r.push_back(setOf(m)); return r; }
static std::string show(Sets const& s) { std::string o; for (auto& k : s) { o += "{"; for (auto& t : k) { for (unsigned e : t) o += char('0' + e); o += " "; } o += "}"; } return o; }
static bool closed(Set const& s) { for (auto t : s) for (size_t i = 0; i < t.size(); ++i) if (t[i]) { --t[i]; if (!s.count(t)) return false; ++t[i]; } return true; }
static Set margin(Set const& s) { Set r; for (auto t : s) for (size_t i = 0; i < t.size(); ++i) { Term u = t; ++u[i]; if (s.count(u)) continue; bool ok = true; for (size_t j = 0; j < u.size() && ok; ++j) if (u[j]) { --u[j]; ok = s.count(u); ++u[j]; } if (ok) r.insert(u); } return r; }

struct Cfg { unsigned in, out; int init; std::vector<unsigned> maxDeg; long maxSize; unsigned patience; unsigned rounds; bool quad; unsigned nTest; };
// ---- choices: replayed prefix, then first alternatives; the driver advances the last position that has more
struct Choices { std::vector<int> val, n; size_t at = 0; int operator()(int k) { if (at == val.size()) { val.push_back(0); n.push_back(k); } n[at] = k; return val[at++]; } bool next() { while (val.size() && val.back() + 1 >= n.back()) { val.pop_back(); n.pop_back(); } if (val.empty()) return false; ++val.back(); return true; } };
static bool failed = false; static std::string failCls, failWhat;   // NLopt swallows exceptions of the objective
struct Wrong { std::string cls, what; Wrong(std::string c, std::string w) : cls(c), what(w) { if (!failed) { failed = true; failCls = c; failWhat = w; } } };
struct Stop {};

struct Env : MapObjective<HS> {
    Cfg const& c; Choices& ch; std::vector<MultiIndexSet>& cur; MapOptions o;
    const double* testData; bool finished = false, inProgress = true;
    Sets now, best; double bestErr = 0; unsigned patience = 0, rounds = 0; long size = 0; std::set<std::pair<unsigned, Term>> allowed; bool mayStop = false, tested = false;
    unsigned trainCalls = 0; std::vector<double> lastCoeffs; std::string log; enum { INITIAL, DECIDE, TRAIN, FINAL, DONE } phase = INITIAL;
    Env(StridedMatrix<const double, HS> tr, StridedMatrix<const double, HS> te, Cfg const& c_, Choices& ch_, std::vector<MultiIndexSet>& cur_, unsigned od) : MapObjective<HS>(tr, te), c(c_), ch(ch_), cur(cur_), testData(te.data()), od_(od) { now = best = setsOf(cur); for (auto& s : now) size += s.size(); }
    unsigned od_; unsigned MapOutputDim() const override { return od_; }
    double target(size_t k) const { return 0.125 * (1 + k % 5); }
    double ObjectivePlusCoeffGradImpl(StridedMatrix<const double, HS> d, StridedVector<double, HS> g, MapP m) const override { const_cast<Env*>(this)->train(m); double s = 0; for (unsigned i = 0; i < g.extent(0); ++i) { double r = c.quad ? m->Coeffs()(i) - target(i) : 0; s += r * r; g(i) = 2 * r; } return s; }
    double ObjectiveImpl(StridedMatrix<const double, HS> d, MapP m) const override { if (d.data() == testData) return const_cast<Env*>(this)->test(m); return 0; }
    void CoeffGradImpl(StridedMatrix<const double, HS> d, StridedVector<double, HS> g, MapP m) const override { if (d.data() == testData) throw Wrong{"gradient-on-test-data", log}; const_cast<Env*>(this)->gradient(g, m); }
    bool more() const { return size < c.maxSize && patience < c.patience; }
    void state(const char* p) { mc::count("transitions"); mc::distinct(mc::hashStr(mc::cat(p, show(now), show(best), patience, " ", size, " ", c.maxSize, " ", c.patience, " ", mc::str(c.maxDeg), phase))); }
    // after the gradient: one admissible term was added, or nothing could be
    void added() {
        Sets s = setsOf(cur); unsigned diff = 0, blk = 0; Term t;
        for (unsigned b = 0; b < s.size(); ++b) { for (auto& x : s[b]) if (!now[b].count(x)) { ++diff; blk = b; t = x; } for (auto& x : now[b]) if (!s[b].count(x)) throw Wrong{"term-lost", mc::cat(log, " now ", show(s))}; }
        if (diff != 1) throw Wrong{"not-one-term-added", mc::cat(log, " now ", show(s))};
        if (!allowed.count({blk, t})) throw Wrong{"wrong-term-added", mc::cat(log, " added ", mc::str(t), " to block ", blk)};
        now = s; ++size; if (size > c.maxSize) throw Wrong{"budget-exceeded", log};
        for (auto& k : now) if (c.init < 3 && !closed(k)) throw Wrong{"not-downward-closed", mc::cat(log, " now ", show(now))};
        log += mc::cat(" +", blk, ":", mc::str(t)); phase = TRAIN;
    }
    void checkMap(MapP m, Sets const& s, const char* when) { unsigned n = 0; for (auto& k : s) n += k.size(); if (m->numCoeffs != n || m->inputDim != c.in || m->outputDim != c.out) throw Wrong{"map-does-not-match-sets", mc::cat(when, log, ": ", m->numCoeffs, " coefficients, sets ", show(s))}; }
    void finalPhase() { phase = FINAL; }
    void train(MapP m) {
        if (++trainCalls > 100000) throw Wrong{"does-not-terminate", log};
        if (phase == DECIDE) { if (!more()) finalPhase(); else if (mayStop && (setsOf(cur) == now || setsOf(cur) == best)) finalPhase(); else if (allowed.size()) added(); else throw Wrong{"unexpected-training", log}; }
        if (phase == DONE) throw Wrong{"training-after-the-end", log};
        checkMap(m, phase == FINAL ? best : now, "training");
    }
    double test(MapP m) {
        if (phase == DECIDE) throw Wrong{"test-error-without-training", log};
        checkMap(m, phase >= FINAL ? best : now, "testing"); if (phase >= FINAL) { phase = DONE; return 0; }
        if (phase == INITIAL) { bestErr = 0; phase = DECIDE; allowed.clear(); state("initial"); mayStop = false; return bestErr; }
        int a = rounds >= c.rounds ? 2 : ch(c.nTest); double e = a == 0 ? bestErr - 1 : a == 1 ? bestErr : a == 2 ? bestErr + 1 : std::numeric_limits<double>::quiet_NaN();
        ++patience; if (a == 0) { bestErr = e; best = now; patience = 0; } log += a == 0 ? " better" : a == 1 ? " equal" : a == 2 ? " worse" : " nan"; phase = DECIDE; allowed.clear(); mayStop = false; state("tested"); return e;
    }
    void gradient(StridedVector<double, HS> g, MapP m) {
        if (phase != DECIDE || allowed.size() || mayStop) throw Wrong{"unexpected-gradient", log};
        if (!more()) throw Wrong{"went-on-beyond-the-limits", mc::cat(log, " size ", size, " of ", c.maxSize, ", patience ", patience, " of ", c.patience)};
        if (setsOf(cur) != now) throw Wrong{"sets-changed-early", log}; ++rounds;
        // the expanded sets, in the library's order of terms; the margin by definition
        std::vector<std::pair<unsigned, Term>> where, cand; std::vector<bool> isCand; Sets ex = now;
        for (unsigned b = 0; b < cur.size(); ++b) { MultiIndexSet e = cur[b]; e.Expand(); Set mg = margin(now[b]); for (unsigned i = 0; i < e.Size(); ++i) { Term t = e[i].Vector(); where.push_back({b, t}); bool k = mg.count(t); for (size_t j = 0; j < t.size() && c.maxDeg.size(); ++j) if (t[j] >= c.maxDeg[j]) k = false; isCand.push_back(k); if (k) cand.push_back({b, t}); ex[b].insert(t); } if (e.Size() != now[b].size() + mg.size()) throw Wrong{"expansion", mc::cat(log, show(now))}; }
        checkMap(m, ex, "gradient of the expanded map"); if (g.extent(0) != where.size()) throw Wrong{"gradient-length", log};
        // old coefficients kept, new ones zero
        { size_t k = 0; for (size_t i = 0; i < where.size(); ++i) { double v = m->Coeffs()(i); bool isNew = !now[where[i].first].count(where[i].second); if (isNew && v != 0) throw Wrong{"new-term-starts-nonzero", mc::cat(log, " ", v)}; if (!isNew && c.quad && std::fabs(v - target(k)) > 0.2) throw Wrong{"trained-coefficient-lost", mc::cat(log, " coefficient ", k, " is ", v, ", trained ", target(k))}; if (!isNew) ++k; } }
        int kinds = cand.size(), a = rounds > c.rounds ? 0 : ch(std::max(1, kinds + (kinds >= 2) + 2)); allowed.clear(); mayStop = cand.empty();
        double sign = (rounds + a) % 2 ? 1 : -1;
        for (size_t i = 0, k = 0; i < where.size(); ++i) { if (!isCand[i]) { g(i) = sign * 100; continue; } double v; if (a < kinds) v = (int)k == a ? 2 * sign : -0.5 * sign; else if (a == kinds && kinds >= 2) v = k == 0 || k + 1 == cand.size() ? -3 * sign : sign; else if (a == kinds + (kinds >= 2)) v = 0; else v = std::numeric_limits<double>::quiet_NaN(); g(i) = v; ++k; }
        if (a < kinds) allowed.insert(cand[a]); else if (a == kinds && kinds >= 2) { allowed.insert(cand.front()); allowed.insert(cand.back()); } else { for (auto& k : cand) allowed.insert(k); mayStop = true; }
        log += mc::cat(" grad", a, "/", cand.size()); state("gradient");
    }
};
static std::vector<MultiIndexSet> initial(Cfg const& c) {
    std::vector<MultiIndexSet> r;
    for (unsigned b = 0; b < c.out; ++b) { unsigned d = c.in - c.out + b + 1; switch (c.init) { case 0: case 1: r.push_back(MultiIndexSet::CreateTotalOrder(d, c.init)); break;
        case 2: { MultiIndexSet m = MultiIndexSet::CreateTotalOrder(d, 0); for (unsigned k = 1; k <= 2; ++k) { std::vector<unsigned> t(d, 0); t[d - 1] = k; m += MultiIndex(t); } r.push_back(m); break; }
        default: r.push_back(MultiIndexSet::CreateTensorProduct(d, b ? 0 : 2)); } }
    return r;
}
static void explore(Cfg const& c) {
    Choices ch; unsigned long runs = 0;
    Kokkos::View<double**, HS> tr("train", c.in, 3), te("test", c.in, 2);
    for (unsigned i = 0; i < c.in; ++i) { for (int j = 0; j < 3; ++j) tr(i, j) = 0.3 * j - 0.2 * i; for (int j = 0; j < 2; ++j) te(i, j) = 0.1 + 0.4 * j - 0.3 * i; }
    ATMOptions o; o.basisType = BasisTypes::ProbabilistHermite; o.maxPatience = c.patience; o.maxSize = c.maxSize; o.quadType = QuadTypes::ClenshawCurtis; if (c.maxDeg.size()) o.maxDegrees = MultiIndex(c.maxDeg); o.opt_maxeval = c.quad ? 200 : 1;
    do {
        ch.at = 0; failed = false; std::vector<MultiIndexSet> sets = initial(c); auto env = std::make_shared<Env>(StridedMatrix<const double, HS>(tr), StridedMatrix<const double, HS>(te), c, ch, sets, c.out); mc::count("traces"); ++runs;
        try {
            MapP m = TrainMapAdaptive<HS>(sets, env, o);
            if (env->phase != Env::DONE && env->phase != Env::FINAL) throw Wrong{"ended-early", env->log};
            if (env->more() && !env->mayStop) throw Wrong{"stopped-early", env->log};
            if (setsOf(sets) != env->best) throw Wrong{"returned-sets-are-not-the-best", mc::cat(env->log, ": returned ", show(setsOf(sets)), ", lowest test error with ", show(env->best))};
            env->checkMap(m, env->best, "returned map");
            // the returned map is the one the returned sets describe
            std::vector<MapP> blk; for (auto& s : sets) blk.push_back(MapFactory::CreateComponent<HS>(s.Fix(true), o)); auto r = std::make_shared<TriangularMap<HS>>(blk); Kokkos::View<double*, HS> cf("c", m->numCoeffs); for (unsigned i = 0; i < cf.extent(0); ++i) { cf(i) = m->Coeffs()(i); if (!std::isfinite(cf(i))) throw Wrong{"coefficients-not-finite", env->log}; if (c.quad && std::fabs(cf(i) - env->target(i)) > 0.2) throw Wrong{"returned-map-untrained", mc::cat(env->log, " coefficient ", i, " is ", cf(i))}; }
            r->SetCoeffs(Kokkos::View<const double*, HS>(cf)); StridedMatrix<const double, HS> x = te; auto a = m->Evaluate(x), b = r->Evaluate(x); for (unsigned i = 0; i < c.out; ++i) for (int j = 0; j < 2; ++j) if (a(i, j) != b(i, j)) throw Wrong{"returned-map-is-not-of-the-returned-sets", env->log};
        } catch (Wrong&) {}
        catch (std::exception& e) { if (!failed) Wrong("raised", mc::cat(env->log, ": ", e.what())); }
        if (failed) mc::viol(failCls.c_str(), failWhat);
    } while (ch.next());
    mc::sample(mc::cat(mc::ctx().current, ": ", runs, " runs"));
}
static void refusals() {
    Kokkos::View<double**, HS> tr("train", 2, 3), te("test", 2, 2); StridedMatrix<const double, HS> T = tr, E = te; ATMOptions o; o.opt_maxeval = 1; Choices ch;
    auto tryIt = [&](const char* what, std::vector<MultiIndexSet> s, std::shared_ptr<MapObjective<HS>> ob, ATMOptions op) { mc::count("refusals"); Sets before = setsOf(s); try { TrainMapAdaptive<HS>(s, ob, op); mc::viol("not-refused", what); } catch (std::exception&) {} if (setsOf(s) != before) mc::viol("refusal-changed-the-sets", what); };
    auto TO = [](unsigned d) { return MultiIndexSet::CreateTotalOrder(d, 1); };
    auto ob = [&](unsigned dim) { return ObjectiveFactory::CreateGaussianKLObjective<HS>(T, E, dim); };
    tryIt("too few sets", {TO(2)}, ob(2), o); tryIt("too many sets", {TO(1), TO(2)}, ob(1), o); tryIt("no sets", {}, ob(2), o); tryIt("lengths do not increase", {TO(2), TO(2)}, ob(2), o); tryIt("lengths jump", {TO(1), TO(3)}, ob(2), o); tryIt("last set too short", {TO(1)}, ob(1), o); tryIt("last set too long", {TO(3)}, ob(1), o); tryIt("all sets too long", {TO(2), TO(3)}, ob(2), o);
    ATMOptions a = o; a.maxDegrees = MultiIndex(std::vector<unsigned>{2}); tryIt("degree limits too short", {TO(1), TO(2)}, ob(2), a); a.maxDegrees = MultiIndex(std::vector<unsigned>{2, 2, 2}); tryIt("degree limits too long", {TO(1), TO(2)}, ob(2), a);
    tryIt("no test data", {TO(1), TO(2)}, ObjectiveFactory::CreateGaussianKLObjective<HS>(T, 2), o);
}
int main(int argc, char** argv) {
    mc::init(argc, argv); Kokkos::initialize(); exactViews();
    { bool T = mc::ctx().thorough;
    if (mc::take("refusals")) { mc::distinct(1); refusals(); }
    for (auto& d : std::vector<std::pair<unsigned, unsigned>>{{1, 1}, {2, 1}, {2, 2}, {3, 1}, {3, 2}, {3, 3}}) for (int init = 0; init < 4; ++init) {
        std::vector<std::vector<unsigned>> degs = {{}, std::vector<unsigned>(d.first, 1), std::vector<unsigned>(d.first, 2), {}, {}}; for (unsigned i = 0; i < d.first; ++i) { degs[3].push_back(i + 1 == d.first ? 4 : 1); degs[4].push_back(i ? 2 : 3); }
        for (size_t k = 0; k < degs.size(); ++k) {
            Cfg base{d.first, d.second, init, degs[k], 0, 0, 0, false, T ? 4u : 3u}; long n0 = 0; for (auto& s : initial(base)) n0 += s.Size();
            for (long extra : {-1L, 0L, 1L, 2L, 3L, 1000L}) for (unsigned pat : {0u, 1u, 2u, 3u}) for (int quad = 0; quad < 2; ++quad) {
                if ((extra <= 0 || pat == 0) && !(pat == 1 || extra == 1)) continue;
                Cfg c = base; c.maxSize = n0 + extra; c.patience = pat; c.quad = quad; unsigned big = d.first >= 3 && init ? 1 : 0;
                c.rounds = quad ? 2 - big : (d.first <= 1 ? 4 : 3) - big + (T ? 1 : 0) ; if (d.first == 3 && !T && c.rounds > 2) c.rounds = 2; if (quad) { if (k && !T) continue; c.nTest = 2; }
                if (extra == 3 && !T && d.first > 1) continue;
                std::string key = mc::cat("in", d.first, "out", d.second, "/init", init, "/deg", k, "/size+", extra, "/patience", pat, quad ? "/quad" : "");
                if (!mc::take(key)) continue;
                explore(c);
            }
        }
    } }
    Kokkos::finalize(); return mc::finish();
}
