// C16: every operation of a family of objects under a controlled scheduler, with 1 to 4 threads. Memory accesses inside regions are
// monitored for unordered conflicts; every order of the threads is run; where threads share atomic variables, every single
// preemption at an atomic operation too. The answers must be the same for every schedule, and (for maps) for every thread count.
#include "ctlsched.h"
#include "family.h"
#include "mat.h"
#include "gauss.h"
#include "MParT/Distributions/PullbackDensity.h"
#include "MParT/MapObjective.h"
#include "MParT/MapFactory.h"
#include "MParT/Sigmoid.h"
#include "MParT/Utilities/LinearAlgebra.h"
#include <Kokkos_Core.hpp>
#include <sys/wait.h>
#include <unistd.h>
static const int MAXN = 4; static int me = 0;   // the number of threads of this process; 0 in the one that compares
static int fds[MAXN + 1]; static pid_t kids[MAXN + 1];
typedef std::function<void(Vec&)> Job;   // appends everything it observed
static bool T;

// ---- the pipe between the processes
static void put(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(95); c += k; n -= k; } }
static bool get(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
struct Report { std::string cls, detail; };
static void putStr(int fd, std::string const& s) { uint64_t n = s.size(); put(fd, &n, 8); put(fd, s.data(), n); }
static bool getStr(int fd, std::string& s) { uint64_t n; if (!get(fd, &n, 8)) return false; s.resize(n); return get(fd, &s[0], n); }

static Vec once(Job const& j, bool rec, std::vector<int> const& order, long at = -1, int to = 0) {
    Vec v; sched::setRecord(rec); sched::setOrder(order); sched::setPreempt(at, to); sched::beginRun();
    try { j(v); } catch (std::exception& e) { v.push_back(-98765.0); for (const char* c = e.what(); *c; ++c) v.push_back(*c); }
    sched::setRecord(false); sched::setPreempt(-1, 0);
    return v;
}
static bool eq(Vec const& a, Vec const& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }
// run one case in a worker
static void work(Job const& job) {
    std::vector<Report> rep; auto s0 = sched::stats(); uint64_t runs = 0, pre = 0;
    std::vector<int> ord; for (int i = 0; i < me; ++i) ord.push_back(i);
    Vec r0 = once(job, true, ord); runs++;
    for (auto& s : sched::takeRaces()) rep.push_back({"data-race", s});
    long nat = sched::atomicOps(); uint64_t size = sched::stats().accesses - s0.accesses; bool sh = sched::sharedAtomics(); auto sites = sched::sharedSites();
    if (me > 1) {
        std::vector<int> rev(ord.rbegin(), ord.rend()); Vec r1 = once(job, true, rev); runs++;
        for (auto& s : sched::takeRaces()) rep.push_back({"data-race", s});
        sh |= sched::sharedAtomics(); for (auto& q : sched::sharedSites()) sites.push_back(q);
        if (!eq(r0, r1)) rep.push_back({"schedule-dependent", "the result differs when the threads run in reversed order"});
        else { std::vector<int> p = ord; while (std::next_permutation(p.begin(), p.end())) { Vec r = once(job, false, p); runs++; if (!eq(r0, r)) { rep.push_back({"schedule-dependent", "the result differs when the threads run in the order " + mc::str(p)}); break; } } }
        // threads meet in atomic variables: every single preemption there, in the first few cases that get to each such place
        static std::map<std::pair<void*, void*>, int> tried; bool fresh = false; for (auto& q : sites) fresh |= tried[q] < (T ? 6 : 2);
        if (fresh && nat < 4000 && size < (T ? 20000000u : 1000000u)) {
            for (auto& q : sites) tried[q]++;
            long lim = T ? 4000 : 200; bool bad = false; long step = std::max(1L, nat / lim); if (step > 1) mc::count("spread_preemptions");
            for (long k = 0; k < nat && !bad; k += step) for (int to = 0; to < me && !bad; ++to) { bool r = k < 40; Vec v = once(job, r, ord, k, to); pre++; for (auto& s : sched::takeRaces()) { rep.push_back({"data-race", s}); bad = true; } if (!eq(r0, v)) { rep.push_back({"schedule-dependent", mc::cat("the result differs when atomic operation ", k, " is followed by thread ", to)}); bad = true; } }
        }
    }
    auto s1 = sched::stats(); uint64_t c[9] = {s1.regions - s0.regions, s1.multi - s0.multi, s1.accesses - s0.accesses, s1.atomics - s0.atomics, s1.switches - s0.switches, s1.waits - s0.waits, sh ? 1ull : 0ull, runs, pre};
    int fd = fds[0]; uint64_t n = r0.size(); put(fd, &n, 8); put(fd, r0.data(), 8 * n); put(fd, c, sizeof c); n = std::min<size_t>(rep.size(), 6); put(fd, &n, 8); for (size_t i = 0; i < n; ++i) { putStr(fd, rep[i].cls); putStr(fd, rep[i].detail); }
}
static void compare(std::string const& key, double tol) {
    Vec first; static const char* names[9] = {"regions", "regions_of_several_threads", "monitored_accesses", "atomic_operations", "transitions", "waits", "cases_sharing_atomics", "traces", "preempted_runs"};
    for (int n = 1; n <= MAXN; ++n) {
        uint64_t k, c[9], m; Vec r; bool ok = get(fds[n], &k, 8); if (ok) { r.resize(k); ok = get(fds[n], r.data(), 8 * k) && get(fds[n], c, sizeof c) && get(fds[n], &m, 8); }
        if (!ok) { int st = 0; waitpid(kids[n], &st, 0); fprintf(stderr, "the process with %d threads ended with status %d\n", n, st); if (WIFEXITED(st) && WEXITSTATUS(st) == 98) _exit(98); _exit(97); }
        for (int i = 0; i < 9; ++i) mc::count(names[i], c[i]);
        for (int o = 0, f = 1; o < n; f *= ++o) if (o + 1 == n) for (int q = 0; q < f * n; ++q) mc::distinct(mc::hashStr(mc::cat(key, "#", n, "#", q)));
        for (uint64_t i = 0; i < m; ++i) { std::string a, b; if (!getStr(fds[n], a) || !getStr(fds[n], b)) _exit(97); mc::viol(a, mc::cat(key, " with ", n, " threads: ", b)); }
        if (n == 1) { first = r; continue; }
        bool same = r.size() == first.size(); size_t at = 0; if (same) for (; at < r.size(); ++at) { double x = r[at], y = first[at]; if (memcmp(&x, &y, 8) && !(std::fabs(x - y) <= tol * (1 + std::fabs(y))) && !(std::isnan(x) && std::isnan(y))) { same = false; break; } }
        if (!same) mc::viol("depends-on-thread-count", mc::cat(key, ": with ", n, " threads ", r.size() == first.size() ? mc::cat("value ", at, " is ", r[at], ", with one ", first[at]) : mc::cat(r.size(), " values, with one ", first.size())));
    }
}
static void one(std::string const& key, double tol, Job const& job) { if (!mc::take(key)) return; if (me) work(job); else compare(key, tol); }

// ---- the jobs
static void addM(Vec& v, CM const& m) { for (unsigned j = 0; j < m.extent(1); ++j) for (unsigned i = 0; i < m.extent(0); ++i) v.push_back(m(i, j)); }
static void mapJob(E e, unsigned big, Vec& v) {   // big: the size of a last, larger batch (0: none)
    bool fn = e->kind == EXPAN || e->kind == AFFFUN; FunP f; if (fn) f = e->buildFun(); else f = e->build(); if (e->nc) Expr::setC(*f, coeffs(e->nc, 0));
    auto* m = dynamic_cast<mpart::ConditionalMapBase<HS>*>(f.get());
    for (unsigned n : {5u, 2u, 1u, 9u, big}) { if (!n) continue;
        Cols x, s; for (unsigned j = 0; j < n; ++j) { x.push_back(point(e->in, j % 11)); Vec t(e->out); for (unsigned i = 0; i < e->out; ++i) t[i] = 0.75 - 0.5 * i + 0.25 * j * (i + 1); s.push_back(t); }
        int lay = n == 2 ? 3 : n == 9 ? 1 : n > 9 ? 2 : 0; Mat X = fillMat(x, e->in, lay), S = fillMat(s, e->out, lay); CM xv = X.view(), sv = S.view();
        auto guard = [&](std::function<void()> const& q) { try { q(); } catch (std::invalid_argument&) { v.push_back(-1e99); } };
        auto into = [&](unsigned rows, std::function<void(M)> const& q) { guard([&] { Mat O(rows, n, (lay + 1) % 4, -7.5); q(O.view()); for (double d : O.buf) v.push_back(d); }); };
        Cols ev; into(e->out, [&](M o) { f->EvaluateImpl(xv, o); ev = colsOf(CM(o)); });
        into(e->in, [&](M o) { f->GradientImpl(xv, sv, o); }); into(e->nc, [&](M o) { f->CoeffGradImpl(xv, sv, o); });
        if (!m || ev.empty()) continue;
        for (auto& c : ev) for (double& d : c) d = std::fabs(d) < 1e6 ? 0.9 * d : 0.5;
        Mat Y = fillMat(ev, e->out, lay); CM yv = Y.view();
        into(e->out, [&](M o) { m->InverseImpl(xv, yv, o); });
        if (e->kind == COMP) { Mat X1 = fillMat({x[0]}, e->in, lay); into(1, [&](M o) { m->InverseImpl(CM(X1.view()), yv, o); }); }   // one conditioning point for all values
        guard([&] { VecL O(n, 1, -7.5); m->LogDeterminantImpl(xv, O.view()); for (double d : O.buf) v.push_back(d); });
        into(e->nc, [&](M o) { m->LogDeterminantCoeffGradImpl(xv, o); }); into(e->in, [&](M o) { m->LogDeterminantInputGradImpl(xv, o); });
        if (n == 5) { guard([&] { addM(v, f->Evaluate(xv)); }); guard([&] { StridedVector<double, HS> q = m->LogDeterminant(xv); for (unsigned j = 0; j < q.extent(0); ++j) v.push_back(q(j)); }); guard([&] { addM(v, f->Gradient(xv, sv)); }); guard([&] { addM(v, m->Inverse(xv, yv)); }); }
    }
}
static void densityJob(Dens p, Samp s, unsigned d, Vec& v) {
    for (unsigned n : {5u, 1u, 8u, 300u}) { Cols x; for (unsigned j = 0; j < n; ++j) x.push_back(point(d, j % 11)); Mat X = fillMat(x, d, n == 5 ? 0 : 1); CM xv = X.view(); if (p) { VecL O(n, 0, 0.5); p->LogDensityImpl(xv, O.view()); for (double q : O.buf) v.push_back(q); Mat G(d, n, 0, 1.5); p->LogDensityInputGradImpl(xv, G.view()); for (double q : G.buf) v.push_back(q); } }
    (void)s;
}
static void sampleJob(Samp s, Vec& v) { for (unsigned n : {6u, 1u, 9u, 300u}) { s->SetSeed(17); addM(v, CM(s->Sample(n))); addM(v, CM(s->Sample(2))); } }
static void enumerateAll() {
    std::map<int, unsigned> seen;
    enumerate([&](E e) {
        unsigned q = seen[(int)e->kind]++, step = e->kind == COMP ? 23 : e->kind == COMPOSED ? 29 : e->kind == TRI ? 41 : e->kind == EXPAN ? 13 : e->kind == SUMM ? 5 : 4;
        if (T) step = std::max(1u, step / 6);
        if (q % step) return; unsigned k = q / step, big = k == 1 ? 1100 : k % 4 == 0 ? 70 : 0; one(e->name, 0, [=](Vec& v) { mapJob(e, big, v); });
    }, T);
    // densities and samplers
    for (unsigned d = 1; d <= 3; ++d) for (int mk = 0; mk < 3; mk += 2) for (int ck = 0; ck < 3; ++ck) {
        Gauss g(d, mk, ck); if (mk == 0 && ck == 0 && d == 3) continue;
        one(g.name() + "/density", 1e-12, [=](Vec& v) { auto p = g.make(); densityJob(p, p, d, v); });
        one(g.name() + "/sample", 1e300, [=](Vec& v) { sampleJob(g.make(), v); });
    }
    std::vector<E> maps = {mkTri({comp(1, 0), comp(2, 1)}), mkTri({comp(1, 3), mkAffine(2, 1, true, true)}), comp(2, 1), mkAffine(2, 2, true, true, 1), mkComposed({mkTri({comp(1, 1), comp(2, 0)}), mkAffine(2, 2, true, true), mkTri({comp(1, 2), comp(2, 3)})}, 1), mkIdent(3, 2), mkTri({mkSumm(sumFn(2, 1, 0), comp(2, 1)), comp(4, 0)})};
    for (auto e : maps) {
        Gauss g(e->out, 2, 2); auto withMap = [e] { MapP f = e->build(); if (e->nc) Expr::setC(*f, coeffs(e->nc, 0)); return f; };
        if (e->in == e->out) {
            one(e->name + "/pullback-density", 1e-11, [=](Vec& v) { densityJob(mpart::CreatePullback<HS>(withMap(), std::make_shared<Dist::element_type>(g.make(), g.make()))->GetDensity(), nullptr, e->in, v); });
            one(e->name + "/pushforward-density", 1e-11, [=](Vec& v) { auto p = mpart::CreatePushforward<HS>(withMap(), std::make_shared<Dist::element_type>(g.make(), g.make()))->GetDensity(); for (unsigned n : {5u, 1u}) { Cols x; for (unsigned j = 0; j < n; ++j) x.push_back(Vec(e->in, 0.1 * j)); Mat X = fillMat(x, e->in, 0); VecL O(n, 0, 0.5); p->LogDensityImpl(X.view(), O.view()); for (double q : O.buf) v.push_back(q); } });
            one(e->name + "/samplers", 1e300, [=](Vec& v) { for (int k = 0; k < 2; ++k) { auto q = std::make_shared<Dist::element_type>(g.make(), g.make()); sampleJob(k ? mpart::CreatePullback<HS>(withMap(), q)->GetSampler() : mpart::CreatePushforward<HS>(withMap(), q)->GetSampler(), v); } });
        }
        for (unsigned n : {1u, 7u, 20u, 300u}) one(mc::cat(e->name, "/objective/", n), 1e-12, [=](Vec& v) { Cols x; for (unsigned j = 0; j < n; ++j) x.push_back(point(e->in, j % 11)); Mat X = fillMat(x, e->in, 0); mpart::KLObjective<HS> o(CM(X.view()), CM(X.view()), g.make()); auto f = withMap(); v.push_back(o.TrainError(f)); v.push_back(o.TestError(f)); if (e->nc) { Kokkos::View<double*, HS> q("g", e->nc); StridedVector<double, HS> qs = q; o.TrainCoeffGradImpl(f, qs); for (unsigned i = 0; i < e->nc; ++i) v.push_back(q(i)); std::vector<double> gr(e->nc); Vec c = coeffs(e->nc, 3); v.push_back(o(e->nc, c.data(), gr.data(), f)); for (double d : gr) v.push_back(d); } });
    }
    // index sets, workers, linear algebra, sigmoids, factories
    for (unsigned d = 1; d <= 4; ++d) for (unsigned p = 0; p <= 4; ++p) one(mc::cat("fixed-set/", d, "/", p), 0, [=](Vec& v) {
        mpart::FixedMultiIndexSet<HS> f(d, p); v.push_back(f.Size()); auto mx = f.MaxDegrees(); for (unsigned i = 0; i < mx.extent(0); ++i) v.push_back(mx(i)); for (unsigned k = 0; k < f.Size(); ++k) for (unsigned q : f.IndexToMulti(k)) v.push_back(q);
        Kokkos::View<unsigned*, HS> full("t", 6 * d); for (unsigned i = 0; i < 6 * d; ++i) full(i) = (i * 7 + p) % 4; mpart::FixedMultiIndexSet<HS> g(d, full); auto m2 = g.MaxDegrees(); for (unsigned i = 0; i < m2.extent(0); ++i) v.push_back(m2(i));
        auto ms = mpart::MultiIndexSet::CreateTotalOrder(d, p); auto h = ms.Fix(true); auto m3 = h.MaxDegrees(); for (unsigned i = 0; i < m3.extent(0); ++i) v.push_back(m3(i)); auto h2 = ms.Fix(false); auto m4 = h2.MaxDegrees(); for (unsigned i = 0; i < m4.extent(0); ++i) v.push_back(m4(i));
    });
    for (unsigned n = 1; n <= 5; ++n) one(mc::cat("linear-algebra/", n), 1e-13, [=](Vec& v) {
        Mat A(n, n, 0, 0.0), B(n, 3, 0, 0.0), C(n, 3, 1, 0.0); for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) A.at(i, j) = (i == j ? 5.0 + i : 1.0 / (1 + i + j)); for (unsigned j = 0; j < 3; ++j) { B.at(i, j) = 1.0 + i - 2.0 * j; C.at(i, j) = 0.3 * i + j; } }
        mpart::PartialPivLU<HS> lu; lu.compute(CM(A.view())); v.push_back(lu.determinant()); Mat X = B; lu.solveInPlace(X.view()); for (double q : X.buf) v.push_back(q);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) A.at(i, j) = A.at(j, i); mpart::Cholesky<HS> ch; ch.compute(CM(A.view())); v.push_back(ch.determinant()); X = B; ch.solveInPlace(X.view()); for (double q : X.buf) v.push_back(q);
        X = B; mpart::AddInPlace(X.view(), CM(C.view())); for (double q : X.buf) v.push_back(q); VecL a(3 * n, 1, 0.5), b(3 * n, 2, 0.25); mpart::AddInPlace(a.view(), StridedVector<const double, HS>(b.view())); for (double q : a.buf) v.push_back(q);
        Mat P(n, 3, 0, 0.0); mpart::dgemm<HS>(1.5, CM(A.view()), CM(B.view()), 0.0, P.view()); for (double q : P.buf) v.push_back(q);
    });
    for (unsigned k = 1; k <= 4; ++k) one(mc::cat("sigmoid/", k), 0, [=](Vec& v) {
        Kokkos::View<double*, HS> c("c", k), w("w", k); for (unsigned i = 0; i < k; ++i) { c(i) = 0.5 * i - 0.7; w(i) = 1 + 0.5 * i; } mpart::Sigmoid1d<HS, mpart::Logistic> f{StridedVector<const double, HS>(c), StridedVector<const double, HS>(w)}; Expr::setC(f, coeffs(k, 0));
        unsigned n = 5; Mat X(1, n, 0, 0.0), S(1, n, 0, 1.25), O(1, n, 0, 0.0), G(k, n, 0, 0.0); for (unsigned j = 0; j < n; ++j) X.at(0, j) = 0.4 * j - 0.9; f.EvaluateImpl(X.view(), O.view()); for (double q : O.buf) v.push_back(q); f.GradientImpl(S.view(), X.view(), O.view()); for (double q : O.buf) v.push_back(q); f.CoeffGradImpl(S.view(), X.view(), G.view()); for (double q : G.buf) v.push_back(q);
    });
    for (unsigned d = 1; d <= 3; ++d) for (unsigned out = 1; out <= d; ++out) for (int i = 0; i < 4; ++i) one(mc::cat("factory/", d, "/", out, "/", i), 0, [=](Vec& v) {
        auto o = simple(i); auto m = mpart::MapFactory::CreateTriangular<HS>(d, out, 2, o); Expr::setC(*m, coeffs(m->numCoeffs, 0)); unsigned n = 5; Cols x; for (unsigned j = 0; j < n; ++j) x.push_back(point(d, j)); Mat X = fillMat(x, d, 0); addM(v, CM(m->Evaluate(CM(X.view())))); auto q = m->LogDeterminant(CM(X.view())); for (unsigned j = 0; j < n; ++j) v.push_back(q(j));
    });
}
int main(int argc, char** argv) {
    mc::init(argc, argv); T = mc::ctx().thorough; auto& c = mc::ctx();
    for (int n = 1; n <= MAXN; ++n) {
        int p[2]; if (pipe(p)) return 1; fflush(stdout); pid_t k = fork(); if (k < 0) return 1;
        if (!k) { me = n; close(p[0]); for (int m = 1; m < n; ++m) close(fds[m]); fds[0] = p[1]; c.crumb = nullptr; c.out = nullptr; sched::setThreads(n); Kokkos::InitializationSettings s; s.set_num_threads(n); Kokkos::initialize(s); if ((int)Kokkos::DefaultHostExecutionSpace().concurrency() != n) { fprintf(stderr, "Kokkos runs %d threads, not %d\n", (int)Kokkos::DefaultHostExecutionSpace().concurrency(), n); _exit(94); } enumerateAll(); _exit(0); }
        close(p[1]); fds[n] = p[0]; kids[n] = k;
    }
    enumerateAll(); for (int n = 1; n <= MAXN; ++n) { int st; waitpid(kids[n], &st, 0); }
    return mc::finish();
}
