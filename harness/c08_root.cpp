// C08: the real bracketing search and root solver against an adversarial increasing function. Every evaluation the solver
// asks for is a choice point: the function's answer is taken from a finite menu that keeps it increasing (jump, plateau, just
// below / exactly at / just above the target, unbounded, NaN). All answer sequences up to a depth are explored, each completed
// by every one of a set of fixed continuations; the oracle judges the outcome from the answers alone.
#include "mc.h"
#include <limits>
#include <algorithm>
#include <Kokkos_Core.hpp>
#include "MParT/Utilities/RootFinding.h"
using namespace mpart;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();

struct Setting { double x0, yd, xtol, ftol; int what; double gap; };   // what 0: solver, 1: bracketing from one point, 2: bracketing from two points
struct Env {
    Setting s; int depth; int cont;
    std::map<double, double> known; // x -> answer (finite or infinite)
    std::vector<int> choice, width; // the choice sequence and the number of options at each point
    size_t pos = 0, evals = 0; bool nan = false, overrun = false; uint64_t h = 0; double nanAt = 0;
    bool grounded = false;
    double answer(double x) {
        ++evals;
        if (evals > 20000) overrun = true;
        if (evals > 30000) { write(2, "too many evaluations\n", 21); _exit(97); }
        if (std::isnan(x)) { nan = true; return NaN; }
        auto it = known.lower_bound(x);
        if (it != known.end() && it->first == x) return it->second;
        if (nan && x == nanAt) return NaN;
        double yl = -INF, yr = INF; double xl = -INF, xr = INF;
        if (it != known.end()) { yr = it->second; xr = it->first; }
        if (it != known.begin()) { auto p = std::prev(it); yl = p->second; xl = p->first; }
        double opt[12]; int n = 0;
        auto add = [&](double v) {
            if (!(v >= yl && v <= yr)) return;
            for (int i = 0; i < n; ++i) if (opt[i] == v) return;
            opt[n++] = v;
        };
        double yd = std::isfinite(s.yd) ? s.yd : 0, e = s.ftol;
        double y;
        if (pos < (size_t)depth) {
            // typical values first, then the corners
            if (std::isfinite(yl) && std::isfinite(yr)) add(yl + 0.5 * (yr - yl));
            else if (std::isfinite(yl)) add(yl + 1); else if (std::isfinite(yr)) add(yr - 1);
            add(yd - 2); add(yd + 2);
            if (std::isfinite(yl)) add(yl); if (std::isfinite(yr)) add(yr);
            add(yd); add(yd - 0.6 * e); add(yd + 0.6 * e);
            if (known.empty() || pos < 3) { add(yd + 1e9); add(yd - 1e9); }
            if (!std::isfinite(yr)) add(INF); if (!std::isfinite(yl)) add(-INF);
            int total = n + 1; // the last option is NaN
            int c;
            if (pos < choice.size()) c = choice[pos]; else { choice.push_back(0); width.push_back(total); c = 0; }
            width[pos] = total;
            ++pos;
            h = mc::hashBytes(&x, 8, h + 1); h = mc::hashBytes(&c, 4, h);
            mc::distinct(h);
            mc::count("transitions");
            if (c >= n) { nan = true; nanAt = x; return NaN; }
            y = opt[c];
        } else {
            mc::count("continuation_answers");
            bool fl = std::isfinite(yl), fr = std::isfinite(yr), xlF = std::isfinite(xl), xrF = std::isfinite(xr);
            if (cont == 0 || cont >= 5) { // affine between and a constant slope beyond (one, small, hardly any, large)
                const double m = cont == 0 ? 1.0 : cont == 5 ? 1e-9 : cont == 6 ? 4e-12 : 1e9;
                if (fl && fr) y = yl + (yr - yl) * ((x - xl) / (xr - xl));
                else if (fl && !xrF) y = yl + m * (x - xl); else if (fr && !xlF) y = yr - m * (xr - x);
                else if (fl) y = std::max(yl, yd) + 1; else if (fr) y = std::min(yr, yd) - 1; else y = x;
            } else if (cont == 1) y = fl ? yl : std::isfinite(yr) ? yr - (xrF ? (xr - x) : 1) : x;  // plateaus to the left
            else if (cont == 2) y = fr ? yr : std::isfinite(yl) ? yl + (xlF ? (x - xl) : 1) : x;     // plateaus to the right
            else { // steep around one hidden point: below the target left of it, above right of it
                double star = s.x0 + (cont == 3 ? 37.3 : -0.123456789), v = x < star ? yd - 1 - 1 / (1 + (star - x)) * 0.5 : yd + 1 + (x - star);
                y = std::min(std::max(v, yl), yr);
            }
            if (!(y >= yl)) y = yl; if (!(y <= yr)) y = yr;
        }
        known[x] = y;
        return y;
    }
};
struct F { Env* e; double operator()(double x) const { return e->answer(x); } };

static void judge(Env& e) {
    Setting const& s = e.s;
    auto desc = [&]() {
        std::ostringstream o; o.precision(17);
        o << "x0=" << s.x0 << " yd=" << s.yd << " xtol=" << s.xtol << " ftol=" << s.ftol << " evals=" << e.evals << " nan=" << e.nan << " answers:";
        int k = 0; for (auto& p : e.known) if (++k < 20) o << " f(" << p.first << ")=" << p.second;
        return o.str();
    };
    int info = 12345;
    double r = 0, xl = s.x0, xu = s.x0 + s.gap, yl = 0, yu = 0;
    F f{&e};
    if (s.what == 0) r = RootFinding::InverseSingleBracket<Kokkos::HostSpace>(s.yd, f, s.x0, s.xtol, s.ftol, info);
    else RootFinding::FindBracket<Kokkos::HostSpace>(f, xl, yl, xu, yu, s.yd, info);
    mc::count("traces");
    size_t budget = s.what == 0 ? 10000 + 133 : 131;
    if (e.evals > budget) mc::viol("budget", desc());
    if (info != 0 && info != -1 && info != -2) { mc::viol("info", mc::cat(info, " ", desc())); return; }
    // the tightest enclosure the answers give
    double a = -INF, b = INF, ya = -INF, yb = INF; bool hasA = false, hasB = false;
    for (auto& p : e.known) if (p.second <= s.yd) { a = p.first; ya = p.second; hasA = true; }
    for (auto it = e.known.rbegin(); it != e.known.rend(); ++it) if (it->second >= s.yd) { b = it->first; yb = it->second; hasB = true; }
    bool enclosed = hasA && hasB;
    bool flat = false; // some stretch longer than 10 whose mean slope is below the documented threshold
    for (auto i = e.known.begin(); i != e.known.end() && !flat; ++i) for (auto j = std::next(i); j != e.known.end(); ++j)
        if (j->first - i->first > 10 && std::fabs((j->second - i->second) / (j->first - i->first)) < 1.0001e-12) { flat = true; break; }
    // the search may only run out of its evaluation budget after looking out to beyond 1e30 from the start
    double reach = 0; for (auto& p : e.known) reach = std::max(reach, std::fabs(p.first - s.x0));
    bool exhausted = e.evals >= 129 && reach > 1e30;
    if (s.what == 0) {
        if (info == 0) {
            if (!std::isfinite(r)) { mc::viol("success-without-number", desc()); return; }
            bool ok = false;
            auto it = e.known.find(r);
            if (it != e.known.end() && std::fabs(it->second - s.yd) < s.ftol) ok = true;
            // Where f is flat at the target several enclosures exist; any two answers with ya<=yd<=yb around r will do.
            if (!ok) for (auto i = e.known.begin(); i != e.known.end() && !ok; ++i) if (i->second <= s.yd && i->first <= r)
                for (auto j = e.known.lower_bound(r); j != e.known.end(); ++j) if (j->second >= s.yd) {
                    if (j->first - i->first < s.xtol || j->second - i->second < s.ftol) ok = true;
                    break;
                }
            // r lies between two points where the function equals the target, so it does there too
            if (!ok && enclosed) { auto i = e.known.upper_bound(r), j = e.known.lower_bound(r); if (i != e.known.begin() && j != e.known.end() && std::prev(i)->second >= s.yd && j->second <= s.yd) ok = true; }
            if (!ok) mc::viol("wrong-root", mc::cat("returned ", r, " ", desc()));
            mc::count("successes");
        } else if (info == -1 && std::isfinite(r)) { // iteration limit: only where the tolerance is finer than the numbers, or the answers are not numbers
            double ulp = std::nextafter(std::fabs(r), INF) - std::fabs(r);
            if (e.evals < 10000) mc::viol("false-iteration-limit", desc());
            else if (!enclosed || !(b - a <= 4 * ulp + s.xtol)) { if (!(a > b)) mc::viol("iteration-limit-away-from-root", mc::cat("returned ", r, " ", desc())); }
            mc::count("resolution_limits");
        } else {
            if (!std::isnan(r)) mc::viol("failure-with-number", mc::cat("returned ", r, " info ", info, " ", desc()));
            if (enclosed && !e.nan) mc::viol("gave-up-on-enclosed-target", desc());
            if (!e.nan && !flat && !exhausted && std::isfinite(s.yd)) mc::viol("gave-up-without-reason", desc());
            mc::count("failures");
        }
    } else {
        if (info == 0) {
            double fl = e.known.count(xl) ? e.known[xl] : NaN, fu = e.known.count(xu) ? e.known[xu] : NaN;
            if (!(xl <= xu) || !(yl <= s.yd) || !(yu >= s.yd) || fl != yl || fu != yu)
                mc::viol("bracket", mc::cat("[", xl, ",", xu, "] values ", yl, " ", yu, " ", desc()));
            mc::count("brackets");
        } else {
            if (enclosed && !e.nan && s.what == 1) mc::viol("bracket-gave-up-on-enclosed-target", desc());
            if (!e.nan && !flat && !exhausted && std::isfinite(s.yd)) mc::viol("bracket-gave-up-without-reason", desc());
            mc::count("bracket_failures");
        }
    }
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    bool T = mc::ctx().thorough;
    int D = T ? 7 : 5, Dn = T ? 5 : 4;
    std::vector<Setting> ss;
    for (double x0 : {0.0, 0.1, -37.5, 1e6, 1e17})
        for (double yd : {0.0, 1.0, -3.5, 1e6, NaN, INF, -INF})
            for (auto tol : {std::make_pair(1e-6, 1e-6), std::make_pair(1e-12, 1e-13), std::make_pair(5.0, 1e-9), std::make_pair(1e-9, 0.5)}) {
                ss.push_back({x0, yd, tol.first, tol.second, 0, 0});
                if (tol.first == 1e-6) { ss.push_back({x0, yd, 1, 1e-6, 1, 0}); ss.push_back({x0, yd, 1, 1e-6, 2, 5}); ss.push_back({x0, yd, 1, 1e-6, 2, 1}); }
            }
    for (size_t k = 0; k < ss.size(); ++k) {
        Setting s = ss[k];
        bool core = (s.x0 == 0.1 || s.x0 == -37.5) && (s.yd == 0 || s.yd == 1 || s.yd == -3.5);
        int d = core ? D : Dn;
        for (int cont = 0; cont < 8; ++cont) for (int first = 0; first < 12; ++first) {   // one case per first answer
            if (!mc::take(mc::cat("setting ", k, " (", s.what, " x0=", s.x0, " yd=", s.yd, " xtol=", s.xtol, " ftol=", s.ftol, ") continuation ", cont, " first answer ", first))) continue;
            std::vector<int> choice{first}, width{first + 1};
            bool any = false;
            while (true) {
                Env e; e.s = s; e.depth = d; e.cont = cont; e.choice = choice; e.width = width; e.h = k * 16 + cont;
                // is the first answer in the menu at all?
                judge(e);
                if (e.pos == 0 || first >= e.width[0]) break;
                any = true;
                e.choice.resize(e.pos); e.width.resize(e.pos);
                int i = (int)e.pos - 1;
                while (i >= 1 && e.choice[i] + 1 >= e.width[i]) --i;
                if (i < 1) break;
                e.choice[i]++; e.choice.resize(i + 1); e.width.resize(i + 1);
                choice = e.choice; width = e.width;
            }
            if (any) mc::sample(mc::cat("setting ", k, " continuation ", cont, " first ", first));
        }
    }
    return mc::finish();
}
