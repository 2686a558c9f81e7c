// Gaussians of every construction with their textbook formula; helpers shared by the density and training checks.
#pragma once
#include "family.h"
#include "mat.h"
#include "MParT/Distributions/GaussianSamplerDensity.h"
#include "MParT/Distributions/TransportDistributionFactory.h"
#include "MParT/Distributions/Distribution.h"
#include <Eigen/Cholesky>
typedef std::shared_ptr<mpart::DensityBase<HS>> Dens; typedef std::shared_ptr<mpart::SampleGenerator<HS>> Samp;
typedef std::shared_ptr<mpart::Distribution<HS>> Dist; typedef mpart::GaussianSamplerDensity<HS> G;
typedef std::vector<Vec> Cols;
static bool close(double a, double b, double t = 1e-11) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= t * (1 + std::fabs(b)); }
static std::string diff;
static bool same(Cols const& a, Cols const& b, double t = 1e-11) { if (a.size() != b.size()) { diff = mc::cat(a.size(), " points, expected ", b.size()); return false; } for (size_t j = 0; j < a.size(); ++j) { if (a[j].size() != b[j].size()) { diff = "number of rows"; return false; } for (size_t i = 0; i < a[j].size(); ++i) if (!close(a[j][i], b[j][i], t)) { diff = mc::cat("point ", j, " entry ", i, ": ", a[j][i], ", expected ", b[j][i]); return false; } } return true; }
static Cols colsOf(CM const& m) { Cols r(m.extent(1), Vec(m.extent(0))); for (size_t j = 0; j < r.size(); ++j) for (size_t i = 0; i < r[j].size(); ++i) r[j][i] = m(i, j); return r; }
static Mat fillMat(Cols const& v, unsigned r, int lay) { Mat m(r, v.size(), lay, -77.25); for (size_t j = 0; j < v.size(); ++j) for (unsigned i = 0; i < r; ++i) m.at(i, j) = v[j][i]; return m; }
static Kokkos::View<double**, HS> viewOf(Cols const& v, unsigned r) { Kokkos::View<double**, HS> m("m", r, v.size()); for (size_t j = 0; j < v.size(); ++j) for (unsigned i = 0; i < r; ++i) m(i, j) = v[j][i]; return m; }

// ---- a Gaussian: construction and formula
struct Gauss {
    unsigned d; int mk, ck; Eigen::VectorXd mu; Eigen::MatrixXd S, L;
    Gauss(unsigned d_, int mk_, int ck_) : d(d_), mk(mk_), ck(ck_) {
        mu.setZero(d); if (mk == 2) for (unsigned i = 0; i < d; ++i) mu(i) = 0.75 - 1.25 * i;
        S.setIdentity(d, d);
        if (ck == 1) for (unsigned i = 0; i < d; ++i) S(i, i) = 0.25 + 1.5 * i;
        if (ck >= 2) { Eigen::MatrixXd B(d, d); for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) B(i, j) = (i == j ? 1.5 : 0) + 0.5 * std::cos(1.0 + i + 3 * j + (ck == 3 ? i * j : 0)); S = B * B.transpose(); if (ck == 3) S *= 0.01; }
        L = S.llt().matrixL();
    }
    std::string name() const { return mc::cat("gauss", d, "/mean", mk, "/cov", ck); }
    std::shared_ptr<G> make(int lay = 0) const {   // mk: 0 none, 1 zero, 2 values; ck: 0 none, 1 diagonal, 2/3 dense
        Kokkos::View<double*, HS> m("mean", d); for (unsigned i = 0; i < d; ++i) m(i) = mu(i);
        // the covariance as a column-major or row-major matrix
        Kokkos::View<double**, Kokkos::LayoutLeft, HS> cl("cov", d, d); Kokkos::View<double**, Kokkos::LayoutRight, HS> cr("cov", d, d); for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) cl(i, j) = cr(i, j) = S(i, j);
        M c = lay == 0 ? M(cl) : M(cr); StridedVector<double, HS> mm = m;
        if (ck == 0) return mk ? std::make_shared<G>(mm) : std::make_shared<G>(d);
        return mk ? std::make_shared<G>(mm, c) : std::make_shared<G>(c);
    }
    double logp(Vec const& x) const { Eigen::VectorXd z(d); for (unsigned i = 0; i < d; ++i) z(i) = x[i] - mu(i); double ld = 0; for (unsigned i = 0; i < d; ++i) { for (unsigned j = 0; j < i; ++j) z(i) -= L(i, j) * z(j); z(i) /= L(i, i); ld += 2 * std::log(L(i, i)); } return -0.5 * (z.squaredNorm() + d * std::log(2 * M_PI) + ld); }
    Vec grad(Vec const& x) const { Eigen::VectorXd z(d); for (unsigned i = 0; i < d; ++i) z(i) = x[i] - mu(i); z = S.ldlt().solve(z); Vec g(d); for (unsigned i = 0; i < d; ++i) g[i] = -z(i); return g; }
};
