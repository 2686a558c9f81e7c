// Matrices and vectors in every layout, inside guarded buffers.
#pragma once
#include "MParT/Utilities/ArrayConversions.h"
#include <cstring>
#include <vector>
using mpart::StridedMatrix; using mpart::StridedVector;
typedef StridedMatrix<const double, Kokkos::HostSpace> CM; typedef StridedMatrix<double, Kokkos::HostSpace> M;
// a matrix in one of several layouts inside a guarded buffer
struct Mat {
    std::vector<double> buf; unsigned r, c; long sr, sc, off; double fill;
    Mat(unsigned r_, unsigned c_, int lay, double f) : r(r_), c(c_), fill(f) {
        switch (lay) {
        case 0: sr = 1; sc = std::max(1u, r); break;             // column major
        case 1: sr = std::max(1u, c); sc = 1; break;             // row major
        case 2: sr = 1; sc = r + 3; break;                       // block of a larger column-major array
        case 3: sr = c + 2; sc = 1; break;                       // block of a larger row-major array
        default: sr = 2; sc = 2 * r + 5; break;                  // no unit stride
        }
        off = 3; buf.assign(off + (r ? (r - 1) * sr : 0) + (c ? (c - 1) * sc : 0) + 8, f);
    }
    M view() { return M(buf.data() + off, Kokkos::LayoutStride(r, sr, c, sc)); }
    double& at(unsigned i, unsigned j) { return buf[off + i * sr + j * sc]; }
    bool paddingKept() { std::vector<char> in(buf.size(), 0); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) in[off + i * sr + j * sc] = 1; for (size_t k = 0; k < buf.size(); ++k) if (!in[k] && memcmp(&buf[k], &fill, 8)) return false; return true; }
};

struct VecL {   // stride 1, 2 or 5
    std::vector<double> buf; unsigned n; long st; double fill;
    VecL(unsigned n_, int lay, double f) : n(n_), st(lay == 0 ? 1 : lay == 1 ? 2 : 5), fill(f) { buf.assign(3 + n * st + 8, f); }
    StridedVector<double, Kokkos::HostSpace> view() { return StridedVector<double, Kokkos::HostSpace>(buf.data() + 3, Kokkos::LayoutStride(n, st)); }
    double& at(unsigned i) { return buf[3 + i * st]; }
    bool paddingKept() { std::vector<char> in(buf.size(), 0); for (unsigned i = 0; i < n; ++i) in[3 + i * st] = 1; for (size_t k = 0; k < buf.size(); ++k) if (!in[k] && memcmp(&buf[k], &fill, 8)) return false; return true; }
};
