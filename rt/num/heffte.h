// Stand-in for heFFTe (absent here): declarations only, no transform is run.
#pragma once
#include <array>
#include <complex>
#include <vector>
#include <stdexcept>
#include "mpi.h"
namespace heffte {
namespace backend { struct fftw {}; struct cufft {}; struct rocfft {}; struct mkl {}; }
enum class reshape_algorithm { alltoallv, alltoall, p2p, p2p_plined }; enum class scale { none, full, symmetric };
template <class I = int> struct box3d { std::array<I, 3> low{}, high{}, size{}; box3d() {} box3d(std::array<I, 3> l, std::array<I, 3> h) : low(l), high(h) { for (int i = 0; i < 3; i++) size[i] = h[i] - l[i] + 1; } box3d r2c(int d) const { box3d b = *this; b.high[d] = b.low[d] + size[d] / 2; return box3d(b.low, b.high); } bool operator!=(const box3d& o) const { return low != o.low || high != o.high; } bool operator==(const box3d& o) const { return !(*this != o); } };
struct plan_options { bool use_reorder = true, use_pencils = true; reshape_algorithm algorithm = reshape_algorithm::alltoallv; };
template <class B> plan_options default_options() { return {}; }
namespace mpi { inline int comm_rank(MPI_Comm) { return 0; } inline int comm_size(MPI_Comm) { return 1; } }
template <class I> std::array<int, 3> proc_setup_min_surface(const box3d<I>&, int n) { return {1, 1, n}; }
template <class I> std::vector<box3d<I>> split_world(const box3d<I>& w, const std::array<int, 3>&) { return {w}; }
template <class B> struct fft3d { template <class T> using buffer_container = std::vector<T>; };
template <class B> struct fft3d_r2c { fft3d_r2c(box3d<>, box3d<>, int, MPI_Comm, plan_options = {}) {} size_t size_workspace() const { return 0; } template <class... A> void forward(A...) const { fsx_fail("no transform here"); } template <class... A> void backward(A...) const { fsx_fail("no transform here"); } };
}
