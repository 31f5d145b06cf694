// Stand-in for swage::Mesh (ELEMENTS library, not part of this repository): unstructured meshes of hexahedra (corner k at bits
// (i,j,k) of its number), or of quadrilaterals (counter-clockwise), with the connectivity Fierro reads.
#pragma once
#ifndef PI
#define PI (3.14159265358979323846)
#endif
#include "matar.h"
#include <vector>
#include <algorithm>
namespace swage {
using namespace mtr;
struct Mesh {
  size_t num_dims = 3, num_nodes = 0, num_elems = 0, num_nodes_in_elem = 8, num_patches_in_elem = 6, num_corners = 0, num_patches = 0, num_bdy_patches = 0, num_bdy_nodes = 0, num_bdy_sets = 0, num_nodes_in_patch = 4, num_zones_in_elem = 1, num_gauss_in_elem = 1, Pn = 1, num_surfs = 0, num_surfs_in_elem = 6, num_leg_gauss_in_elem = 1, num_lob_gauss_in_elem = 1, num_zones = 0, num_nodes_in_zone = 8;
  DCArrayKokkos<size_t> nodes_in_elem; CArrayKokkos<size_t> corners_in_elem; RaggedRightArrayKokkos<size_t> elems_in_elem; CArrayKokkos<size_t> num_elems_in_elem; CArrayKokkos<size_t> patches_in_elem, gauss_in_elem, zones_in_elem;
  RaggedRightArrayKokkos<size_t> corners_in_node; CArrayKokkos<size_t> num_corners_in_node; RaggedRightArrayKokkos<size_t> elems_in_node, nodes_in_node; CArrayKokkos<size_t> num_nodes_in_node;
  CArrayKokkos<size_t> nodes_in_patch, elems_in_patch, bdy_patches, bdy_nodes;
  RaggedRightArrayKokkos<size_t> bdy_patches_in_set, bdy_nodes_in_set; DCArrayKokkos<size_t> num_bdy_patches_in_set, num_bdy_nodes_in_set;
  void initialize_nodes(size_t n) { num_nodes = n; }
  void initialize_elems(size_t n, size_t dims) { num_dims = dims; num_elems = n; num_nodes_in_elem = dims == 3 ? 8 : 4; num_patches_in_elem = 2 * dims; num_nodes_in_patch = 2 * (dims - 1); nodes_in_elem = DCArrayKokkos<size_t>(n, num_nodes_in_elem); corners_in_elem = CArrayKokkos<size_t>(n, num_nodes_in_elem); gauss_in_elem = CArrayKokkos<size_t>(n, num_gauss_in_elem); for (size_t e = 0; e < n; e++) for (size_t g = 0; g < num_gauss_in_elem; g++) gauss_in_elem(e, g) = e * num_gauss_in_elem + g; }
  void initialize_corners(size_t n) { num_corners = n; }
  void init_bdy_sets(size_t n) { num_bdy_sets = n; num_bdy_patches_in_set = DCArrayKokkos<size_t>(n); }
  static void rag(const std::vector<std::vector<size_t>>& v, RaggedRightArrayKokkos<size_t>& out, CArrayKokkos<size_t>& num) { num = CArrayKokkos<size_t>(v.size()); for (size_t i = 0; i < v.size(); i++) num(i) = v[i].size(); out = RaggedRightArrayKokkos<size_t>(num); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) out(i, j) = v[i][j]; }
  void build_connectivity() {
    size_t NN = num_nodes_in_elem; num_corners = num_elems * NN; std::vector<std::vector<size_t>> cn(num_nodes), en(num_nodes), ee(num_elems), nn(num_nodes);
    for (size_t e = 0; e < num_elems; e++) for (size_t l = 0; l < NN; l++) { corners_in_elem(e, l) = e * NN + l; cn[nodes_in_elem(e, l)].push_back(e * NN + l); en[nodes_in_elem(e, l)].push_back(e); }
    auto has = [](std::vector<size_t>& v, size_t x) { for (size_t y : v) if (y == x) return true; return false; };
    for (size_t n = 0; n < num_nodes; n++) for (size_t a : en[n]) { for (size_t b : en[n]) if (a != b && !has(ee[a], b)) ee[a].push_back(b); }
    for (size_t e = 0; e < num_elems; e++) for (size_t l = 0; l < NN; l++) for (size_t m = 0; m < NN; m++) { bool adj; size_t x = l ^ m; adj = num_dims == 3 ? (x == 1 || x == 2 || x == 4) : ((l + 1) % 4 == m || (m + 1) % 4 == l); size_t a = nodes_in_elem(e, l), b = nodes_in_elem(e, m); if (adj && a != b && !has(nn[a], b)) nn[a].push_back(b); }
    CArrayKokkos<size_t> tmp; rag(cn, corners_in_node, num_corners_in_node); rag(en, elems_in_node, tmp); rag(ee, elems_in_elem, num_elems_in_elem); rag(nn, nodes_in_node, num_nodes_in_node);
    static const size_t F3[24] = {0, 4, 6, 2, 1, 3, 7, 5, 0, 1, 5, 4, 3, 2, 6, 7, 0, 2, 3, 1, 4, 5, 7, 6}, F2[8] = {0, 3, 1, 2, 0, 1, 3, 2};
    size_t NP = num_patches_in_elem, PN = num_nodes_in_patch; patches_in_elem = CArrayKokkos<size_t>(num_elems, NP); std::vector<std::vector<size_t>> pn, key, pe;
    for (size_t e = 0; e < num_elems; e++) for (size_t p = 0; p < NP; p++) { std::vector<size_t> f, k; for (size_t i = 0; i < PN; i++) f.push_back(nodes_in_elem(e, num_dims == 3 ? F3[4 * p + i] : F2[2 * p + i])); k = f; for (size_t i = 1; i < k.size(); i++) for (size_t j = i; j > 0 && k[j] < k[j - 1]; j--) std::swap(k[j], k[j - 1]);
      size_t g = 0; for (; g < key.size(); g++) { bool eq = true; for (size_t i = 0; i < PN; i++) if (key[g][i] != k[i]) eq = false; if (eq) break; } if (g == key.size()) { key.push_back(k); pn.push_back(f); pe.push_back({}); } pe[g].push_back(e); patches_in_elem(e, p) = g; }
    num_patches = num_surfs = pn.size(); nodes_in_patch = CArrayKokkos<size_t>(num_patches, PN); elems_in_patch = CArrayKokkos<size_t>(num_patches, 2); std::vector<size_t> bp, bn;
    for (size_t g = 0; g < num_patches; g++) { for (size_t i = 0; i < PN; i++) nodes_in_patch(g, i) = pn[g][i]; elems_in_patch(g, 0) = pe[g][0]; elems_in_patch(g, 1) = pe[g].back(); if (pe[g].size() == 1) { bp.push_back(g); for (size_t n : pn[g]) if (!has(bn, n)) bn.push_back(n); } }
    num_bdy_patches = bp.size(); bdy_patches = CArrayKokkos<size_t>(bp.size()); for (size_t i = 0; i < bp.size(); i++) bdy_patches(i) = bp[i];
    num_bdy_nodes = bn.size(); bdy_nodes = CArrayKokkos<size_t>(bn.size()); for (size_t i = 0; i < bn.size(); i++) bdy_nodes(i) = bn[i];
    num_zones = num_elems; }
};
// a block of nx x ny (x nz) elements
inline void fsx_block(Mesh& m, int dims, int nx, int ny, int nz, bool patches = true) {
  int Nx = nx + 1, Ny = ny + 1, Nz = dims == 3 ? nz + 1 : 1; m.initialize_nodes(Nx * Ny * Nz); m.initialize_elems(nx * ny * (dims == 3 ? nz : 1), dims); size_t e = 0; auto id = [&](int i, int j, int k) { return (size_t)(i + Nx * (j + Ny * k)); };
  for (int k = 0; k < (dims == 3 ? nz : 1); k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++, e++) {
    if (dims == 3) for (int l = 0; l < 8; l++) m.nodes_in_elem(e, l) = id(i + (l & 1), j + (l >> 1 & 1), k + (l >> 2 & 1));
    else { m.nodes_in_elem(e, 0) = id(i, j, 0); m.nodes_in_elem(e, 1) = id(i + 1, j, 0); m.nodes_in_elem(e, 2) = id(i + 1, j + 1, 0); m.nodes_in_elem(e, 3) = id(i, j + 1, 0); } }
  m.initialize_corners(m.num_elems * m.num_nodes_in_elem); m.build_connectivity(); }
}
