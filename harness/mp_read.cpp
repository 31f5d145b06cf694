// Multiphysics mesh files (apps/multiphysics/src/common/include/mesh_io.hpp MeshReader): EnSight, Abaqus, legacy VTK and VTU.
#include "matar.h"
#include "ELEMENTS.h"
#include "fsx_in.h"
using namespace mtr;
#include "common/include/mesh_io.hpp"
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
// a small unstructured mesh: two elements in a row (or one), nodes and elements numbered in a chosen order
struct Want { int d; size_t NN, nn, ne; std::vector<std::vector<double>> x; std::vector<std::vector<size_t>> el; std::vector<int> part; double sc[3];
  Want(int dims) : d(dims) { NN = d == 3 ? 8 : 4; ne = 1 + fsx_choose(2, "elems"); swage::Mesh m; swage::fsx_block(m, d, (int)ne, 1, 1); nn = m.num_nodes; static const size_t mul[2] = {1, 5}; size_t q = mul[fsx_choose(2, "numbering")], off = q == 1 ? 0 : 3; int rev = fsx_choose(2, "elements"); x.assign(nn, std::vector<double>(3, 0.0)); el.assign(ne, {}); for (size_t n = 0; n < nn; n++) for (int k = 0; k < 3; k++) x[n][k] = k < d ? sd("x") : 0.0; for (size_t e = 0; e < ne; e++) { size_t s = rev ? ne - 1 - e : e; for (size_t l = 0; l < NN; l++) el[e].push_back((m.nodes_in_elem(s, l) * q + off) % nn); part.push_back((int)(7 + 3 * e)); } for (int k = 0; k < 3; k++) sc[k] = 1; }
  // the node order of most formats: around the bottom, around the top
  size_t around(size_t e, size_t l) { static const size_t C[8] = {0, 1, 3, 2, 4, 5, 7, 6}; return d == 3 ? el[e][C[l]] : el[e][l]; }
  void scale(mesh_input_t& in) { for (int k = 0; k < 3; k++) sc[k] = sd("scale", 0.1, 5); in.scale_x = sc[0]; in.scale_y = sc[1]; in.scale_z = sc[2]; }
  void check(swage::Mesh& m, State_t& S) { fsx_check(m.num_nodes == nn && m.num_elems == ne && (int)m.num_dims == d && m.num_corners == ne * NN, "a mesh file gives all nodes and elements"); for (size_t n = 0; n < nn; n++) for (int k = 0; k < d; k++) { fsx_check_near(S.node.coords.host(n, k), sc[k] * x[n][k], TOL, "nodes lie where the file says, scaled"); fsx_check_near(S.node.coords(n, k), sc[k] * x[n][k], TOL, "nodes lie where the file says, scaled"); } for (size_t e = 0; e < ne; e++) for (size_t l = 0; l < NN; l++) fsx_check(m.nodes_in_elem.host(e, l) == el[e][l] && m.nodes_in_elem(e, l) == el[e][l], "elements have the file's nodes in the solver's order"); size_t cn = 0; for (size_t n = 0; n < nn; n++) cn += m.num_corners_in_node(n); fsx_check(cn == ne * NN, "the connectivity is built"); } };
static std::string S(size_t n) { std::string r; do { r.insert(r.begin(), (char)('0' + n % 10)); n /= 10; } while (n); return r; }
static void prec(std::ofstream& f) { f << std::setprecision(17) << std::scientific; }
static void finish(Want& w, const char* name, mesh_input_t& in, const char* cover) { swage::Mesh m; State_t st; MeshReader r; std::string f = name; r.set_mesh_file(&f[0]); r.read_mesh(m, st, in, w.d); w.check(m, st); fsx_cover(cover); }
static void ensight(int d) { Want w(d); { std::ofstream f("m.geo"); prec(f); f << "description\nof the mesh\nnode id given\nelement id given\npart\n1\nall\ncoordinates\n" << w.nn << "\n"; for (int k = 0; k < 3; k++) for (size_t n = 0; n < w.nn; n++) f << w.x[n][k] << "\n"; f << (d == 3 ? "hexa8" : "quad4") << "\n" << w.ne << "\n"; for (size_t e = 0; e < w.ne; e++) { for (size_t l = 0; l < w.NN; l++) f << " " << w.around(e, l) + 1; f << "\n"; } f.close(); } mesh_input_t in; w.scale(in); finish(w, "m.geo", in, "ensight"); }
FSX_ENTRY h_ensight3() { ensight(3); }
FSX_ENTRY h_ensight2() { ensight(2); }
FSX_ENTRY h_abaqus() { Want w(3); int style = fsx_choose(3, "style"); { std::ofstream f("m.inp"); prec(f); f << "*Heading\n** a comment\n*Part, name=P\n*Node\n"; const char* sep = style == 1 ? ", " : ",   "; for (size_t n = 0; n < w.nn; n++) f << (style == 2 ? "      " : "") << n + 1 << sep << w.x[n][0] << sep << w.x[n][1] << sep << w.x[n][2] << "\n"; f << "*Element, type=C3D8R\n"; for (size_t e = 0; e < w.ne; e++) { f << e + 1; for (size_t l = 0; l < 8; l++) f << ", " << w.around(e, l) + 1; f << "\n"; } f << "*Nset, nset=N, generate\n 1, 8, 1\n*Elset, elset=E\n 1\n*End Part\n"; if (style == 1) f << "*Step\n*Element Output, directions=YES\nS, LE\n*End Step\n"; f.close(); } mesh_input_t in; w.scale(in); finish(w, "m.inp", in, "abaqus"); }
static void vtk(int d) { Want w(d); { std::ofstream f("m.vtk"); prec(f); f << "# vtk DataFile Version 3.0\nmesh\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " << w.nn << " float\n"; for (size_t n = 0; n < w.nn; n++) f << w.x[n][0] << " " << w.x[n][1] << " " << w.x[n][2] << "\n"; f << "\nCELLS " << w.ne << " " << w.ne * (w.NN + 1) << "\n"; for (size_t e = 0; e < w.ne; e++) { f << w.NN; for (size_t l = 0; l < w.NN; l++) f << " " << w.around(e, l); f << "\n"; } f << "\nCELL_TYPES " << w.ne << "\n"; for (size_t e = 0; e < w.ne; e++) f << (d == 3 ? 12 : 9) << "\n"; f.close(); } mesh_input_t in; w.scale(in); finish(w, "m.vtk", in, "vtk"); }
FSX_ENTRY h_vtk3() { vtk(3); }
FSX_ENTRY h_vtk2() { vtk(2); }
static void vtu(int d) { Want w(d); int type = d == 3 ? (fsx_choose(2, "type") ? 12 : 11) : 9, ids = fsx_choose(3, "ids"), wide = fsx_choose(2, "lines"); { std::ofstream f("m.vtu"); prec(f); f << "<?xml version=\"1.0\"?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\">\n  <UnstructuredGrid>\n    <Piece NumberOfPoints=\"" << w.nn << "\" NumberOfCells=\"" << w.ne << "\">\n"; auto obj = [&] { f << "      <CellData>\n        <DataArray type=\"Int32\" Name=\"ObjectId\" format=\"ascii\">\n         "; for (size_t e = 0; e < w.ne; e++) f << " " << w.part[e]; f << "\n        </DataArray>\n      </CellData>\n"; }; if (ids == 1) obj();
    f << "      <Points>\n        <DataArray type=\"Float64\" Name=\"Points\" NumberOfComponents=\"3\" format=\"ascii\">\n"; for (size_t n = 0; n < w.nn; n++) { f << "          " << w.x[n][0] << " " << w.x[n][1] << " " << w.x[n][2]; if (!wide || n % 2 || n + 1 == w.nn) f << "\n"; } f << "        </DataArray>\n      </Points>\n      <Cells>\n        <DataArray type=\"Int64\" Name=\"connectivity\" format=\"ascii\">\n"; for (size_t e = 0; e < w.ne; e++) { f << "          "; for (size_t l = 0; l < w.NN; l++) f << (type == 12 ? w.around(e, l) : w.el[e][l]) << " "; if (!wide || e + 1 == w.ne) f << "\n"; } f << "        </DataArray>\n        <DataArray type=\"Int64\" Name=\"offsets\" format=\"ascii\">\n"; for (size_t e = 0; e < w.ne; e++) f << " " << (e + 1) * w.NN; f << "\n        </DataArray>\n        <DataArray type=\"UInt8\" Name=\"types\" format=\"ascii\">\n"; for (size_t e = 0; e < w.ne; e++) f << " " << type; f << "\n        </DataArray>\n      </Cells>\n"; if (ids == 2) obj(); f << "    </Piece>\n  </UnstructuredGrid>\n</VTKFile>\n"; f.close(); }
  mesh_input_t in; in.p_order = 1; w.scale(in); finish(w, "m.vtu", in, "vtu"); for (size_t e = 0; e < w.ne; e++) fsx_check(in.object_ids.host(e) == (ids ? w.part[e] : 0) && in.object_ids(e) == (ids ? w.part[e] : 0), "elements belong to the file's parts"); }
FSX_ENTRY h_vtu3() { vtu(3); }
FSX_ENTRY h_vtu2() { vtu(2); }
// no mesh: missing files and unknown kinds are refused
FSX_ENTRY h_refuse() { static const char* N[4] = {"m.obj", "m", "absent.geo", nullptr}; int k = fsx_choose(4, "name"); for (const char* n : {"m.obj", "m"}) { std::ofstream f(n); f << "x\n"; f.close(); } swage::Mesh m; State_t st; mesh_input_t in; MeshReader r; std::string n = N[k] ? N[k] : ""; if (N[k]) r.set_mesh_file(&n[0]); bool threw = false; try { r.read_mesh(m, st, in, 3); } catch (std::runtime_error&) { threw = true; } fsx_check(threw && m.num_nodes == 0, "a mesh that cannot be read is refused"); fsx_cover("refused"); }
