// Contracts of the files of reparameterizations: the order of the nodes of VTK
// (every order up to the stated one), and the files themselves (natively).
#include <cassert>
#include "qvc.h"
#include "repo.h"
// LINK: * -reparam_mesh.cpp
#include QV_SRC(reparam_mesh.cpp)
#include <cstdio>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace qugar;
namespace {
template<typename T> auto &el(T &v, int i) { return v[static_cast<std::size_t>(i)]; }
int ipow(int a, int b) { return b == 0 ? 1 : a * ipow(a, b - 1); }
// index of the node (i,j,k) of a Lagrange cell of VTK (vtkLagrangeCurve,
// vtkLagrangeQuadrilateral, vtkLagrangeHexahedron::PointIndexFromIJK, files of
// version 0.1), q = order of the polynomial
int vtk_curve(int i, int q)
{
  if (i == 0 || i == q) return i == 0 ? 0 : 1;
  return i + 1;
}
int vtk_quad(int i, int j, int q)
{
  const bool ib = i == 0 || i == q, jb = j == 0 || j == q;
  if (ib && jb) return i ? (j ? 2 : 1) : (j ? 3 : 0);
  int off = 4;
  if (jb) return (i - 1) + (j ? 2 * (q - 1) : 0) + off;
  if (ib) return (j - 1) + (i ? q - 1 : 3 * (q - 1)) + off;
  off += 4 * (q - 1);
  return off + (i - 1) + (q - 1) * (j - 1);
}
int vtk_hex(int i, int j, int k, int q)
{
  const bool ib = i == 0 || i == q, jb = j == 0 || j == q, kb = k == 0 || k == q;
  const int n = (ib ? 1 : 0) + (jb ? 1 : 0) + (kb ? 1 : 0), e = q - 1;
  if (n == 3) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
  int off = 8;
  if (n == 2) {
    if (!ib) return (i - 1) + (j ? 2 * e : 0) + (k ? 4 * e : 0) + off;
    if (!jb) return (j - 1) + (i ? e : 3 * e) + (k ? 4 * e : 0) + off;
    off += 8 * e;
    return (k - 1) + e * (i ? (j ? 3 : 1) : (j ? 2 : 0)) + off;
  }
  off += 12 * e;
  if (n == 1) {
    if (ib) return (j - 1) + e * (k - 1) + (i ? e * e : 0) + off;
    off += 2 * e * e;
    if (jb) return (i - 1) + e * (k - 1) + (j ? e * e : 0) + off;
    off += 2 * e * e;
    return (i - 1) + e * (j - 1) + (k ? e * e : 0) + off;
  }
  off += 6 * e * e;
  return off + (i - 1) + e * ((j - 1) + e * (k - 1));
}
template<int D> int vtk_node(int flat, int n)
{
  const int i = flat % n, j = (flat / n) % n, k = flat / (n * n);
  if constexpr (D == 1) return vtk_curve(i, n - 1);
  else if constexpr (D == 2) return vtk_quad(i, j, n - 1);
  else return vtk_hex(i, j, k, n - 1);
}
template<int D> void mask(int lo, int hi)
{
  const int n = qv::each("order", lo, hi);
  const auto m = create_VTU_conn_mask<D>(n);
  qv_check(static_cast<int>(m.size()) == ipow(n, D), "every node of a cell is written once");
  for (int f = 0; f < ipow(n, D); ++f) qv_check(static_cast<int>(el(m, vtk_node<D>(f, n))) == f, "nodes are written in the order of VTK");
  const int type = get_VTK_cell_type<D>(n);
  qv_check(type == (n == 2 ? (D == 1 ? 3 : D == 2 ? 9 : 12) : (D == 1 ? 68 : D == 2 ? 70 : 72)), "cells have their type of VTK");
}
std::string slurp(const std::string &f)
{
  std::ifstream s(f);
  std::stringstream b;
  b << s.rdbuf();
  return b.str();
}
// numbers of the data array with that name
std::vector<double> numbers_of(const std::string &text, const std::string &name)
{
  std::vector<double> v;
  auto at = text.find("Name=\"" + name + "\"");
  if (at == std::string::npos) return v;
  at = text.find('>', at) + 1;
  std::stringstream s(text.substr(at, text.find('<', at) - at));
  for (double x = 0; s >> x;) v.push_back(x);
  return v;
}
template<int D, int R> void read_file(const std::string &file, const std::vector<Point<R>> &p, const std::vector<std::size_t> &c, int n, bool *r)
{
  const auto text = slurp(file);
  const auto x = numbers_of(text, "Points"), con = numbers_of(text, "connectivity"), off = numbers_of(text, "offsets"), types = numbers_of(text, "types");
  bool ok = x.size() == 3 * p.size();
  for (std::size_t i = 0; ok && i < p.size(); ++i)
    for (int d = 0; d < 3; ++d) ok = ok && x[3 * i + static_cast<std::size_t>(d)] == (d < R ? p[i](d < R ? d : 0) : 0.0);
  r[0] = r[0] && ok;
  const auto per = static_cast<std::size_t>(ipow(n, D));
  ok = con.size() == c.size() && off.size() == c.size() / per && types.size() == off.size();
  for (std::size_t k = 0; ok && k < off.size(); ++k) {
    ok = ok && off[k] == static_cast<double>((k + 1) * per);
    for (std::size_t f = 0; f < per; ++f) ok = ok && con[k * per + static_cast<std::size_t>(vtk_node<D>(static_cast<int>(f), n))] == static_cast<double>(c[k * per + f]);
  }
  r[1] = r[1] && ok;
  const std::string piece = "NumberOfPoints=\"" + std::to_string(p.size()) + "\" NumberOfCells=\"" + std::to_string(off.size()) + "\"";
  r[2] = r[2] && text.find(piece) != std::string::npos;
}
// files that a multi-block file names, next to it
void read_blocks(const std::string &dir, const std::string &base, bool *r)
{
  const auto text = slurp(dir + "/" + base + ".vtmb");
  int n = 0;
  for (auto at = text.find("file=\""); at != std::string::npos; at = text.find("file=\"", at + 1)) {
    const auto from = at + 6;
    const auto f = text.substr(from, text.find('"', from) - from);
    const std::string path = f.front() == '/' ? f : dir + "/" + f;
    struct stat st;
    r[3] = r[3] && ::stat(path.c_str(), &st) == 0;
    ++n;
  }
  r[4] = n == 2;
}
template<int D, int R> void file(int n)
{
  char dir[] = "/tmp/qv_vtk_XXXXXX";
  if (::mkdtemp(dir) == nullptr) return;
  struct Mesh : ReparamMesh<D, R>
  {
    explicit Mesh(int o) : ReparamMesh<D, R>(o) {}
    void wire(std::size_t id) { this->wires_connectivity_.push_back(id); }
  } m(n);
  const int per = ipow(n, D);
  m.allocate_cells(2);
  for (int k = 0; k < 2 * per; ++k) {
    Point<R> x(0.0);
    for (int d = 0; d < R; ++d) x(d) = k < 4 ? qv_real(qv::idx2("x", k, d)) : 0.1 * k + d;
    m.insert_cell_point(x, k / per, k % per);
  }
  for (int k = 0; k < 3 * n; ++k) m.wire(static_cast<std::size_t>((k * 7) % (2 * per)));
  const std::string d(dir), name = d + "/mesh";
  char old[4096];
  // the name of the file is absolute, or relative to the working directory
  if (qv_each("relative", 0, 1) == 1) {
    if (::getcwd(old, sizeof old) != nullptr && ::chdir("/tmp") == 0) {
      m.write_VTK_file(d.substr(5) + "/mesh");
      if (::chdir(old) != 0) std::abort();
    }
  } else m.write_VTK_file(name);
  bool r[5] = { true, true, true, true, true };
  read_file<D, R>(name + ".vtu", m.get_points(), m.get_connectivity(), n, r);
  read_file<1, R>(name + "_wb.vtu", m.get_points(), m.get_wires_connectivity(), n, r);
  read_blocks(d, "mesh", r);
  for (const char *e : { "/mesh.vtu", "/mesh_wb.vtu", "/mesh.vtmb" }) std::remove((d + e).c_str());
  ::rmdir(dir);
  qv_check(r[0], "the points in the file are those of the mesh");
  qv_check(r[1], "the cells in the file are those of the mesh");
  qv_check(r[2], "the file says how many points and cells it has");
  qv_check(r[3], "the files a multi-block file names are next to it");
  qv_check(r[4], "a multi-block file names the cells and the wires");
}
}// namespace
HARNESS(n_mask1) { mask<1>(2, 10); }
HARNESS(n_mask2) { mask<2>(2, 8); }
HARNESS(n_mask3) { mask<3>(2, 6); }
HARNESS(b_file12) { file<1, 2>(qv::each("n", 2, 4)); }
HARNESS(b_file22) { file<2, 2>(qv::each("n", 2, 4)); }
HARNESS(b_file23) { file<2, 3>(qv::each("n", 2, 4)); }
HARNESS(b_file33) { file<3, 3>(qv::each("n", 2, 4)); }
