// Orientations of bodies, renumberings of elements, and meshes as files.
#pragma once
#include "sghcase.hpp"
namespace mp {
typedef std::array<double, 9> M9;
inline V3 mul(const M9& m, const V3& x) { V3 y{0, 0, 0}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) y[i] += m[3 * i + j] * x[j]; return y; }
inline std::vector<M9> cube() { std::vector<M9> r; int p[3] = {0, 1, 2}; do for (int s = 0; s < 8; s++) { M9 m{}; for (int i = 0; i < 3; i++) m[3 * i + p[i]] = s >> i & 1 ? -1 : 1; double d = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); if (d > 0) r.push_back(m); } while (std::next_permutation(p, p + 3)); return r; }
inline const std::vector<M9> CUBE = cube();
inline M9 turn(double a, double b, double g) { double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), cg = cos(g), sg = sin(g); return {ca * cb, ca * sb * sg - sa * cg, ca * sb * cg + sa * sg, sa * cb, sa * sb * sg + ca * cg, sa * sb * cg - ca * sg, -sb, cb * sg, cb * cg}; }
inline M9 orient(int k) { return k < 24 ? CUBE[k] : k == 24 ? turn(0.5, 0.3, -0.4) : k == 25 ? turn(-2.1, 0.9, 2.6) : turn(0, 0, M_PI / 4); }
// element corners in a rotated local numbering: 0 the usual one, 1..24 the rotations of the cube, 25 another one for every element
inline const M9& relabelled(int relabel, size_t e) { return CUBE[relabel == 0 ? 0 : relabel == 25 ? (7 * e + 5) % 24 : relabel - 1]; }
inline S vtkmesh(const std::vector<V3>& x, const std::vector<std::vector<int>>& e) { std::ostringstream o; o.precision(17); o << "# vtk DataFile Version 3.0\nany title\nASCII\nDATASET UNSTRUCTURED_GRID\n\nPOINTS " << x.size() << " double\n"; for (auto& p : x) o << p[0] << " " << p[1] << " " << p[2] << "\n"; o << "\nCELLS " << e.size() << " " << e.size() * 9 << "\n"; static const int F[8] = {0, 1, 3, 2, 4, 5, 7, 6}; for (auto& q : e) { o << 8; for (int l : F) o << " " << q[l]; o << "\n"; } o << "\nCELL_TYPES " << e.size() << "\n"; for (size_t i = 0; i < e.size(); i++) o << "12\n"; return o.str(); }
}
