// Stand-in for the LANL ELEMENTS library's swage::Mesh (absent from the checkout), written for /verif.
// It follows the connectivity conventions of the ancestor kept in the repository
// (legacy/.../SGH_Solver/include/mesh.h) for patch numbering and the, patch numbering, and the
// order of boundary nodes; 3D element corners are in tensor (i fastest) order, as the multiphysics sources assume.  Plain serial C++; it is environment, never the subject of a check.
#ifndef VERIF_ELEMENTS_H
#define VERIF_ELEMENTS_H
#include "matar.h"
#ifndef PI
#define PI 3.141592653589793
#endif
namespace swage {
using namespace mtr;
struct Mesh {
    size_t num_dims = 0, num_nodes = 0, num_elems = 0, num_corners = 0, num_nodes_in_elem = 0, num_patches_in_elem = 0, num_surfs_in_elem = 0;
    size_t num_zones_in_elem = 1, num_gauss_in_elem = 1, num_lob_gauss_in_elem = 1, num_leg_gauss_in_elem = 1;
    size_t num_patches = 0, num_bdy_patches = 0, num_bdy_nodes = 0, num_bdy_sets = 0, num_nodes_in_patch = 0, num_surfs = 0;
    size_t num_owned_nodes = 0, num_owned_elems = 0, Pn = 1; int elem_kind = 0;
    RaggedRightArrayKokkos<size_t> corners_in_node; CArrayKokkos<size_t> num_corners_in_node;
    RaggedRightArrayKokkos<size_t> elems_in_node; RaggedRightArrayKokkos<size_t> nodes_in_node; CArrayKokkos<size_t> num_nodes_in_node;
    DCArrayKokkos<size_t> nodes_in_elem; CArrayKokkos<size_t> corners_in_elem;
    RaggedRightArrayKokkos<size_t> elems_in_elem; CArrayKokkos<size_t> num_elems_in_elem;
    CArrayKokkos<size_t> patches_in_elem, nodes_in_patch, elems_in_patch, bdy_patches, bdy_nodes;
    RaggedRightArrayKokkos<size_t> bdy_patches_in_set; DCArrayKokkos<size_t> num_bdy_patches_in_set;
    RaggedRightArrayKokkos<size_t> bdy_nodes_in_set; DCArrayKokkos<size_t> num_bdy_nodes_in_set;
    struct gauss_in_elem_t { size_t n = 1; size_t operator()(size_t e, size_t l) const { return e * n + l; } } gauss_in_elem, zones_in_elem;

    void initialize_nodes(size_t n) { num_nodes = n; num_owned_nodes = n; }
    void initialize_elems(size_t n, size_t dims) {
        num_dims = dims; num_nodes_in_elem = dims == 3 ? 8 : 4; num_elems = n; num_owned_elems = n;
        nodes_in_elem = DCArrayKokkos<size_t>(num_elems, num_nodes_in_elem, "mesh.nodes_in_elem");
        corners_in_elem = CArrayKokkos<size_t>(num_elems, num_nodes_in_elem, "mesh.corners_in_elem");
    }
    void initialize_corners(size_t n) { num_corners = n; }
    void build_corner_connectivity() {
        num_corners_in_node = CArrayKokkos<size_t>(num_nodes, "mesh.num_corners_in_node");
        for (size_t e = 0; e < num_elems; e++) for (size_t l = 0; l < num_nodes_in_elem; l++) num_corners_in_node(nodes_in_elem(e, l))++;
        corners_in_node = RaggedRightArrayKokkos<size_t>(num_corners_in_node, "mesh.corners_in_node");
        elems_in_node = RaggedRightArrayKokkos<size_t>(num_corners_in_node, "mesh.elems_in_node");
        std::vector<size_t> c(num_nodes, 0);
        for (size_t e = 0; e < num_elems; e++) for (size_t l = 0; l < num_nodes_in_elem; l++) {
            size_t g = nodes_in_elem(e, l); corners_in_node(g, c[g]) = l + e * num_nodes_in_elem; elems_in_node(g, c[g]) = e;
            corners_in_elem(e, l) = l + e * num_nodes_in_elem; c[g]++;
        }
    }
    void build_elem_elem_connectivity() {
        std::vector<std::vector<size_t>> nb(num_elems);
        for (size_t e = 0; e < num_elems; e++) for (size_t l = 0; l < num_nodes_in_elem; l++) { size_t g = nodes_in_elem(e, l);
            for (size_t k = 0; k < num_corners_in_node(g); k++) { size_t o = elems_in_node(g, k); if (o != e && std::find(nb[e].begin(), nb[e].end(), o) == nb[e].end()) nb[e].push_back(o); } }
        num_elems_in_elem = CArrayKokkos<size_t>(num_elems, "mesh.num_elems_in_elem");
        for (size_t e = 0; e < num_elems; e++) num_elems_in_elem(e) = nb[e].size();
        elems_in_elem = RaggedRightArrayKokkos<size_t>(num_elems_in_elem, "mesh.elems_in_elem");
        for (size_t e = 0; e < num_elems; e++) for (size_t k = 0; k < nb[e].size(); k++) elems_in_elem(e, k) = nb[e][k];
    }
    void build_patch_connectivity() {
        static const size_t p3[24] = {0,4,6,2, 1,3,7,5, 0,1,5,4, 3,2,6,7, 0,2,3,1, 4,5,7,6};
        static const size_t p2[8] = {0,3, 1,2, 0,1, 3,2};
        num_nodes_in_patch = 2 * (num_dims - 1); num_patches_in_elem = 2 * num_dims; num_surfs_in_elem = num_patches_in_elem;
        const size_t* ord = num_dims == 3 ? p3 : p2;
        auto key = [&](size_t e, size_t p) { std::vector<size_t> k; for (size_t q = 0; q < num_nodes_in_patch; q++) k.push_back(nodes_in_elem(e, ord[p * num_nodes_in_patch + q])); std::sort(k.begin(), k.end()); return k; };
        patches_in_elem = CArrayKokkos<size_t>(num_elems, num_patches_in_elem, "mesh.patches_in_elem");
        std::vector<std::vector<std::vector<size_t>>> keys(num_elems);
        for (size_t e = 0; e < num_elems; e++) for (size_t p = 0; p < num_patches_in_elem; p++) keys[e].push_back(key(e, p));
        std::vector<std::vector<char>> done(num_elems, std::vector<char>(num_patches_in_elem, 0));
        std::vector<std::pair<size_t,size_t>> el; std::vector<size_t> owner_p, bdy; size_t gid = 0;
        for (size_t e = 0; e < num_elems; e++) {
            for (size_t p = 0; p < num_patches_in_elem; p++) if (!done[e][p]) {
                bool ex = false;
                for (size_t k = 0; k < num_elems_in_elem(e) && !ex; k++) { size_t o = elems_in_elem(e, k);
                    for (size_t q = 0; q < num_patches_in_elem; q++) if (!done[o][q] && keys[o][q] == keys[e][p]) {
                        done[e][p] = done[o][q] = 1; patches_in_elem(e, p) = gid; patches_in_elem(o, q) = gid; el.push_back({e, o}); owner_p.push_back(p); gid++; ex = true; break; } }
            }
            for (size_t p = 0; p < num_patches_in_elem; p++) if (!done[e][p]) { done[e][p] = 1; patches_in_elem(e, p) = gid; el.push_back({e, e}); owner_p.push_back(p); bdy.push_back(gid); gid++; }
        }
        num_patches = num_surfs = gid; num_bdy_patches = bdy.size();
        elems_in_patch = CArrayKokkos<size_t>(num_patches, 2, "mesh.elems_in_patch"); nodes_in_patch = CArrayKokkos<size_t>(num_patches, num_nodes_in_patch, "mesh.nodes_in_patch");
        for (size_t g = 0; g < gid; g++) { elems_in_patch(g, 0) = el[g].first; elems_in_patch(g, 1) = el[g].second;
            for (size_t q = 0; q < num_nodes_in_patch; q++) nodes_in_patch(g, q) = nodes_in_elem(el[g].first, ord[owner_p[g] * num_nodes_in_patch + q]); }
        bdy_patches = CArrayKokkos<size_t>(num_bdy_patches, "mesh.bdy_patches");
        std::vector<char> seen(num_nodes, 0); std::vector<size_t> bn;
        for (size_t b = 0; b < num_bdy_patches; b++) { bdy_patches(b) = bdy[b]; for (size_t q = 0; q < num_nodes_in_patch; q++) { size_t g = nodes_in_patch(bdy[b], q); if (!seen[g]) { seen[g] = 1; bn.push_back(g); } } }
        num_bdy_nodes = bn.size(); bdy_nodes = CArrayKokkos<size_t>(num_bdy_nodes, "mesh.bdy_nodes"); for (size_t i = 0; i < num_bdy_nodes; i++) bdy_nodes(i) = bn[i];
    }
    void build_node_node_connectivity() {
        static const int e3[12][2] = {{0,1},{1,3},{3,2},{2,0},{4,5},{5,7},{7,6},{6,4},{0,4},{1,5},{2,6},{3,7}}; static const int e2[4][2] = {{0,1},{1,2},{2,3},{3,0}};
        std::vector<std::vector<size_t>> nb(num_nodes); auto add = [&](size_t a, size_t b) { if (std::find(nb[a].begin(), nb[a].end(), b) == nb[a].end()) nb[a].push_back(b); };
        for (size_t e = 0; e < num_elems; e++) for (int k = 0; k < (num_dims == 3 ? 12 : 4); k++) { const int* d = num_dims == 3 ? e3[k] : e2[k]; size_t a = nodes_in_elem(e, d[0]), b = nodes_in_elem(e, d[1]); add(a, b); add(b, a); }
        num_nodes_in_node = CArrayKokkos<size_t>(num_nodes, "mesh.num_nodes_in_node"); for (size_t i = 0; i < num_nodes; i++) num_nodes_in_node(i) = nb[i].size();
        nodes_in_node = RaggedRightArrayKokkos<size_t>(num_nodes_in_node, "mesh.nodes_in_node"); for (size_t i = 0; i < num_nodes; i++) for (size_t k = 0; k < nb[i].size(); k++) nodes_in_node(i, k) = nb[i][k];
    }
    void build_connectivity() {
#ifdef MCSHIM_SEPARATE
        // connectivity is built on the device copy, exactly as the real library does
#endif
        build_corner_connectivity(); build_elem_elem_connectivity(); build_patch_connectivity(); build_node_node_connectivity();
    }
    void init_bdy_sets(size_t n) {
        if (n == 0) return;
        num_bdy_sets = n;
        num_bdy_patches_in_set = DCArrayKokkos<size_t>(n, "mesh.num_bdy_patches_in_set");
    }
};
}
#endif
