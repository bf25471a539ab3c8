// A mesh of any polygons or polyhedra, for demonstrations: every answer the framework has to give is looked up in plain lists.
#ifndef POLY_HH
#define POLY_HH
#include <mpi.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "Mesh.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"
#include "GeometricModel.hh"

namespace Jali {
typedef std::vector<int> L;

class Poly : public Mesh {
 public:
  // cells2: node rings in positive order (plane); cells3: for each cell, the node rings of its faces, seen from outside in positive order
  Poly(std::vector<JaliGeometry::Point> const& xyz, std::vector<L> const& cells2, std::vector<std::vector<L>> const& cells3, std::vector<Entity_type> const& types,
       bool e = true, bool s = false, bool w = false, bool c = false, JaliGeometry::GeometricModelPtr gm = NULL) :
      Mesh(true, e, s, w, c), xyz_(xyz), ctype_(types) {
    int dim = cells3.empty() ? 2 : 3;
    set_space_dimension(xyz[0].dim());
    set_manifold_dimension(dim);
    if (gm) set_geometric_model(gm);
    int nc = dim == 2 ? cells2.size() : cells3.size();
    cf_.resize(nc); cd_.resize(nc); cn_.resize(nc); ce_.resize(nc); ced_.resize(nc);
    std::map<std::set<int>, int> fid, eid;
    auto edge = [&](int a, int b) {  // in the plane an edge is its face
      if (dim == 2) return fid[std::set<int>{a, b}];
      std::set<int> k{a, b};
      if (!eid.count(k)) { eid[k] = en_.size(); if (en_.size() % 2) std::swap(a, b); en_.push_back({a, b}); }
      return eid[k];
    };
    for (int i = 0; i < nc; ++i) {
      std::vector<L> rings;
      if (dim == 2) for (size_t k = 0; k < cells2[i].size(); ++k) rings.push_back({cells2[i][k], cells2[i][(k + 1) % cells2[i].size()]});
      else rings = cells3[i];
      std::set<int> ns;
      for (auto r : rings) {
        std::set<int> k(r.begin(), r.end());
        for (int n : r) if (ns.insert(n).second) cn_[i].push_back(n);
        int d = 1;
        if (!fid.count(k)) {
          fid[k] = fn_.size();
          if (fn_.size() % 3 == 1) { std::reverse(r.begin(), r.end()); d = -1; }
          fn_.push_back(r); fc_.push_back({i}); fdir_.push_back({d});
        } else {
          int f = fid[k];
          fc_[f].push_back(i); d = -fdir_[f][0]; fdir_[f].push_back(d);
        }
        cf_[i].push_back(fid[k]); cd_[i].push_back(d);
      }
      if (dim == 2) {
        cn_[i] = cells2[i];
        for (auto const& r : rings) { int k = edge(r[0], r[1]); ce_[i].push_back(k); ced_[i].push_back(fn_[k][0] == r[0] ? 1 : -1); }
      }
    }
    if (dim == 2) en_ = fn_;
    for (size_t f = 0; f < fn_.size(); ++f) {
      L es; std::vector<dir_t> ds;
      if (dim == 2) { int k = edge(fn_[f][0], fn_[f][1]); es.push_back(k); ds.push_back(en_[k][0] == fn_[f][0] ? 1 : -1); }
      else for (size_t k = 0; k < fn_[f].size(); ++k) {
        int a = fn_[f][k], b = fn_[f][(k + 1) % fn_[f].size()], x = edge(a, b);
        es.push_back(x); ds.push_back(en_[x][0] == a ? 1 : -1);
      }
      fe_.push_back(es); fed_.push_back(ds);
    }
    if (dim == 3) for (int i = 0; i < nc; ++i) { std::set<int> s; for (int f : cf_[i]) for (int x : fe_[f]) if (s.insert(x).second) ce_[i].push_back(x); }
    auto put = [](int i, Entity_type t, std::vector<int>& o, std::vector<int>& g, std::vector<int>& b) {
      (t == Entity_type::PARALLEL_OWNED ? o : t == Entity_type::PARALLEL_GHOST ? g : b).push_back(i);
    };
    std::vector<int> nb, eb, fb;
    for (int i = 0; i < nc; ++i) put(i, types[i], cellids_owned_, cellids_ghost_, cellids_boundary_ghost_);
    auto best = [&](std::vector<int> const& cs) {
      for (int c : cs) if (types[c] == Entity_type::PARALLEL_OWNED) return Entity_type::PARALLEL_OWNED;
      return Entity_type::PARALLEL_GHOST;
    };
    for (size_t n = 0; n < xyz.size(); ++n) put(n, best(cells_at(n)), nodeids_owned_, nodeids_ghost_, nb);
    for (size_t f = 0; f < fn_.size(); ++f) put(f, best(fc_[f]), faceids_owned_, faceids_ghost_, fb);
    if (e) for (size_t x = 0; x < en_.size(); ++x) {
      L cs; for (int i = 0; i < nc; ++i) if (std::count(ce_[i].begin(), ce_[i].end(), (int) x)) cs.push_back(i);
      put(x, best(cs), edgeids_owned_, edgeids_ghost_, eb);
    }
    auto all = [](std::vector<int> const& o, std::vector<int> const& g, std::vector<int>& a) { a = o; a.insert(a.end(), g.begin(), g.end()); };
    all(nodeids_owned_, nodeids_ghost_, nodeids_all_); all(edgeids_owned_, edgeids_ghost_, edgeids_all_); all(faceids_owned_, faceids_ghost_, faceids_all_);
    all(cellids_owned_, cellids_ghost_, cellids_all_);
    cellids_all_.insert(cellids_all_.end(), cellids_boundary_ghost_.begin(), cellids_boundary_ghost_.end());
    cache_extra_variables();
  }
  Cell_type cell_get_type(const Entity_ID) const { return Cell_type::CELLTYPE_UNKNOWN; }
  Entity_ID GID(const Entity_ID i, const Entity_kind) const { return i; }
  void cell_get_nodes(const Entity_ID c, Entity_ID_List *n) const { *n = cn_[c]; }
  void face_get_nodes(const Entity_ID f, Entity_ID_List *n) const { *n = fn_[f]; }
  void node_get_cells(const Entity_ID n, const Entity_type t, Entity_ID_List *o) const { o->clear(); for (int c : cells_at(n)) if (is(c, t)) o->push_back(c); }
  void node_get_faces(const Entity_ID n, const Entity_type, Entity_ID_List *o) const { o->clear(); for (size_t f = 0; f < fn_.size(); ++f) if (has(fn_[f], n)) o->push_back(f); }
  void node_get_cell_faces(const Entity_ID n, const Entity_ID c, const Entity_type, Entity_ID_List *o) const { o->clear(); for (int f : cf_[c]) if (has(fn_[f], n)) o->push_back(f); }
  void cell_get_face_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List *o) const { o->clear(); for (int f : cf_[c]) for (int x : fc_[f]) if (x != c && is(x, t)) o->push_back(x); }
  void cell_get_node_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List *o) const {
    std::set<int> s; for (int n : cn_[c]) for (int x : cells_at(n)) if (x != c && is(x, t)) s.insert(x);
    o->assign(s.begin(), s.end());
  }
  void node_get_coordinates(const Entity_ID n, JaliGeometry::Point *p) const { *p = xyz_[n]; }
  void face_get_coordinates(const Entity_ID f, std::vector<JaliGeometry::Point> *o) const { o->clear(); for (int n : fn_[f]) o->push_back(xyz_[n]); }
  void cell_get_coordinates(const Entity_ID c, std::vector<JaliGeometry::Point> *o) const { o->clear(); for (int n : cn_[c]) o->push_back(xyz_[n]); }
  void node_set_coordinates(const Entity_ID n, const JaliGeometry::Point p) { xyz_[n] = p; }
  void node_set_coordinates(const Entity_ID n, const double *p) { for (int i = 0; i < (int) xyz_[n].dim(); ++i) xyz_[n][i] = p[i]; }
  void cell_get_faces_and_dirs_internal(const Entity_ID c, Entity_ID_List *f, std::vector<dir_t> *d, const bool) const { *f = cf_[c]; if (d) *d = cd_[c]; }
  void face_get_cells_internal(const Entity_ID f, const Entity_type t, Entity_ID_List *o) const { o->clear(); for (int c : fc_[f]) if (is(c, t)) o->push_back(c); }
  void face_get_edges_and_dirs_internal(const Entity_ID f, Entity_ID_List *e, std::vector<dir_t> *d, const bool) const { *e = fe_[f]; if (d) *d = fed_[f]; }
  void cell_get_edges_internal(const Entity_ID c, Entity_ID_List *e) const { *e = ce_[c]; }
  void cell_2D_get_edges_and_dirs_internal(const Entity_ID c, Entity_ID_List *e, std::vector<dir_t> *d) const { *e = ce_[c]; if (d) *d = ced_[c]; }
  void edge_get_nodes_internal(const Entity_ID e, Entity_ID *a, Entity_ID *b) const { *a = en_[e][0]; *b = en_[e][1]; }
  void get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr, const Entity_kind, Entity_ID_List *o, Entity_ID_List *g) const { o->clear(); g->clear(); }
  void write_to_exodus_file(const std::string, const bool) const {}
  void write_to_gmv_file(const std::string, const bool) const {}
  void update_ghost_node_coordinates() {}

 private:
  static bool has(L const& l, int x) { return std::count(l.begin(), l.end(), x) > 0; }
  bool is(int c, Entity_type t) const { return t == Entity_type::ALL || ctype_[c] == t; }
  L cells_at(int n) const { L o; for (size_t c = 0; c < cn_.size(); ++c) if (has(cn_[c], n)) o.push_back(c); return o; }
  std::vector<JaliGeometry::Point> xyz_;
  std::vector<Entity_type> ctype_;
  std::vector<L> fn_, fc_, fe_, cf_, cn_, ce_, en_;
  std::vector<std::vector<int>> fdir_;
  std::vector<std::vector<dir_t>> cd_, ced_, fed_;
};

typedef JaliGeometry::Point P;
const Entity_type OWN = Entity_type::PARALLEL_OWNED, GHO = Entity_type::PARALLEL_GHOST, ANY = Entity_type::ALL;

// a square, a triangle and a pentagon in the plane
inline std::vector<P> flat() { return {P(0., 0.), P(2., 0.), P(2., 2.), P(0., 2.), P(4., 1.), P(4., 3.), P(3., 4.), P(3., 0.)}; }
inline std::vector<L> flat_cells() { return {{0, 1, 2, 3}, {1, 4, 2}, {2, 4, 5, 6}}; }

// a unit cube with a pyramid on top, and a prism beside it
inline std::vector<P> solid() {
  return {P(0., 0., 0.), P(1., 0., 0.), P(1., 1., 0.), P(0., 1., 0.), P(0., 0., 1.), P(1., 0., 1.), P(1., 1., 1.), P(0., 1., 1.), P(.5, .5, 2.), P(2., 0., 0.), P(2., 0., 1.)};
}
inline std::vector<std::vector<L>> solid_cells() {
  return {{{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}},
          {{7, 6, 5, 4}, {4, 5, 8}, {5, 6, 8}, {6, 7, 8}, {7, 4, 8}},
          {{5, 6, 2, 1}, {1, 2, 9}, {5, 10, 6}, {1, 9, 10, 5}, {9, 2, 6, 10}}};
}
}
#endif
