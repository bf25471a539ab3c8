// Instantiates every public member of the state vector templates and the
// member templates of State.  Only parsed, never run.
#include <array>
#include <memory>
#include <string>
#include "Mesh.hh"
#include "MeshTile.hh"
#include "MeshSet.hh"
#include "JaliStateVector.h"
#include "JaliState.h"

namespace Jali {
template class UniStateVectorBase<Mesh>;
template class UniStateVectorBase<MeshTile>;
template class UniStateVectorBase<MeshSet>;
template class UniStateVector<double, Mesh>;
template class UniStateVector<int, Mesh>;
template class UniStateVector<double, MeshTile>;
template class UniStateVector<int, MeshSet>;
template class MultiStateVectorBase<Mesh>;
template class MultiStateVectorBase<MeshTile>;
template class MultiStateVector<double, Mesh>;
template class MultiStateVector<int, MeshTile>;
}

using namespace Jali;

template <class T, class D, template <class, class> class V>
void lookup(State& s, State const& cs, std::shared_ptr<D> d, V<T, D>& v,
            std::shared_ptr<V<T, D>>& p, std::shared_ptr<V<T, D> const>& cp) {
  s.get("x", d, Entity_kind::CELL, Entity_type::ALL, &v);
  cs.get("x", d, Entity_kind::CELL, Entity_type::ALL, &v);
  s.get("x", d, Entity_kind::CELL, Entity_type::ALL, &p);
  cs.get("x", d, Entity_kind::CELL, Entity_type::ALL, &cp);
  s.get("x", d, &p);
  cs.get("x", d, &cp);
  s.find("x", d);
  cs.find("x", d);
  s.find<T, D, V>("x", d);
  cs.find<T, D, V>("x", d);
}

template <class T, class D>
void kinds(State& s, State const& cs, std::shared_ptr<D> d) {
  s.find<D, StateVector_type::UNIVAL>("x", d);
  cs.find<D, StateVector_type::UNIVAL>("x", d);
  s.find<D, StateVector_type::MULTIVAL>("x", d);
  cs.find<D, StateVector_type::MULTIVAL>("x", d);
  s.find<T, D, StateVector_type::UNIVAL>("x", d);
  cs.find<T, D, StateVector_type::UNIVAL>("x", d);
  s.find<T, D, StateVector_type::MULTIVAL>("x", d);
  cs.find<T, D, StateVector_type::MULTIVAL>("x", d);
}

template <class T, class D, template <class, class> class V>
void addone(State& s, std::shared_ptr<D> d, T const& val) {
  s.add<T, D, V>("x", d, Entity_kind::CELL, Entity_type::ALL);
  s.add<T, D, V>("x", d, Entity_kind::CELL, Entity_type::ALL, val);
}

void witness(State& s, State const& cs, std::shared_ptr<Mesh> m,
             std::shared_ptr<MeshTile> t, std::shared_ptr<MeshSet> ms) {
  UniStateVector<double, Mesh> um;
  UniStateVector<double, MeshTile> ut;
  UniStateVector<int, MeshSet> us;
  MultiStateVector<double, Mesh> mm;
  MultiStateVector<int, MeshTile> mt;
  std::shared_ptr<UniStateVector<double, Mesh>> pum;
  std::shared_ptr<UniStateVector<double, Mesh> const> cpum;
  std::shared_ptr<UniStateVector<double, MeshTile>> put;
  std::shared_ptr<UniStateVector<double, MeshTile> const> cput;
  std::shared_ptr<UniStateVector<int, MeshSet>> pus;
  std::shared_ptr<UniStateVector<int, MeshSet> const> cpus;
  std::shared_ptr<MultiStateVector<double, Mesh>> pmm;
  std::shared_ptr<MultiStateVector<double, Mesh> const> cpmm;
  std::shared_ptr<MultiStateVector<int, MeshTile>> pmt;
  std::shared_ptr<MultiStateVector<int, MeshTile> const> cpmt;
  lookup<double, Mesh, UniStateVector>(s, cs, m, um, pum, cpum);
  lookup<double, MeshTile, UniStateVector>(s, cs, t, ut, put, cput);
  lookup<double, Mesh, MultiStateVector>(s, cs, m, mm, pmm, cpmm);
  lookup<int, MeshTile, MultiStateVector>(s, cs, t, mt, pmt, cpmt);
  kinds<double, Mesh>(s, cs, m);
  kinds<int, MeshTile>(s, cs, t);
  s.get("x", &um);
  cs.get("x", &um);
  addone<double, Mesh, UniStateVector>(s, m, 1.0);
  addone<double, MeshTile, UniStateVector>(s, t, 1.0);
  addone<double, Mesh, MultiStateVector>(s, m, 1.0);
  addone<int, MeshTile, MultiStateVector>(s, t, 1);
  double const *dp = nullptr;
  double const * const *dpp = nullptr;
  s.add<double, Mesh>("x", m, Entity_kind::CELL, Entity_type::ALL, dp);
  s.add<double, MeshTile>("x", t, Entity_kind::CELL, Entity_type::ALL, dp);
  s.add<double, Mesh>("x", m, Entity_kind::CELL, Entity_type::ALL,
                      Data_layout::CELL_CENTRIC, dpp);
  s.add(um);
  us = us;
}
