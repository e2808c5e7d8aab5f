// The classes that iterate over cells take an AMRmesh and a ConfigMap. In the contracts these two names stand for the
// stand-ins below (their contracts: the accessors return the numbers and the search structure the contract chose);
// everything else - iteration, indexing, kernels - is the code of /repo.
#pragma once
#include "mesh_map.h"
#include "kokkos_shared.h"
#include "amr/AMRmesh.h"
#include "amr/LightOctree.h"
#include "utils/config/ConfigMap.h"
#include "utils/monitoring/Timers.h"
#include "FieldManager.h"
#include "mpi/ViewCommunicator.h"
namespace dyablo {
// one process: the reduction over processes is the value itself
struct VcComm : MpiComm { VcComm(const MpiComm& c) : MpiComm(c) {} static const VcComm& self() { alignas(16) static char raw[sizeof(MpiComm)]; VcComm* c = (VcComm*)raw; c->mpi_comm_rank = 0; c->mpi_comm_size = 1; return *c; } template <class T> void MPI_Allreduce(const T* a, T* b, int n, MpiComm::MPI_Op_t) const { for (int i = 0; i < n; i++) b[i] = a[i]; } };
struct VcMesh { using Impl_t = int;
  uint32_t dim = 3, no = 1, ng = 0; bool per[3] = {true, true, true}; int lmin = 0, lmax = 0; Kokkos::Array<uint32_t, 3> cg{1, 1, 1}; LightOctree lm;
  uint8_t getDim() const { return dim; }
  uint32_t getNumOctants() const { return no; }
  uint32_t getNumGhosts() const { return ng; }
  uint64_t getGlobalNumOctants() const { return no; }
  bool getPeriodic(uint8_t i) const { return per[i / 2]; }
  int get_level_min() const { return lmin; } int get_level_max() const { return lmax; }
  Kokkos::Array<uint32_t, 3> get_coarse_grid_size() const { return cg; }
  int getRank() const { return 0; } int getNproc() const { return 1; }
  const LightOctree& getLightOctree() const { return lm; }
  const VcComm& getMpiComm() const { return VcComm::self(); } const VcMesh& getMesh() const { return *this; }
  template <class A, class B> void loadBalance_userdata(A, B&) {}
  Kokkos::View<int*> markers;
  void setMarkers(const Kokkos::View<int*>& m) { markers = m; }
};
}
namespace dyablo {
// configuration: the values a contract has set, otherwise the default in the code
struct VcConfig {
  struct E { const char* s; const char* n; double r; int64_t i; const char* t; };
  E e[40]; int ne = 0;
  static bool eq(const char* a, const char* b) { for (int i = 0;; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } }
  void set(const char* s, const char* n, double r) { e[ne++] = {s, n, r, 0, ""}; }
  void seti(const char* s, const char* n, int64_t i) { e[ne++] = {s, n, 0, i, ""}; }
  void sets(const char* s, const char* n, const char* t) { e[ne++] = {s, n, 0, 0, t}; }
  template <class T> T getValue(const char* s, const char* n) {
    for (int k = 0; k < ne; k++) if (eq(e[k].s, s) && eq(e[k].n, n)) {
      if constexpr (std::is_floating_point_v<T>) return (T)e[k].r;
      else if constexpr (std::is_same_v<T, std::string>) return std::string(e[k].t);
      else return (T)e[k].i;
    }
    __vc_abort("configuration value without default is not set");
  }
  template <class T, class D> T getValue(const char* s, const char* n, const D& d) {
    for (int k = 0; k < ne; k++) if (eq(e[k].s, s) && eq(e[k].n, n)) return getValue<T>(s, n);
    return T(d);
  }
  bool hasValue(const char* s, const char* n) { for (int k = 0; k < ne; k++) if (eq(e[k].s, s) && eq(e[k].n, n)) return true; return false; }
};
}
#define AMRmesh VcMesh
#define ConfigMap VcConfig
#include "foreach_cell/ForeachCell.h"
#include "foreach_cell/ForeachCell_utils.h"
