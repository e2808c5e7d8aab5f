// MUSCL-Hancock update cell by cell.
//@ file define=VC_STRINGS
#include "hydro_box.h"
namespace dyablo { struct VcGhosts { template <class M, class S> VcGhosts(const M&, const S&, int) {} template <class A> void exchange_ghosts(const A&) const {} }; }   // one process: no ghosts
#include "mpi/GhostCommunicator.h"
#define GhostCommunicator VcGhosts
#include "hydro/HydroUpdate_hancock_oneneighbor.cpp"
//@ oneneighbor_hydro_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(oneneighbor_hydro_2d) { whole<HydroUpdate_hancock_oneneighbor, HydroState, 2, ONE, 1>(4, 4, 1, NONE); }
//@ oneneighbor_gravity_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(oneneighbor_gravity_2d) { whole<HydroUpdate_hancock_oneneighbor, HydroState, 2, ONE, 1>(4, 4, 1, FIELD); }
//@ oneneighbor_hydro_3d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(oneneighbor_hydro_3d) { whole<HydroUpdate_hancock_oneneighbor, HydroState, 3, ONE, 1>(2, 2, 2, CONSTANT); }
