// Boundaries in the euler update.
//@ file define=VC_STRINGS
#include "boundary_box.h"
#include "hydro/HydroUpdate_euler.cpp"
//@ user_fluxes_euler seq=200 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(user_fluxes_euler) { user_fluxes<HydroUpdate_euler>(); }
