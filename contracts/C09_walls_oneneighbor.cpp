// Boundaries in the hancock_oneneighbor update.
//@ file define=VC_STRINGS
#include "boundary_box.h"
#include "hydro/HydroUpdate_hancock_oneneighbor.cpp"
//@ walls_oneneighbor seq=200 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(walls_oneneighbor) { walls<HydroUpdate_hancock_oneneighbor>(false); }
//@ channel_oneneighbor seq=200 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(channel_oneneighbor) { walls<HydroUpdate_hancock_oneneighbor>(true); }
//@ user_fluxes_oneneighbor seq=200 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(user_fluxes_oneneighbor) { user_fluxes<HydroUpdate_hancock_oneneighbor>(); }
//@ user_below_oneneighbor seq=200 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(user_below_oneneighbor) { user_side<HydroUpdate_hancock_oneneighbor>(0); }
//@ user_above_oneneighbor seq=200 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(user_above_oneneighbor) { user_side<HydroUpdate_hancock_oneneighbor>(1); }
