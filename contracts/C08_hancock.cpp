// MUSCL-Hancock update of a whole block.
//@ file define=VC_STRINGS
#include "hydro_box.h"
#include "hydro/HydroUpdate_hancock.cpp"
template <class S> using Up = HydroUpdate_hancock<S>;
//@ hancock_hydro_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(hancock_hydro_2d) { whole<HydroUpdate_hancock, HydroState, 2, HANCOCK, 1>(4, 4, 1, NONE); }
//@ hancock_gravity_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(hancock_gravity_2d) { whole<HydroUpdate_hancock, HydroState, 2, HANCOCK, 1>(4, 4, 1, CONSTANT); }
//@ hancock_gravity_field_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(hancock_gravity_field_2d) { whole<HydroUpdate_hancock, HydroState, 2, HANCOCK, 1>(4, 4, 1, FIELD); }
//@ hancock_mhd_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(hancock_mhd_2d) { whole<HydroUpdate_hancock, MHDState, 2, HANCOCK, 1>(4, 4, 1, NONE); }
//@ hancock_hydro_3d seq=600 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(hancock_hydro_3d) { whole<HydroUpdate_hancock, HydroState, 3, HANCOCK, 1>(4, 4, 4, CONSTANT); }
