REALS = " Assumes exact real arithmetic for floating-point values, the Kokkos contracts of contracts/shim and the clang front end; every callee contract and assumption is listed in the evidence."
prop("C01", "Morton keys are a bijection that respects refinement",
 "Encoding integer cell coordinates as a space-filling-curve key and decoding the key gives the same coordinates back, in two and three dimensions, for every coordinate of the supported range. Distinct cells get distinct keys, the key is exactly the interleaving of the coordinate bits, and the key of a child cell is its parent's key followed by the child's position.",
 ["inputs"], "all coordinates of the supported range (21 bits per axis in 3D, 32 in 2D) and all 64-bit keys",
 "tests sample a few keys; the masks and shifts only fail for particular coordinate bits, typically high ones no small test mesh reaches",
 ["core/src/morton_utils.h"],
 [("bit spreading and compaction", "core/src/morton_utils.h: splitBy3, splitBy2, compactBits"), ("key computation", "core/src/morton_utils.h: compute_morton_key, morton_extract_bits"), ],
 note="All obligations are bit-vector facts proved for every input." )
prop("C02", "Octant geometry is exact and consistent with the stored position",
 "For any octant of any forest, local or ghost, at any level, the size, corner and centre follow from its level and logical position, octants of one level tile the unit domain without gap or overlap, and it touches the domain boundary exactly when its position says so. Storing one octant changes no other, and flat and split octant numbers convert into each other without loss.",
 ["inputs", "configurations"], "all coarse grid extents, levels, positions, dimensions, local and ghost numbering",
 "tests use cubic power-of-two coarse grids and a handful of levels; rectangular grids, 2D edge cases and the ghost range are not reached",
 ["core/src/amr/LightOctree_storage.h", "core/src/amr/LightOctree_base.h", "core/src/amr/LightOctree_hashmap.h"],
 [("octant storage and geometry", "LightOctree_storage: getSize, getCorner, getCenter, getBound, cell_count, set"), ("octant numbering", "LightOctree_base::OctantIndex")],
 note="Proved for every input under real arithmetic." + REALS)
prop("C03", "Neighbour search and point location return exactly the right leaves",
 "From any octant, in any of the adjacent directions, the neighbour search returns the same-level leaf, the coarser leaf or all the finer leaves that touch it, wrapping around periodic directions, and nothing across a non-periodic boundary. Looking up a position or a logical coordinate returns the leaf that covers it, and the process found for a position owns the part of the space-filling curve that contains it.",
 ["inputs", "configurations"], "all octants, offsets, levels, coarse grid extents and periodicity flags; every 2:1 balanced neighbourhood",
 "the neighbourhood depends on level difference, direction, parity, wrap-around and grid extents; tests walk a few fixed meshes",
 ["core/src/amr/LightOctree_hashmap.h", "core/src/amr/LightOctree_storage.h"],
 [("neighbour search", "LightOctree_hashmap::findNeighbors, isBoundary"), ("lookup table construction", "LightOctree_hashmap::private_init"), ("point location", "LightOctree_hashmap::getiOctFromPos, getiOctFromCoordinates, getDomainFromPos")],
 state=[("leaf table", "maps (level, logical position) to the octant that is a leaf there")],
 note="Proved for every octant and direction over an abstract leaf table; the process lookup is bounded to at most 4 processes." + REALS)
prop("C04", "Loops over cells visit every cell once and cell storage is never shared",
 "Iterating or reducing over the cells of a mesh, of its ghosts or of a group of octants runs the kernel exactly once for every cell, with an index inside the block, whatever the block shape, group size and number of octants. Distinct cells or fields never share storage in an array. Converting an index between arrays with different ghost widths keeps the cell, and the position and size of a cell place the cells of a level on a regular grid over the physical domain; finding the cell at a position gives the cell that contains it.",
 ["inputs", "configurations"], "all block shapes, octant counts, group sizes, ghost widths, fields and positions; every cell",
 "tests use one or two block shapes with meshes that divide evenly into groups; an off-by-one for other shapes or the last partial group is never exercised",
 ["core/src/foreach_cell/AMRBlockForeachCell.h", "core/src/foreach_cell/AMRBlockForeachCell_group.h", "core/src/foreach_cell/AMRBlockForeachCell_CellArray.h", "core/src/foreach_cell/ForeachCell.h"],
 [("cell loops", "AMRBlockForeachCell_group: foreach_cell, foreach_ghost_cell, foreach_patch, reduce_cell"), ("cell arrays", "AMRBlockForeachCell_CellArray: at, at_ivar, convert_index, convert_index_ghost"), ("cell geometry", "CellMetaData: getCellSize, getCellCenter, getCellFromPos")],
 note="Loops proved for every shape and count; cell storage with enumerated block shapes; groups bounded to 12 per mesh." + REALS)
prop("C05", "Neighbour cells across block boundaries are the geometrically adjacent cells",
 "Moving from a cell by an offset, inside its block or across its edge, leads to the cell that covers the position reached: the cell at that place when the neighbour octant has the same size, the coarser cell covering it, or the finer cell next to the starting cell; beyond a non-periodic edge it gives a boundary cell from which the nearest inside cell and the remaining offset are recovered. The loops over sibling or facing finer cells visit each of them exactly once.",
 ["inputs", "configurations"], "all cells, offsets up to half a block, octant levels, parities, periodicity and neighbour sizes",
 "the result depends on block parity, level difference, direction and wrap-around together; tests sample a few combinations on fixed meshes",
 ["core/src/foreach_cell/AMRBlockForeachCell_CellArray.h", "core/src/foreach_cell/ForeachCell_utils.h"],
 [("neighbour cells", "CellIndex::getNeighbor, getNeighbor_ghost, getBoundaryPosAndOffset"), ("ghost index conversion", "CellArray_shape_ghosted::convert_index_ghost, convert_index_getNeighbor"), ("sibling loops", "foreach_sibling, foreach_smaller_neighbor")],
 note="Proved for every octant position, level, domain size and offset with enumerated block shapes (even, odd, one-cell and flat), over the contracts of the octree search (C03)." + REALS)
prop("C06", "Conserved and primitive states convert into each other without loss",
 "For hydrodynamics, MHD and GLM-MHD, in two and three dimensions, the conserved state of a primitive state has momentum equal to density times velocity and total energy equal to internal plus kinetic plus magnetic energy, and converting there and back changes nothing. Exchanging two axes permutes the vector components and commutes with the conversion. A state written to a cell is read back from it unchanged and no other cell changes. State arithmetic acts on every variable, and the floored conversion respects its floors and is the plain one where no floor is active.",
 ["inputs"], "all states with positive density, all adiabatic indices above one, all three axes, all cells",
 "tests run standard problems with few distinct states; a wrong component for one axis or one physics in one dimension is averaged away or never reached",
 ["core/src/states", "core/src/utils_hydro.h", "core/src/UserData.h"],
 [("conversions", "State_hydro.h, State_MHD.h, State_GLMMHD.h: consToPrim, primToCons, swapComponents"), ("storage", "states/State_ops.h, utils_hydro.h: get/setConservativeState, get/setPrimitiveState, computePrimitives")],
 note="Proved for every state; cell storage with one block shape." + REALS)
prop("C07", "Riemann solvers are consistent, symmetric and conservative",
 "The flux of each Riemann solver between two equal states is the exact physical flux of that state. Mirroring the two states mirrors the flux, so no direction is preferred. When all waves move one way the flux is the exact flux of the upwind side, isolated contact discontinuities at rest are kept exactly, and across every wave of the solution the jump conditions of the conservation law hold, with density, momentum, energy and magnetic field fluxes built from the same star states. The GLM solver adds its divergence cleaning terms to the flux of the underlying solver and changes nothing else.",
 ["inputs"], "all pairs of admissible left and right states, adiabatic indices and wave orderings",
 "the wave ordering chosen depends on the states; shock tube tests reach only some branches and compare with tolerances that hide a wrong but similar flux",
 ["core/src/RiemannSolvers.h"],
 [("hydro solvers", "RiemannSolvers.h: riemann_hllc"), ("MHD solvers", "RiemannSolvers.h: riemann_hlld, riemann_five_waves, riemann_glm")],
 note="Proved for every pair of states apart from exact ties of wave speeds." + REALS)

prop("C08", "The finite volume updates are conservative and exact on linear data",
 "A step of the Euler, Runge-Kutta and both MUSCL-Hancock updates changes every cell by exactly the difference of the fluxes through its faces, so the total of every conserved variable over a periodic domain is unchanged, also between cells of different size, where the coarse face receives the mean of the fluxes of the finer faces computed from the same states. The states on a face are the linear reconstruction of the cells on its two sides with the smallest of the one-sided slopes, zero at extrema, so linear data are reconstructed exactly whatever the sizes of the neighbours. Gravity changes momentum by the density times the acceleration and the energy consistently with it, and the floors applied afterwards change only cells with negative density or pressure.",
 ["inputs", "configurations"], "all states, time steps, cell sizes, gravity fields and combinations of neighbour sizes",
 "regression tests compare norms on uniform or smooth problems; an error next to one kind of level jump, in one direction or one variable stays below their tolerances",
 ["core/src/hydro"],
 [("fluxes", "hydro/HydroUpdate_utils.h: compute_slope, reconstruct_state, compute_source, euler_update"), ("updates", "HydroUpdate_euler, HydroUpdate_RK2, HydroUpdate_hancock, HydroUpdate_hancock_oneneighbor"), ("floors", "clean_negative_primitive_values")],
 note="Face formulas proved for every state and neighbour size, the solver taken as any function of its arguments (C07); whole steps bounded to one periodic block of 4x4 (4x4x4, 2x2x2 in 3D) cells." + REALS)
prop("C09", "Ghost cells hold the neighbours' values or obey the boundary conditions",
 "When a block is prepared for an update, every cell of the two rows around it receives the value of the neighbour there: a copy when the neighbour has the same size or is coarser, the mean of all the finer cells that cover it when it is finer, for every variable of the state, across periodic edges too. A cell beyond an edge of the domain is the mirror image of the inside cell; the velocity through the boundary changes sign exactly where the boundary type configured for that side is reflecting, and a user-defined type receives the user's state. Updates that let the user override boundary fluxes apply the override of the side crossed to exactly the faces of that side. A reflecting wall lets no mass or energy through and leaves the momentum along it alone.",
 ["inputs", "configurations"], "all states, boundary types of the six sides, positions in the parent octant and combinations of neighbour sizes",
 "tests use the same type on all sides and check the flow far from corners and level jumps; a swapped side or a wrong mean near one kind of neighbour goes unnoticed",
 ["core/src/hydro/CopyGhostBlockCellData.h", "core/src/boundary_conditions", "core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp", "core/src/hydro/HydroUpdate_euler.cpp"],
 [("ghost filling", "hydro/CopyGhostBlockCellData.h: copyGhostBlockCellData"), ("boundary conditions", "boundary_conditions/BoundaryConditions.h: getBoundaryValue, overrideBoundaryFlux")],
 note="Bounded: blocks of 4x4 and 4x4x4 cells and enumerated arrangements of neighbours; all cell values and boundary types arbitrary." + REALS)
prop("C10", "Adapting the mesh keeps the field data and their totals",
 "After the mesh has been refined and coarsened, every field has one value for every cell of the new mesh: the value of the old cell that was there when the octant is unchanged, a copy of the coarser cell that covered it when the octant was refined, the mean of all the finer cells it replaces when the octant was coarsened, for any block shape and any position of the octant in its parent. The total of every field over the domain, weighted with cell volumes, does not change.",
 ["inputs", "histories"], "all field values, pairs of meshes whose levels differ by at most one, block shapes including odd ones",
 "adaptation tests look at octant counts or smooth solutions; a cell taken from the wrong sibling or half of a block is invisible when neighbouring values are similar",
 ["core/src/amr/MapUserData_mean.cpp", "core/src/amr/CellIndexRemapper.h"],
 [("cell mapping", "core/src/amr/CellIndexRemapper.h: get_old_cell"), ("remapping", "core/src/amr/MapUserData_mean.cpp: remap, remap_aux")],
 note="Bounded: enumerated pairs of meshes and block shapes, one process; all field values arbitrary." + REALS)
prop("C11", "The time step respects the stability limit of every cell",
 "The time step chosen is positive and so small that in every cell of every level and in every direction no hydrodynamic or magnetic signal crosses more than the configured CFL fraction of the cell and no explicit diffusion term exceeds its limit for the cell width; and it is the largest step with this property, so no cell is more restrictive than the formula says. Only the terms that are enabled count.",
 ["inputs", "configurations"], "all states, cell sizes, diffusion coefficients and CFL factors",
 "a slightly too large step in one direction or on one level only shows as a late instability; runs in tests are short and isotropic",
 ["core/src/compute_dt"],
 [("hydro", "Compute_dt_hydro::compute_dt_aux"), ("diffusion", "Compute_dt_parabolic::compute_dt_aux")],
 note="Bounded: meshes of two octants of different levels, one process; all values arbitrary." + REALS)
prop("C12", "Particles deposit all their mass and move with the field at their place",
 "Depositing particles on the mesh adds exactly their total mass to the density, whatever the sizes of the cells around them, gives the cell a particle is in its share and only reads the gas density. The velocity of a particle changes by the time step times the field at its place (a uniform field is felt exactly, also next to coarser or finer cells), its position by the time step times its new velocity, wrapped into the periodic domain; its mass does not change. A tracer moves with the velocity of the gas in its cell. The particle time step is positive, lets no particle move further than the configured fraction of the smallest side of its cell, and a process without particles does not restrict it.",
 ["inputs", "configurations"], "all masses, velocities, fields and time steps; all positions within the cell next to equal and coarser cells, enumerated ones next to finer cells",
 "mass is only lost for particles near edges and corners of refinement jumps; tests deposit on uniform meshes",
 ["core/src/particles", "core/src/compute_dt/Compute_dt_particle_velocity.cpp"],
 [("deposit", "ParticleUpdate_NGP_density, ParticleUpdate_CIC_density: update_aux"), ("moving", "ParticleUpdate_NGP_move, ParticleUpdate_CIC_move, ParticleUpdate_tracers_move"), ("time step", "Compute_dt_particle_velocity::compute_dt_aux")],
 note="Bounded: one or two particles, one process, block of 2 cells per direction, enumerated octant corner and neighbour sizes; cloud-in-cell in 3D only; moves shorter than the domain." + REALS)
prop("C13", "Mesh adaptation keeps a balanced octree that covers the domain",
 "After any sequence of refinement and coarsening requests the leaves still cover the domain exactly once, stay between the minimum and maximum level, differ by at most one level across faces, edges and corners, every refinement request on a leaf below the maximum level is fulfilled, and the leaves of each process are contiguous in space-filling-curve order.",
 ["histories", "configurations"], "all sequences of markers, meshes and numbers of processes", "balance propagates through chains of neighbours and across processes; tests refine a few fixed shapes",
 ["core/src/amr/AMRmesh_hashmap_new.cpp", "core/src/amr/AMRmesh_hashmap.cpp"], [("adaptation", "AMRmesh_hashmap_new::adapt")])
prop("C14", "Data follow the cells they belong to between processes",
 "Filling ghost cells gives every ghost the value its owner holds, reducing ghosts adds every contribution to the owner exactly once, and load balancing moves every octant, field value and particle to its new owner without losing, duplicating or mixing any, for any number of processes and any partition.",
 ["histories", "schedules"], "all meshes, partitions, fields and process counts", "tests run one or two process counts with fixed partitions",
 ["core/src/mpi", "core/src/UserData_fields.h", "core/src/UserData_particles.h"], [("ghost exchange", "GhostCommunicator, ViewCommunicator: exchange_ghosts, reduce_ghosts"), ("load balancing", "AMRmesh::loadBalance, UserData::exchange_loadbalance")])
prop("C15", "A restarted run continues exactly where it was saved",
 "Writing a checkpoint and restarting from it, at any iteration and on any number of processes, restores the mesh, every field, all particles and the scalars so that the run continues as if never interrupted; output files describe the cells and values of the run.",
 ["crash_points", "histories"], "all runs, save points and process counts", "the restart test saves one small run at one point",
 ["core/src/io"], [("checkpoint", "IOManager_checkpoint, restart initial conditions")])
prop("C16", "The gravity solver returns the field of the mass distribution",
 "For every density field the potential solves the discrete Poisson equation on the adaptive mesh to the requested tolerance, and the acceleration is its gradient, consistent across refinement jumps.",
 ["inputs", "configurations"], "all density fields, meshes and tolerances", "tests check one analytical sphere", ["core/src/gravity"], [("conjugate gradient", "GravitySolver_cg")])
prop("C17", "Results do not depend on threads and process layout",
 "Running with another number of threads or processes, or another cell group size, gives the same result up to the rounding of sums.",
 ["schedules", "configurations"], "all thread counts, process counts and group sizes", "a race only shows under some schedules; tests use one thread layout", ["core/src/foreach_cell", "core/src/hydro", "core/src/mpi"], [("parallel loops", "AMRBlockForeachCell_group: foreach_cell, foreach_patch")])
na("C13", "adapt() is an inductive argument over an unbounded hash table of leaves with fixed-point marker propagation and collectives inside the loop; the generator here executes data structures of known size only and has no heap-shape invariants for Kokkos::UnorderedMap, so only bounded meshes could be checked and not the histories the property is about")
na("C14", "the guarantee is about the joint state of several processes linked by MPI; the contracts here are sequential, with MPI assumed, and nothing in reach generates obligations over all partitions and message orders (single-process halves of it, index conversion and interval lookup, are in C03 and C05)")
na("C15", "decided inside HDF5, its files and the process environment, which have no contracts and no source here; the Dyablo part is a sequence of library calls")
na("C16", "convergence of conjugate gradients to a tolerance is not a postcondition any sequence of loop invariants in reach gives (termination depends on the spectrum of the operator), and in floating point it is not guaranteed at all")
na("C17", "sequential contracts do not express schedules; that loop bodies touch only their own cells is part of C04 and of the update contracts (C08), the absence of data races in Kokkos kernels as a whole would need a concurrent separation logic for C++")
prop("C18", "Viscosity and heat conduction apply the diffusive fluxes and conserve",
 "An explicit viscosity step adds to momentum and energy the time step times the divergence of the Newtonian stress tensor (traceless, symmetric, with the shear terms of every direction) and of its work; a heat conduction step adds to the energy alone the divergence of the conductivity times the temperature gradient. A uniform state does not change, the sums of mass, momentum and energy over a periodic domain do not change, and the old state is only read. The result does not depend on the extent of the unused dimension in 2D.",
 ["inputs"], "all velocities, energies, coefficients and time steps in blocks of 4 cells per direction",
 "a wrong cross derivative or cell width only shows for flows varying in several directions and for cells that are not cubes; there is no test of these kernels",
 ["core/src/parabolic"], [("viscosity", "ParabolicTerm_viscosity::compute_rhs"), ("conduction", "ParabolicTerm_thermal_conduction::compute_rhs"), ("update", "ParabolicUpdate_explicit::update_aux")],
 note="Bounded: one periodic octant with cells of unequal sides, enumerated densities, constant coefficients, no refinement jumps; all other values arbitrary." + REALS)
