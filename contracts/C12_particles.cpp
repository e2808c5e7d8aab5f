// Particles and the mesh: deposited mass, velocities and positions, and the time step for particles.
//@ file define=VC_STRINGS
#include "nest.h"
#include "ScalarSimulationData.h"
namespace dyablo {
struct VcScalars { double v = 0; template <class T> void set(const std::string&, T x) { v = x; } template <class T> T get(const std::string&) const { return (T)v; } };
// particles: attributes in the order mass, vx, vy, vz
struct VcParticleData : VcUserData { ParticleData P;
  struct AttributeInfo { std::string name; VarIndex id; };
  struct ParticleAccessor { ParticleData P; int map[4] = {}; double& at(uint32_t i, const VarIndex& v) const { return P.particle_data(i, map[v]); } const ParticleArray& getShape() const { return P; } uint32_t getNumParticles() const { return P.getNumParticles(); } };
  const ParticleArray& getParticleArray(const std::string&) const { return P; }
  ParticleAccessor getParticleAccessor(const std::string&, const std::vector<AttributeInfo>& v) const { ParticleAccessor a; a.P = P; for (const AttributeInfo& x : v) a.map[x.id] = x.name == "mass" ? 0 : x.name == "vx" ? 1 : x.name == "vy" ? 2 : 3; return a; }
};
struct VcGhosts { template <class M, class S> VcGhosts(const M&, const S&, int) {} template <class A> void reduce_ghosts(const A&) const {} };   // the sums of ghost cells stay where they are
}
#include "mpi/GhostCommunicator.h"
#define GhostCommunicator VcGhosts
#undef UserData
#define UserData VcParticleData
#define ScalarSimulationData VcScalars
#include "particles/ParticleUpdate_NGP_density.cpp"
#include "particles/ParticleUpdate_CIC_density.cpp"
#include "particles/ParticleUpdate_NGP_move.cpp"
#include "particles/ParticleUpdate_CIC_move.cpp"
#include "particles/ParticleUpdate_tracers_move.cpp"
#include "compute_dt/Compute_dt_particle_velocity.cpp"
static CI vc_home[2]; static int vc_part;   // the cells the particles are in (C04)
extern "C" __attribute__((used, noinline)) CI vc_cellOf(const FC::CellMetaData* m, const FC::CellMetaData::pos_t& x) { return vc_home[vc_part++ % 2]; }
// two particles in the cell at one corner of the octant, in the octants of it that p and p2 tell
template <int ndim, int np = 2> struct Cloud { static constexpr int b = 2, bz = ndim == 3 ? 2 : 1, cells = b * b * bz; Nest M; double mass[2], pos[2][3], vel[2][3], f[2][3]; int side[2][3], cell; VcParticleData U; double h[3]; int at[3];
  Cloud(int px, int py, int pz, int pattern, int q) : M(ndim, px, py, pz, pattern, b) { vc_nn = 0; vc_part = 0;
    for (int d = 0; d < 3; d++) { bool z = d == 2 && ndim == 2; h[d] = z ? 1 : 0.25 / 2; at[d] = z ? 0 : M.par[d]; }
    cell = at[0] + b * (at[1] + b * at[2]); U.P = ParticleData("particles", np, FieldManager(4));
    for (int p = 0; p < np; p++) { mass[p] = vc::real(name('m', p, 0), 0.1, 10); U.P.particle_data(p, 0) = mass[p];
      for (int d = 0; d < 3; d++) { bool z = d == 2 && ndim == 2; side[p][d] = (p ? (q >> d & 1) : M.par[d]) ? 1 : -1; f[p][d] = z ? 0 : np == 1 ? 0.125 * (d + 1) : vc::real(name('f', p, d), 0.01, 0.49); pos[p][d] = (z ? 0 : 0.25 * 3 * M.par[d] + (at[d] + 0.5) * h[d]) + side[p][d] * f[p][d] * h[d]; vel[p][d] = vc::real(name('v', p, d), -2, 2); U.P.particle_position(p, d) = pos[p][d]; U.P.particle_data(p, 1 + d) = vel[p][d]; }
      CI& c = vc_home[p]; Oct me; me.iOct = 0; me.isGhost = false; c = CI{me, (uint32_t)at[0], (uint32_t)at[1], (uint32_t)at[2], (uint32_t)b, (uint32_t)b, (uint32_t)bz, CI::LOCAL_TO_BLOCK}; }
  }
  void fields(FC& fc, const char* a, const char* c, const char* e = nullptr, const char* g = nullptr) { FieldManager fm(e ? g ? 4 : 3 : 2); U.a = fc.allocate_ghosted_array("U", fm); U.names.push_back(a); U.names.push_back(c); if (e) U.names.push_back(e); if (g) U.names.push_back(g); }
  double volume(int g) const { uint32_t L = 2; if (g >= 0) { Oct o; o.iOct = g; o.isGhost = true; L = M.m.lm.storage.getLevel(o); } double w = 1.0 / (1u << L) / b; return ndim == 3 ? w * w * w : w * w; }
};
template <class Up, int ndim, int np = 2> static void density(int px, int py, int pz, int pattern, int q, bool near) {
  Cloud<ndim, np> C(px, py, pz, pattern, q); constexpr int cells = Cloud<ndim>::cells; FC fc(C.M.m, C.M.k); VcTimers t; VcScalars s; C.fields(fc, "rho", "rho_g");
  double rho[cells]; for (int c = 0; c < cells; c++) { C.U.a.U(c, 0, 0) = rho[c] = vc::real(name('r', c, 0), 0, 10); C.U.a.U(c, 1, 0) = vc::real(name('g', c, 0), 0, 10); }
  for (int g = 0; g < C.M.count - 1; g++) for (int c = 0; c < cells; c++) C.U.a.Ughost(c, 1, g) = 0;
  Up up(C.M.k, fc, t); up.update(C.U, s); double total = 0, V = C.volume(-1);
  for (int c = 0; c < cells; c++) { double v = C.U.a.U(c, 1, 0), e = rho[c]; vc::check_eq(C.U.a.U(c, 0, 0), rho[c], "the gas density is only read", 10); total += (v - rho[c]) * V;
    if (near || c == C.cell) { for (int p = 0; p < np; p++) { double w = 1; if (near) w = c == C.cell; else { w = 1; for (int d = 0; d < ndim; d++) w *= 1 - C.f[p][d]; int out = 0; if (p) for (int d = 0; d < ndim; d++) if (C.side[p][d] != (C.M.par[d] ? 1 : -1)) out++; } e += C.mass[p] * w / V; } vc::check_eq(v, e, "the cell a particle is in receives its share of the mass on top of the gas density", 1e5); } }
  for (int g = 0; g < C.M.count - 1; g++) for (int c = 0; c < cells; c++) total += C.U.a.Ughost(c, 1, g) * C.volume(g);
  double m = 0; for (int p = 0; p < np; p++) m += C.mass[p]; vc::check_eq(total, m, "all the mass of the particles is deposited on the mesh, whatever the sizes of the neighbours", 100);
}
//@ ngp_density_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(ngp_density_3d) { density<ParticleUpdate_NGP_density, 3>(0, 1, 1, ALL_SAME, 0, true); }
//@ ngp_density_2d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(ngp_density_2d) { density<ParticleUpdate_NGP_density, 2>(1, 0, 0, ALL_SAME, 0, true); }
//@ cic_density_same_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(cic_density_same_3d) { density<ParticleUpdate_CIC_density, 3>(0, 1, 1, ALL_SAME, 2, false); }
//@ cic_density_coarser_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(cic_density_coarser_3d) { density<ParticleUpdate_CIC_density, 3>(0, 1, 1, COARSER, 2, false); density<ParticleUpdate_CIC_density, 3>(1, 0, 1, COARSER, 0, false); }
//@ cic_density_finer_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(cic_density_finer_3d) { density<ParticleUpdate_CIC_density, 3, 1>(0, 1, 1, FINER_THERE, 2, false); }
// velocity and position: v += dt g at the place of the particle, x += dt v, wrapped into the domain
template <class Up, int ndim, int np = 2> static void move(int px, int py, int pz, int pattern, int q, bool uniform) {
  Cloud<ndim, np> C(px, py, pz, pattern, q); constexpr int cells = Cloud<ndim>::cells; FC fc(C.M.m, C.M.k); VcTimers t; VcScalars s; s.v = vc::real("dt", 0.001, 0.1); C.fields(fc, "gx", "gy", "gz");
  double g[3] = {vc::real("gx", -1, 1), vc::real("gy", -1, 1), vc::real("gz", -1, 1)};
  for (int d = 0; d < 3; d++) { for (int c = 0; c < cells; c++) C.U.a.U(c, d, 0) = uniform ? g[d] : vc::uf("g", c, d); for (int o = 0; o < C.M.count - 1; o++) for (int c = 0; c < cells; c++) C.U.a.Ughost(c, d, o) = uniform ? g[d] : vc::uf("g", c, d, 1 + o); }
  Up up(C.M.k, fc, t); up.update(C.U, s);
  for (int p = 0; p < np; p++) for (int d = 0; d < 3; d++) { double a = uniform ? g[d] : vc::uf("g", C.cell, d), v = C.vel[p][d] + s.v * a, x = C.pos[p][d] + s.v * v;
    vc::check_eq(C.U.P.particle_data(p, 1 + d), v, "the velocity changes by the acceleration at the particle", 10); vc::check_eq(C.U.P.particle_position(p, d), fmod(x + 1.0, 1.0), "the particle moves with its new velocity and stays in the periodic domain", 10); vc::check_eq(C.U.P.particle_data(p, 0), C.mass[p], "the mass does not change", 1); }
}
//@ ngp_move seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(ngp_move) { move<ParticleUpdate_NGP_move, 3>(0, 1, 1, ALL_SAME, 3, false); }
//@ cic_move_same_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(cic_move_same_3d) { move<ParticleUpdate_CIC_move, 3>(0, 1, 1, ALL_SAME, 3, true); }
//@ cic_move_jump_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(cic_move_jump_3d) { move<ParticleUpdate_CIC_move, 3, 1>(0, 1, 1, FINER_THERE, 3, true); }
//@ tracers seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(tracers) {
  Cloud<3> C(0, 1, 1, ALL_SAME, 3); FC fc(C.M.m, C.M.k); VcTimers t; VcScalars s; s.v = vc::real("dt", 0.001, 0.1); C.fields(fc, "rho", "rho_vx", "rho_vy", "rho_vz"); double u[4];
  for (int c = 0; c < 8; c++) for (int i = 0; i < 4; i++) { double x = i ? vc::real(name('u', c, i), -1, 1) : vc::real(name('u', c, i), 0.5, 2); C.U.a.U(c, i, 0) = x; if (c == C.cell) u[i] = x; }
  ParticleUpdate_tracers_move up(C.M.k, fc, t); up.update(C.U, s);
  for (int p = 0; p < 2; p++) for (int d = 0; d < 3; d++) vc::check_eq(C.U.P.particle_position(p, d), C.pos[p][d] + s.v * u[1 + d] / u[0], "a tracer moves with the velocity of the gas in its cell", 10);
}
// the particles of a time step: none moves further than the fraction of the smallest side of its cell
template <int ndim> static void step(int n) {
  Cloud<ndim> C(0, 1, ndim == 3, ALL_SAME, 3); double cfl = vc::real("cfl", 0.1, 0.9); C.M.k.set("dt", "particle_cfl", cfl); C.M.k.set("mesh", "xmax", 4); C.M.k.set("mesh", "ymax", 2); C.M.k.set("mesh", "zmax", 8); if (n == 0) C.U.P = ParticleData("none", 0, FieldManager(4));
  FC fc(C.M.m, C.M.k); VcTimers t; VcScalars s; C.fields(fc, "rho", "e_tot"); Compute_dt_particle_velocity dt(C.M.k, fc, t); dt.compute_dt(C.U, s);
  double h = 0.25 / 2 * 2, most = std::numeric_limits<double>::lowest();
  for (int p = 0; p < n; p++) { double w[3] = {0, 0, 0}; for (int d = 0; d < ndim; d++) w[d] = 1e-10 + (C.vel[p][d] < 0 ? -C.vel[p][d] : C.vel[p][d]); double v = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) / h; if (v > most) most = v; }
  if (n) vc::check_eq(s.v, cfl / most, "the time step is the CFL fraction of the time the fastest particle needs to cross its cell (the code adds 1e-10 to each speed)", 10);
  vc::check(s.v > 0, "the time step is positive");
}
//@ dt_particles_2d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(dt_particles_2d) { step<2>(2); }
//@ dt_particles_3d seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(dt_particles_3d) { step<3>(2); }
//@ dt_no_particles seq=600 replace=getCellFromPos=>vc_cellOf replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(dt_no_particles) { step<3>(0); }
