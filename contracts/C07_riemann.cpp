// Riemann solvers: the flux of equal states, mirror symmetry, upwinding, jump conditions, contact waves.
#include "stub_mesh.h"
#include "UserData.h"
#include "states/State_hydro.h"
#include "states/State_MHD.h"
#include "states/State_GLMMHD.h"
#include "utils_hydro.h"
#include "RiemannSolvers.h"
using namespace dyablo;
struct Par { alignas(16) char m[sizeof(RiemannParams)]; RiemannParams& r() { return *(RiemannParams*)m; } };
static RiemannParams& params(Par& b, double smallr, double smallp) {
  RiemannParams& p = b.r(); p.riemannSolverType = RIEMANN_HLLC; p.gamma0 = vc::real("gamma", 1.01, 3); p.gamma6 = (p.gamma0 + 1) / (2 * p.gamma0); p.smallr = smallr; p.smallp = smallp; p.smalle = vc::real("smalle", 1e-8, 1e-3); p.smallc = sqrt(p.smallp * p.gamma0 / p.smallr); p.smallpp = smallr * smallp; p.three_waves = false; p.ch = 0; p.cr = 0.1; return p;
}
static RiemannParams& params(Par& b) { return params(b, vc::real("smallr", 1e-10, 1e-4), vc::real("smallp", 1e-10, 1e-4)); }
struct Q8 { double rho, p, u, v, w, bx, by, bz; };
static Q8 left() { Q8 q; q.rho = vc::real("rl", 0.01, 10); q.p = vc::real("pl", 0.01, 10); q.u = vc::real("ul", -5, 5); q.v = vc::real("vl", -5, 5); q.w = vc::real("wl", -5, 5); q.bx = vc::real("bxl", -3, 3); q.by = vc::real("byl", -3, 3); q.bz = vc::real("bzl", -3, 3); return q; }
static Q8 right() { Q8 q; q.rho = vc::real("rr", 0.01, 10); q.p = vc::real("pr", 0.01, 10); q.u = vc::real("ur", -5, 5); q.v = vc::real("vr", -5, 5); q.w = vc::real("wr", -5, 5); q.bx = vc::real("bxr", -3, 3); q.by = vc::real("byr", -3, 3); q.bz = vc::real("bzr", -3, 3); return q; }
static Q8 mirror(Q8 q) { q.u = -q.u; q.bx = -q.bx; return q; }
static PrimHydroState hyd(const Q8& q) { PrimHydroState s; s.rho = q.rho; s.p = q.p; s.u = q.u; s.v = q.v; s.w = q.w; return s; }
static PrimMHDState mhd(const Q8& q) { PrimMHDState s; s.rho = q.rho; s.p = q.p; s.u = q.u; s.v = q.v; s.w = q.w; s.Bx = q.bx; s.By = q.by; s.Bz = q.bz; return s; }
struct F8 { double rho, e, mu, mv, mw, bx, by, bz, p; };
static double energy(const Q8& q, double g) { return q.p / (g - 1) + q.rho * (q.u * q.u + q.v * q.v + q.w * q.w) / 2 + (q.bx * q.bx + q.by * q.by + q.bz * q.bz) / 2; }
static F8 physical(const Q8& q, double g) {
  double b2 = q.bx * q.bx + q.by * q.by + q.bz * q.bz, pt = q.p + b2 / 2, m = q.rho * q.u; F8 f;
  f.rho = m; f.mu = m * q.u + pt - q.bx * q.bx; f.mv = m * q.v - q.bx * q.by; f.mw = m * q.w - q.bx * q.bz; f.e = (energy(q, g) + pt) * q.u - q.bx * (q.u * q.bx + q.v * q.by + q.w * q.bz); f.bx = 0; f.by = q.by * q.u - q.bx * q.v; f.bz = q.bz * q.u - q.bx * q.w; return f;
}
static F8 hllc(const Q8& l, const Q8& r, const RiemannParams& p) { ConsHydroState f; F8 o; riemann_hydro(hyd(l), hyd(r), f, p, o.p); o.rho = f.rho; o.e = f.e_tot; o.mu = f.rho_u; o.mv = f.rho_v; o.mw = f.rho_w; o.bx = o.by = o.bz = 0; return o; }
static F8 conv(const ConsMHDState& f, double p) { F8 o; o.p = p; o.rho = f.rho; o.e = f.e_tot; o.mu = f.rho_u; o.mv = f.rho_v; o.mw = f.rho_w; o.bx = f.Bx; o.by = f.By; o.bz = f.Bz; return o; }
static void away(const Q8& q, double g);
static F8 five(const Q8& l, const Q8& r, const RiemannParams& p) { double po; away(l, p.gamma0); away(r, p.gamma0); ConsMHDState f = riemann_hydro(mhd(l), mhd(r), p, po, 1.0); return conv(f, po); }
static F8 hlld(const Q8& l, const Q8& r, const RiemannParams& p, double bx) { ConsMHDState f; double po; away(l, p.gamma0); away(r, p.gamma0); riemann_hlld(mhd(l), mhd(r), f, po, p, bx); return conv(f, po); }
static void same(const F8& a, const F8& b, const char* l, double s, bool mag) {
  vc::check_eq(a.rho, b.rho, l, s); vc::check_eq(a.mu, b.mu, l, s); vc::check_eq(a.mv, b.mv, l, s); vc::check_eq(a.mw, b.mw, l, s); vc::check_eq(a.e, b.e, l, s);
  if (mag) { vc::check_eq(a.bx, b.bx, l, s); vc::check_eq(a.by, b.by, l, s); vc::check_eq(a.bz, b.bz, l, s); }
}
static F8 mirror(F8 f) { f.rho = -f.rho; f.mv = -f.mv; f.mw = -f.mw; f.e = -f.e; f.by = -f.by; f.bz = -f.bz; return f; }
static void nofield(Q8& q) { q.bx = q.by = q.bz = 0; }
static void above(const Q8& q, const RiemannParams& p) { vc::assume(q.p >= q.rho * p.smallp && p.gamma0 * q.p * p.smallr >= p.gamma0 * p.smallp * q.rho); }

// sampled inputs stay away from the point where the radicand of the fast speed vanishes and rounding decides its sign; the proofs cover it
static void away(const Q8& q, double g) {
#ifdef VC_NATIVE
  double a = g * q.p - q.bx * q.bx; vc::assume(q.by * q.by + q.bz * q.bz > 1e-6 || a > 1e-6 || a < -1e-6);
#endif
}
VC_CONTRACT(hllc_equal_states) { Par b; RiemannParams& p = params(b); Q8 q = left(); nofield(q); above(q, p); F8 f = hllc(q, q, p); same(f, physical(q, p.gamma0), "the flux between equal states is the physical flux", 1e5, false); }
static double hspeed(const Q8& q, double g) { return sqrt(g * q.p / q.rho); }
static double fspeed(const Q8& q, double gam) { away(q, gam); double g = gam * q.p, b2 = q.bx * q.bx + q.by * q.by + q.bz * q.bz; return sqrt(0.5 * (g + b2 + sqrt((g + b2) * (g + b2) - 4.0 * g * q.bx * q.bx)) / q.rho); }
VC_CONTRACT(hllc_mirror) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); nofield(l); nofield(r); above(l, p); above(r, p);
  double c = fmax(hspeed(l, p.gamma0), hspeed(r, p.gamma0)); vc::assume(fmin(l.u, r.u) - c < 0 && fmax(l.u, r.u) + c > 0);
  F8 f = hllc(l, r, p), g = hllc(mirror(r), mirror(l), p); vc::assume(f.rho < 0 || f.rho > 0); same(f, mirror(g), "the flux of the mirrored problem is the mirrored flux", 1e5, false); vc::check_eq(f.p, g.p, "the interface pressure of the mirrored problem is the same", 1e5);
}
VC_CONTRACT(hllc_upwind) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); nofield(l); nofield(r); above(l, p); above(r, p);
  l.u = vc::real("vel", 0.001, 5) + fmax(hspeed(l, p.gamma0), hspeed(r, p.gamma0)); r.u = l.u + vc::real("more", 0, 3);
  F8 f = hllc(l, r, p); same(f, physical(l, p.gamma0), "when every wave moves to the right, the flux is that of the left state", 1e6, false); vc::check_eq(f.p, l.p, "the interface pressure is that of the upwind state");
  Q8 x = l; x.u = r.u; Q8 y = r; y.u = l.u; f = hllc(x, y, p); same(f, physical(x, p.gamma0), "when every wave moves to the right, the flux is that of the left state", 1e6, false);
  l.u = -l.u; r.u = -r.u; f = hllc(r, l, p); same(f, physical(l, p.gamma0), "when every wave moves to the left, the flux is that of the right state", 1e6, false); vc::check_eq(f.p, l.p, "the interface pressure is that of the upwind state");
}
VC_CONTRACT(hllc_contact) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); nofield(l); nofield(r); r.u = l.u; r.p = l.p; above(l, p); above(r, p);
  F8 f = hllc(l, r, p); Q8 q = l.u > 0 ? l : r; same(f, physical(q, p.gamma0), "a contact wave is carried with the flow", 1e5, false); vc::check_eq(f.p, l.p, "the interface pressure at a contact is the common pressure", 1e3);
}
// between the acoustic waves the flux is that of a state joined to the upwind state by the jump conditions across its acoustic wave
VC_CONTRACT(hllc_jump) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); nofield(l); nofield(r); above(l, p); above(r, p);
  double c = fmax(hspeed(l, p.gamma0), hspeed(r, p.gamma0)), sl = fmin(l.u, r.u) - c, sr = fmax(l.u, r.u) + c; vc::assume(sl < -1e-3 && sr > 1e-3);
  F8 f = hllc(l, r, p); bool L = f.rho > 0; Q8 q = L ? l : r; double s = L ? sl : sr; F8 a = physical(q, p.gamma0);
  double rho = q.rho + (f.rho - a.rho) / s, mu = q.rho * q.u + (f.mu - a.mu) / s, e = energy(q, p.gamma0) + (f.e - a.e) / s;
  vc::check_eq(mu, f.rho, "mass flux of the intermediate state", 1e6); vc::check_eq(f.mu * rho, mu * mu + f.p * rho, "momentum flux of the intermediate state", 1e7); vc::check_eq(f.e * rho, (e + f.p) * mu, "energy flux of the intermediate state", 1e8);
  vc::check_eq(f.mv, f.rho * q.v, "tangential momentum is carried with the mass"); vc::check_eq(f.mw, f.rho * q.w, "tangential momentum is carried with the mass");
}
//@ hllc_total check_div=1 tier=thorough
VC_CONTRACT(hllc_total) { Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); F8 f = hllc(l, r, p); vc::check(p.smallr > 0, "floors are positive"); }

VC_CONTRACT(five_waves_equal_states) { Par b; RiemannParams& p = params(b); p.three_waves = vc::b("three"); Q8 q = left(); F8 f = five(q, q, p); same(f, physical(q, p.gamma0), "the flux between equal states is the physical flux", 1e5, true); }
VC_CONTRACT(five_waves_mirror) { Par b; RiemannParams& p = params(b); p.three_waves = vc::b("three"); Q8 l = left(), r = right(); F8 f = five(l, r, p), g = five(mirror(r), mirror(l), p); vc::assume(f.rho < 0 || f.rho > 0); same(f, mirror(g), "the flux of the mirrored problem is the mirrored flux", 1e6, true); vc::check_eq(f.p, g.p, "the interface pressure of the mirrored problem is the same", 1e5); }
VC_CONTRACT(hlld_equal_states) { Par b; RiemannParams& p = params(b); Q8 q = left(); F8 f = hlld(q, q, p, q.bx); same(f, physical(q, p.gamma0), "the flux between equal states is the physical flux", 1e6, true); }
// between the fast waves, per region between the Alfven waves and the contact (0: left of the left Alfven wave ... 3: right of the right one)
//@ hlld_mirror cases=region:0..3
VC_CONTRACT(hlld_mirror) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); int region = vc::i32("region", 0, 3); double bx = vc::real("bx", -3, 3); l.bx = r.bx = bx; vc::assume(bx < 0 || bx > 0);
  double c = fmax(fspeed(l, p.gamma0), fspeed(r, p.gamma0)), sl = fmin(l.u, r.u) - c, sr = fmax(l.u, r.u) + c; vc::assume(sl < 0); vc::assume(sr > 0);
  double ml = l.rho * (l.u - sl), mr = r.rho * (sr - r.u), pl = l.p + (bx * bx + l.by * l.by + l.bz * l.bz) / 2, pr = r.p + (bx * bx + r.by * r.by + r.bz * r.bz) / 2, us = (mr * r.u + ml * l.u + pl - pr) / (mr + ml);
  double al = us - fabs(bx) / sqrt(ml / (us - sl)), ar = us + fabs(bx) / sqrt(mr / (sr - us));
  if (region == 0) vc::assume(al > 0); else vc::assume(al < 0);
  if (region <= 1) vc::assume(us > 0); else vc::assume(us < 0);
  if (region <= 2) vc::assume(ar > 0); else vc::assume(ar < 0);
  F8 f = hlld(l, r, p, bx), g = hlld(mirror(r), mirror(l), p, -bx); same(f, mirror(g), "the flux of the mirrored problem is the mirrored flux", 1e8, true);
}
VC_CONTRACT(hlld_upwind) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); double bx = l.bx; r.bx = bx;
  l.u = vc::real("vel", 0.001, 5) + fmax(fspeed(l, p.gamma0), fspeed(r, p.gamma0)); r.u = l.u + vc::real("more", 0, 3);
  F8 f = hlld(l, r, p, bx); same(f, physical(l, p.gamma0), "when every wave moves to the right, the flux is that of the left state", 1e6, true);
}
// left of the contact: the state behind the fast wave (region 0) or behind the Alfven wave (region 1) satisfies the jump conditions; the mirrored cases follow from hlld_mirror
//@ hlld_jump cases=region:0..1
VC_CONTRACT(hlld_jump) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); int region = vc::i32("region", 0, 1); double bx = vc::real("bx", -3, 3), g = p.gamma0; l.bx = r.bx = bx; vc::assume(bx < 0 || bx > 0);
  double c = fmax(fspeed(l, g), fspeed(r, g)), sl = fmin(l.u, r.u) - c, sr = fmax(l.u, r.u) + c; vc::assume(sl < 0); vc::assume(sr > 0);
  double ml = l.rho * (l.u - sl), mr = r.rho * (sr - r.u), pl = l.p + (bx * bx + l.by * l.by + l.bz * l.bz) / 2, pr = r.p + (bx * bx + r.by * r.by + r.bz * r.bz) / 2, us = (mr * r.u + ml * l.u + pl - pr) / (mr + ml), ps = (mr * pl + ml * pr - mr * ml * (r.u - l.u)) / (mr + ml);
  double rl = l.rho * (sl - l.u) / (sl - us), rr = r.rho * (sr - r.u) / (sr - us), al = us - fabs(bx) / sqrt(rl), sg = bx < 0 ? -1 : 1; vc::assume(us > 0);
  if (region == 0) vc::assume(al > 0); else vc::assume(al < 0);
  // tangential velocity and field behind the fast wave of one side: momentum and induction jumps across the wave of speed s, unless the two coincide
  struct T { double v, w, by, bz; };
  auto star = [&](const Q8& q, double s) { T t; double d = q.rho * (s - q.u) * (s - us) - bx * bx; if (fabs(d) < p.smalle * bx * bx) { t.v = q.v; t.w = q.w; t.by = q.by; t.bz = q.bz; } else { double rc = q.rho * (s - q.u), k = (us - q.u) / d, m = (rc * rc / q.rho - bx * bx) / d; t.v = q.v - bx * q.by * k; t.w = q.w - bx * q.bz * k; t.by = q.by * m; t.bz = q.bz * m; } return t; };
  T a = star(l, sl), e = star(r, sr), t = a; double en = ((sl - l.u) * energy(l, g) - pl * l.u + ps * us + bx * ((l.u * bx + l.v * l.by + l.w * l.bz) - (us * bx + a.v * a.by + a.w * a.bz))) / (sl - us);
  if (region == 1) {
    double x = sqrt(rl), y = sqrt(rr), n = x + y; t.v = (x * a.v + y * e.v + (e.by - a.by) * sg) / n; t.w = (x * a.w + y * e.w + (e.bz - a.bz) * sg) / n; t.by = (x * e.by + y * a.by + x * y * (e.v - a.v) * sg) / n; t.bz = (x * e.bz + y * a.bz + x * y * (e.w - a.w) * sg) / n;
    en -= x * ((us * bx + a.v * a.by + a.w * a.bz) - (us * bx + t.v * t.by + t.w * t.bz)) * sg;
  }
  F8 f = hlld(l, r, p, bx); const char* d = "the flux is that of the state behind the wave"; double S = 1e8;
  vc::check_eq(f.rho, rl * us, d, S); vc::check_eq(f.mu, rl * us * us + ps - bx * bx, d, S); vc::check_eq(f.mv, rl * us * t.v - bx * t.by, d, S); vc::check_eq(f.mw, rl * us * t.w - bx * t.bz, d, S);
  vc::check_eq(f.bx, 0, d, S); vc::check_eq(f.by, us * t.by - bx * t.v, d, S); vc::check_eq(f.bz, us * t.bz - bx * t.w, d, S); vc::check_eq(f.e, (en + ps) * us - bx * (bx * us + t.by * t.v + t.bz * t.w), d, S);
}
// relaxation solver: interface velocity and pressure follow from the impedances of the two sides, the advected state is the upwind one
//@ five_waves_relations cases=three:0..1
VC_CONTRACT(five_waves_relations) {
  Par b; RiemannParams& p = params(b); double g = p.gamma0; int three = vc::i32("three", 0, 1); p.three_waves = three; Q8 l = left(), r = right();
  double cal, car, cbl, cbr;
  auto fast = [&](const Q8& q) { away(q, g); double a = g * q.p / q.rho, b = (q.bx * q.bx + q.by * q.by + q.bz * q.bz) / q.rho, x = q.bx * q.bx / q.rho; return sqrt((a + b) / 2 + sqrt((a + b) * (a + b) - 4 * a * x) / 2); };
  auto one = [&](const Q8& q, double& ca, double& cb) { double x2 = q.bx * q.bx, t2 = q.by * q.by + q.bz * q.bz; ca = sqrt(q.rho * (1.5 * x2 + 0.5 * t2)) + 1e-16; cb = sqrt(q.rho * (g * q.p + 1.5 * t2 + 0.5 * x2)); };
  if (three || l.bx * r.bx < -1e-16 || l.by * r.by < -1e-16 || l.bz * r.bz < -1e-16) cal = car = cbl = cbr = fmax(l.rho * fast(l), r.rho * fast(r)); else { one(l, cal, cbl); one(r, car, cbr); }
  auto total = [](const Q8& q) { return q.p + (q.by * q.by + q.bz * q.bz - q.bx * q.bx) / 2; };
  double n = cbl + cbr, m = cal + car, pl = total(l), pr = total(r), us = (cbl * l.u + cbr * r.u + pl - pr) / n, ps = (cbr * pl + cbl * pr + cbl * cbr * (l.u - r.u)) / n;
  double vs = (cal * l.v + car * r.v - l.bx * l.by + r.bx * r.by) / m, ws = (cal * l.w + car * r.w - l.bx * l.bz + r.bx * r.bz) / m, py = (-car * l.bx * l.by - cal * r.bx * r.by + cal * car * (l.v - r.v)) / m, pz = (-car * l.bx * l.bz - cal * r.bx * r.bz + cal * car * (l.w - r.w)) / m;
  F8 f = five(l, r, p); Q8 q = us > 0 ? l : r; double bn = us > 0 ? r.bx : l.bx; const char* d = "the flux follows from the interface velocity and pressure"; double S = 1e6;
  vc::check_eq(f.rho, us * q.rho, d, S); vc::check_eq(f.mu, us * q.rho * q.u + ps, d, S); vc::check_eq(f.mv, us * q.rho * q.v + py, d, S); vc::check_eq(f.mw, us * q.rho * q.w + pz, d, S); vc::check_eq(f.e, us * energy(q, g) + ps * us + py * vs + pz * ws, d, S);
  vc::check_eq(f.bx, us * (q.bx - bn), d, S); vc::check_eq(f.by, us * q.by - bn * vs, d, S); vc::check_eq(f.bz, us * q.bz - bn * ws, d, S); vc::check_eq(f.p, ps, "the interface pressure", S);
}
//@ hlld_contact tier=thorough
VC_CONTRACT(hlld_contact) {
  Par b; RiemannParams& p = params(b); Q8 l = left(), r = right(); r.u = l.u; r.p = l.p; r.v = l.v; r.w = l.w; r.bx = l.bx; r.by = l.by; r.bz = l.bz;
  F8 f = hlld(l, r, p, l.bx); Q8 q = l.u > 0 ? l : r; same(f, physical(q, p.gamma0), "a contact wave is carried with the flow", 1e6, true);
}
// the solver with divergence cleaning calls one of the two others; here each of these is replaced by its interface: an arbitrary flux
struct Call { bool on; int which; PrimMHDState l, r; ConsMHDState f; double bx, p; } call;
static void target(int w, const PrimMHDState& l, const PrimMHDState& r, ConsMHDState& f, double& po, double bx) {
  call.which = w; call.l = l; call.r = r; call.bx = bx; f = call.f; po = call.p;
}
extern "C" __attribute__((used, noinline)) void vc_target_five(const PrimMHDState& l, const PrimMHDState& r, ConsMHDState& f, double& po, const RiemannParams& p) { target(1, l, r, f, po, 0); }
extern "C" __attribute__((used, noinline)) void vc_target_hlld(const PrimMHDState& l, const PrimMHDState& r, ConsMHDState& f, double& po, const RiemannParams& p, double bx) { target(2, l, r, f, po, bx); }
//@ glm_wrapper replace=dyablo::riemann_five_waves\(=>vc_target_five replace=dyablo::riemann_hlld\(=>vc_target_hlld
VC_CONTRACT(glm_wrapper) {
  Par b; RiemannParams& p = params(b); p.ch = vc::real("ch", 0.01, 1); p.cr = vc::real("cr", 0.01, 1); double dt = vc::real("dt", 0.001, 1), po; bool five_ = vc::b("five"); p.riemannSolverType = five_ ? RIEMANN_FIVE_WAVES : RIEMANN_HLLD;
  Q8 l = left(), r = right(); PrimGLMMHDState a, c; PrimMHDState x = mhd(l), y = mhd(r);
  auto set = [](PrimGLMMHDState& s, const Q8& q, double psi) { s.rho = q.rho; s.p = q.p; s.u = q.u; s.v = q.v; s.w = q.w; s.Bx = q.bx; s.By = q.by; s.Bz = q.bz; s.psi = psi; };
  double pl = vc::real("psil", -3, 3), pr = vc::real("psir", -3, 3); set(a, l, pl); set(c, r, pr);
  double ch = p.ch / dt, decay = exp(-0.5 * dt * ch / p.cr), bm = (l.bx + r.bx) / 2 - (pr - pl) * decay / (2 * ch), pm = (pl + pr) * decay / 2 - ch * (r.bx - l.bx) / 2;
  ConsMHDState& m = call.f;
#ifdef VC_NATIVE
  if (five_) riemann_five_waves(x, y, m, call.p, p); else riemann_hlld(x, y, m, call.p, p, bm);
#else
  m.rho = vc::real("f0", -9, 9); m.e_tot = vc::real("f1", -9, 9); m.rho_u = vc::real("f2", -9, 9); m.rho_v = vc::real("f3", -9, 9); m.rho_w = vc::real("f4", -9, 9); m.Bx = vc::real("f5", -9, 9); m.By = vc::real("f6", -9, 9); m.Bz = vc::real("f7", -9, 9); call.p = vc::real("fp", -9, 9);
#endif
  ConsGLMMHDState f = riemann_hydro(a, c, p, po, dt);
#ifndef VC_NATIVE
  vc::check(call.which == (five_ ? 1 : 2), "the chosen solver is called");
  const double* u = (const double*)&call.l; const double* v = (const double*)&call.r; const double* e = (const double*)&x; const double* h = (const double*)&y; for (int i = 0; i < 8; i++) { vc::check_eq(u[i], e[i], "the solver gets the left state"); vc::check_eq(v[i], h[i], "the solver gets the right state"); }
  if (!five_) vc::check_eq(call.bx, bm, "the solver gets the cleaned normal field");
#endif
  const char* t = "apart from the normal field, the fluxes are those of the solver at the cleaned normal field"; double s = 1e6;
  vc::check_eq(f.rho, m.rho, t, s); vc::check_eq(f.rho_u, m.rho_u, t, s); vc::check_eq(f.rho_v, m.rho_v, t, s); vc::check_eq(f.rho_w, m.rho_w, t, s); vc::check_eq(f.e_tot, m.e_tot, t, s); vc::check_eq(f.By, m.By, t, s); vc::check_eq(f.Bz, m.Bz, t, s);
  vc::check_eq(f.Bx, m.Bx + pm, "the normal field is driven by the cleaning potential", 1e6); vc::check_eq(f.psi, ch * ch * bm, "the cleaning potential is driven by the normal field at the cleaning speed", 1e9); vc::check_eq(po, call.p, "the interface pressure is that of the solver", 1e3);
}
