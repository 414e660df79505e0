// Common parts of the harness programs: arguments, smooth random fields, a configurable test case,
// model set-up through the public set-up functions, probes and binary dumps.
#ifndef VPH_H
#define VPH_H

#include "throwtrace.h"
#include "Tempest.h"
#include "TempestInitialize.h"
#include "GridPatchGLL.h"
#include "GridPatchCSGLL.h"
#include "GridPatchCartesianGLL.h"
#include "CubedSphereTrans.h"
#include "WorkflowProcess.h"
#include "UserDataMeta.h"
#include "FunctionTimer.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <stdint.h>
#include <unistd.h>

namespace vp {

///////////////////////////////////////////////////////////////////////////////
// key=value arguments
struct Args {
	std::map<std::string, std::string> m;
	Args() {}
	Args(int argc, char ** argv) {
		for (int i = 1; i < argc; i++) {
			std::string s(argv[i]);
			size_t p = s.find('=');
			if (p == std::string::npos) { m[s] = "1"; }
			else { m[s.substr(0, p)] = s.substr(p + 1); }
		}
	}
	bool has(const std::string & k) const { return m.count(k) != 0; }
	std::string str(const std::string & k, const std::string & d = "") const {
		std::map<std::string, std::string>::const_iterator it = m.find(k);
		return (it == m.end()) ? d : it->second;
	}
	double num(const std::string & k, double d = 0.0) const {
		return has(k) ? strtod(str(k).c_str(), NULL) : d;
	}
	int integer(const std::string & k, int d = 0) const {
		return has(k) ? atoi(str(k).c_str()) : d;
	}
};

inline std::vector<std::string> Split(const std::string & s, char c) {
	std::vector<std::string> v;
	std::string cur;
	for (size_t i = 0; i <= s.size(); i++) {
		if (i == s.size() || s[i] == c) { if (!cur.empty() || i < s.size()) v.push_back(cur); cur.clear(); }
		else cur += s[i];
	}
	return v;
}

///////////////////////////////////////////////////////////////////////////////
// deterministic generator (splitmix64)
struct Rng {
	uint64_t s;
	Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double sym() { return 2.0 * u() - 1.0; }
	int below(int n) { return (int)(next() % (uint64_t)n); }
};

///////////////////////////////////////////////////////////////////////////////
// a smooth scalar function of horizontal position, with gradient and Laplacian
//   sphere: polynomial in the Cartesian coordinates of the unit sphere
//   box:    sum of periodic modes
struct Field {
	bool sph;
	struct Mono { int a, b, c; double k; };
	std::vector<Mono> mono;
	double R[3][3];     // f(x) = sgn * p(R x)
	double sgn;
	struct Mode { double kx, ky, ph, amp; };
	std::vector<Mode> mode;
	double shx, shy;    // shift: f(x - sh)

	Field() : sph(true), sgn(1.0), shx(0.0), shy(0.0) {
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = (i == j);
	}
	static Field Sphere(uint64_t seed, int deg) {
		Field f; f.sph = true;
		Rng r(seed);
		for (int a = 0; a <= deg; a++)
		for (int b = 0; a + b <= deg; b++)
		for (int c = 0; a + b + c <= deg; c++) {
			if (a + b + c == 0) continue;
			Mono m = {a, b, c, r.sym() / (1.0 + (a + b + c))};
			f.mono.push_back(m);
		}
		double n = 0; for (size_t i = 0; i < f.mono.size(); i++) n += f.mono[i].k * f.mono[i].k;
		n = sqrt(n); if (n > 0) for (size_t i = 0; i < f.mono.size(); i++) f.mono[i].k /= n;
		return f;
	}
	static Field Box(uint64_t seed, int kmax, double Lx, double Ly, bool xonly, int mirrorY = 0) {
		Field f; f.sph = false;
		Rng r(seed);
		for (int n = 0; n < 4; n++) {
			Mode m;
			int kx = 1 + r.below(kmax), ky = xonly ? 0 : r.below(2 * kmax + 1) - kmax;
			m.kx = 2 * M_PI * kx / Lx; m.ky = xonly ? 0.0 : 2 * M_PI * ky / Ly;
			m.ph = 2 * M_PI * r.u(); m.amp = 0.5 * r.sym();
			f.mode.push_back(m);
		}
		return f;
	}
	static double ip(double x, int n) { double r = 1; for (int i = 0; i < n; i++) r *= x; return r; }

	void xyz(double lon, double lat, double * X) const {
		X[0] = cos(lat) * cos(lon); X[1] = cos(lat) * sin(lon); X[2] = sin(lat);
	}
	void poly(const double * X, double & v, double * g, double H[3][3]) const {
		double Y[3];
		for (int i = 0; i < 3; i++) Y[i] = R[i][0] * X[0] + R[i][1] * X[1] + R[i][2] * X[2];
		double gv[3] = {0, 0, 0}, h[3][3] = {{0,0,0},{0,0,0},{0,0,0}}; v = 0;
		for (size_t n = 0; n < mono.size(); n++) {
			const Mono & m = mono[n];
			int e[3] = {m.a, m.b, m.c};
			v += m.k * ip(Y[0], e[0]) * ip(Y[1], e[1]) * ip(Y[2], e[2]);
			for (int i = 0; i < 3; i++) {
				int f[3] = {e[0], e[1], e[2]};
				if (f[i] == 0) continue;
				double c = f[i]; f[i]--;
				gv[i] += m.k * c * ip(Y[0], f[0]) * ip(Y[1], f[1]) * ip(Y[2], f[2]);
				for (int j = 0; j < 3; j++) {
					int q[3] = {f[0], f[1], f[2]};
					if (q[j] == 0) continue;
					double c2 = c * q[j]; q[j]--;
					h[i][j] += m.k * c2 * ip(Y[0], q[0]) * ip(Y[1], q[1]) * ip(Y[2], q[2]);
				}
			}
		}
		v *= sgn;
		for (int i = 0; i < 3; i++) {
			g[i] = 0;
			for (int j = 0; j < 3; j++) g[i] += sgn * R[j][i] * gv[j];
		}
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
			H[i][j] = 0;
			for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) H[i][j] += sgn * R[p][i] * R[q][j] * h[p][q];
		}
	}
	double val(double x, double y) const {
		if (sph) { double X[3], v, g[3], H[3][3]; xyz(x, y, X); poly(X, v, g, H); return v; }
		double v = 0;
		for (size_t n = 0; n < mode.size(); n++) v += mode[n].amp * cos(mode[n].kx * (x - shx) + mode[n].ky * (y - shy) + mode[n].ph);
		return sgn * v;
	}
	// tangential gradient: (east, north) per unit radius on the sphere, (d/dx, d/dy) in a box
	void grad(double x, double y, double & gx, double & gy) const {
		if (sph) {
			double X[3], v, g[3], H[3][3]; xyz(x, y, X); poly(X, v, g, H);
			gx = -sin(x) * g[0] + cos(x) * g[1];
			gy = -sin(y) * cos(x) * g[0] - sin(y) * sin(x) * g[1] + cos(y) * g[2];
			return;
		}
		gx = gy = 0;
		for (size_t n = 0; n < mode.size(); n++) {
			double s = -mode[n].amp * sin(mode[n].kx * (x - shx) + mode[n].ky * (y - shy) + mode[n].ph) * sgn;
			gx += s * mode[n].kx; gy += s * mode[n].ky;
		}
	}
	double lap(double x, double y) const {
		if (sph) {
			double X[3], v, g[3], H[3][3]; xyz(x, y, X); poly(X, v, g, H);
			double tr = H[0][0] + H[1][1] + H[2][2], rr = 0, r1 = 0;
			for (int i = 0; i < 3; i++) { r1 += X[i] * g[i]; for (int j = 0; j < 3; j++) rr += X[i] * X[j] * H[i][j]; }
			return tr - rr - 2.0 * r1;
		}
		double v = 0;
		for (size_t n = 0; n < mode.size(); n++)
			v -= mode[n].amp * (mode[n].kx * mode[n].kx + mode[n].ky * mode[n].ky) * cos(mode[n].kx * (x - shx) + mode[n].ky * (y - shy) + mode[n].ph);
		return sgn * v;
	}
};

inline void ParseMatrix(const std::string & s, double R[3][3]) {
	std::vector<std::string> v = Split(s, ',');
	for (int i = 0; i < 9 && i < (int)v.size(); i++) R[i / 3][i % 3] = strtod(v[i].c_str(), NULL);
}

///////////////////////////////////////////////////////////////////////////////
// The configurable test case.
class VTestCase : public TestCase {
public:
	Args a;
	bool sph, sw;
	std::string kind;
	double ztop, T0, N2, h0topo, amp, u0, w0, H0, alpha, g0;
	double Lx, Ly, x0, y0;
	bool ref, rayl, noflux, refT0;
	double mirx;
	double psgn;      // sign of pseudo-scalars under the transform
	Field fpsi, fchi, ftheta, frho, fw, ftopo, ftr[16];
	std::vector<std::string> tr;

	VTestCase(const Args & a_) : a(a_) {
		sph = (a.str("grid", "cs") == "cs");
		sw = (a.str("eq", "nh") == "sw");
		kind = a.str("tc", "rand");
		ztop = sw ? 1.0 : a.num("ztop", 10000.0);
		T0 = a.num("T0", 300.0);
		double Nbv = a.num("N", 0.01); N2 = Nbv * Nbv;
		h0topo = a.num("topo", 0.0);
		amp = a.num("amp", 1.0e-3);
		u0 = a.num("u0", 20.0);
		w0 = a.num("w0", 0.0);
		H0 = a.num("H0", 5000.0);
		g0 = a.num("gconst", 9.80616);
		alpha = a.num("alpha", 0.0) * M_PI / 180.0;
		ref = a.integer("ref", 1) != 0;
		refT0 = false;
		rayl = a.num("rayleigh", 0.0) != 0.0;
		noflux = a.integer("noflux", 0) != 0;
		x0 = a.num("x0", 0.0); y0 = a.num("y0", 0.0);
		Lx = a.num("Lx", 100000.0); Ly = a.num("Ly", 100000.0);
		int seed = a.integer("seed", 1);
		int deg = a.integer("deg", 2);
		bool xonly = (a.str("grid") == "xz") || noflux;
		mirx = a.num("mirx", 1.0); double miry = a.num("miry", 1.0);
		for (int i = 0; i < 22; i++) {
			Field f = sph ? Field::Sphere(seed * 101 + i, deg) : Field::Box(seed * 101 + i, deg, Lx, Ly, xonly);
			if (sph && a.has("R")) ParseMatrix(a.str("R"), f.R);
			for (size_t m = 0; m < f.mode.size(); m++) {   // f(mirx x, miry y) or, swapped, f(y, x)
				f.mode[m].kx *= mirx; f.mode[m].ky *= miry;
				if (a.integer("swapxy", 0)) std::swap(f.mode[m].kx, f.mode[m].ky);
			}
			f.shx = a.num("shx", 0.0); f.shy = a.num("shy", 0.0);
			if (i == 0) fpsi = f; if (i == 1) fchi = f; if (i == 2) ftheta = f; if (i == 3) frho = f; if (i == 4) fw = f;
			if (i == 5) ftopo = f; if (i >= 6) ftr[i - 6] = f;
		}
		psgn = a.num("psgn", 1.0);
		fpsi.sgn *= psgn;
		if (a.has("tr")) tr = Split(a.str("tr"), ',');
	}
	virtual EquationSet::Type GetEquationSetType() const {
		return sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations;
	}
	virtual double GetZtop() const { return ztop; }
	virtual void EvaluatePhysicalConstants(PhysicalConstants & phys) const {
		if (a.has("omega")) phys.SetOmega(a.num("omega"));
		if (a.has("radius")) phys.SetEarthRadius(a.num("radius"));
		if (a.has("gconst")) phys.SetG(a.num("gconst"));
		if (a.has("alpha")) phys.SetAlpha(alpha);
		if (a.has("Rd")) phys.SetR(a.num("Rd"));
		if (a.has("cp")) phys.SetCp(a.num("cp"));
		if (a.has("p0")) phys.SetP0(a.num("p0"));
	}
	virtual void GetUniformDiffusionCoeffs(double & ds, double & dv) const { ds = a.num("usc", 0.0); dv = a.num("uvc", 0.0); }
	virtual double EvaluateTopography(const PhysicalConstants & phys, double x, double y) const {
		if (h0topo == 0.0) return 0.0;
		double f = ftopo.val(x, y);
		return h0topo * f * f;
	}
	virtual bool HasRayleighFriction() const { return rayl; }
	virtual double EvaluateRayleighStrength(double z, double x, double y) const {
		double zd = 0.5 * ztop;
		if (z <= zd) return 0.0;
		double q = sin(0.5 * M_PI * (z - zd) / (ztop - zd));
		return a.num("rayleigh", 0.0) * q * q;
	}
	virtual bool HasReferenceState() const { return ref && !sw; }
	void Base(const PhysicalConstants & phys, double z, double & theta, double & rho, double & p) const {
		double g = phys.GetG(), cp = phys.GetCp(), Rd = phys.GetR(), p0 = phys.GetP0();
		double pi;
		if (N2 == 0.0) { theta = T0; pi = 1.0 - g * z / (cp * T0); }
		else if (N2 < 0) { // isothermal
			double T = T0; p = p0 * exp(-g * z / (Rd * T)); pi = pow(p / p0, Rd / cp); theta = T / pi;
		} else {
			theta = T0 * exp(N2 * z / g);
			pi = 1.0 + g * g / (cp * T0 * N2) * (exp(-N2 * z / g) - 1.0);
		}
		if (!(N2 < 0)) p = p0 * pow(pi, cp / Rd);
		rho = p / (Rd * theta * pi);
	}
	virtual void EvaluateReferenceState(const PhysicalConstants & phys, double z, double x, double y, double * s) const {
		double p; s[0] = 0; s[1] = 0; s[3] = 0;
		Base(phys, z, s[2], s[4], p);
		if (a.integer("refoff", 0)) { s[2] *= 1.002; s[4] *= 0.999; }
		double ru = a.num("refu", 0);
		if (ru != 0) { Wind(x, y, s[0], s[1]); s[0] *= ru * (1 + z / ztop); s[1] *= ru * (1 - z / ztop); }
	}
	void Wind(double x, double y, double & u, double & v) const {
		double px, py, cx, cy;
		fpsi.grad(x, y, px, py); fchi.grad(x, y, cx, cy);
		double s = sph ? 1.0 : Lx / (2 * M_PI);
		u = (-py + a.num("divfrac", 0.3) * cx) * s;
		v = (px + a.num("divfrac", 0.3) * cy) * s;
		if (noflux) { v *= sin(M_PI * (y - y0) / Ly) ; }
		if (a.str("grid") == "xz") { u = mirx * s * 2 * M_PI / Lx * fchi.val(x, y); v = 0.0; }
	}
	// vorticity and divergence of the horizontal wind of kinds hs and rand (without its vertical profile) and sw rand
	void VortDiv(const PhysicalConstants & phys, double x, double y, double & vo, double & di) const {
		double s = sph ? 1.0 / phys.GetEarthRadius() : Lx / (2 * M_PI), f = a.num("divfrac", 0.3);
		vo = u0 * s * fpsi.lap(x, y);
		di = u0 * s * f * fchi.lap(x, y);
		if (a.str("grid") == "xz") { double gx, gy; fchi.grad(x, y, gx, gy); vo = 0; di = u0 * gx; }
	}
	double Coriolis(const PhysicalConstants & phys, double x, double y) const {
		double om = phys.GetOmega();
		if (sph) return 2.0 * om * (-cos(x) * cos(y) * sin(alpha) + sin(y) * cos(alpha));
		if (a.str("grid") == "xz") return 0.0;
		double rl = a.num("reflat", 0.0);
		return 2.0 * om * sin(rl) + 2.0 * om * cos(rl) / phys.GetEarthRadius() * (y - 0.5 * Ly);
	}
	// quantities advanced by the equations, and what they need: u v H|rhotheta w rho p tracers...
	void Quantities(const PhysicalConstants & phys, const Time & time, double z, double x, double y, double * q) const {
		double s[5] = {0, 0, 0, 0, 0}, t[16];
		State(phys, time, z, x, y, s, t);
		q[0] = s[0]; q[1] = s[1]; q[3] = s[3]; q[4] = s[4]; q[2] = s[2]; q[5] = 0;
		if (!sw) { q[2] = s[2] * s[4]; q[5] = phys.GetP0() * pow(phys.GetR() * q[2] / phys.GetP0(), phys.GetCp() / phys.GetCv()); }
		for (size_t i = 0; i < tr.size(); i++) q[6 + i] = t[i];
	}
	// right-hand sides of the governing equations at a point, by differences of the analytic state in longitude, latitude and height
	void Tendency(const PhysicalConstants & phys, const Time & time, double z, double x, double y, double * s, double * t) const {
		const int M = 22; size_t nq = 6 + tr.size();
		double q[M], d[3][M], R = phys.GetEarthRadius(), g = phys.GetG();
		double hs[3] = {sph ? 2e-3 : 4e-4 * Lx, sph ? 2e-3 : 4e-4 * Ly, 1e-3 * ztop};
		double mx = sph ? R * cos(y) : 1.0, my = sph ? R : 1.0, cy = sph ? cos(y) : 1.0, tn = sph ? tan(y) / R : 0.0;
		// fluxes: pairs (variable, direction) are differenced as products
		auto all = [&](double ax, double ay, double az, double * o) {
			double w[M]; Quantities(phys, time, az, ax, ay, w);
			double c = sph ? cos(ay) : 1.0, hb = sw ? EvaluateTopography(phys, ax, ay) : 0.0;
			for (size_t i = 0; i < nq; i++) o[i] = w[i];
			for (size_t i = 0; i < nq; i++) {
				double v = (sw && i == 2) ? w[2] - hb : w[i];
				o[M + i] = v * w[0]; o[2 * M + i] = v * w[1] * c; o[3 * M + i] = v * w[3];
			}
		};
		double D[3][4 * M] = {{0}}; double B[4 * M], F[4 * M];
		const double cf[3] = {0.75, -0.15, 1.0 / 60.0};
		for (int e = 0; e < (sw ? 2 : 3); e++) for (int m = 1; m <= 3; m++) {
			double h = m * hs[e];
			all(x + (e == 0) * h, y + (e == 1) * h, z + (e == 2) * h, F);
			all(x - (e == 0) * h, y - (e == 1) * h, z - (e == 2) * h, B);
			for (int i = 0; i < 4 * M; i++) if (i % M < (int)nq) D[e][i] += cf[m - 1] * (F[i] - B[i]) / hs[e];
		}
		(void)d;
		Quantities(phys, time, z, x, y, q);
		double u = q[0], v = q[1], w = sw ? 0.0 : q[3], f = Coriolis(phys, x, y);
		double px, py;
		if (sw) { px = g * D[0][2]; py = g * D[1][2]; } else { px = D[0][5] / q[4]; py = D[1][5] / q[4]; }
		s[0] = -u * D[0][0] / mx - v * D[1][0] / my - w * D[2][0] + u * v * tn + f * v - px / mx;
		s[1] = -u * D[0][1] / mx - v * D[1][1] / my - w * D[2][1] - u * u * tn - f * u - py / my;
		auto div = [&](int i) { return -(D[0][M + i] / mx + D[1][2 * M + i] / (my * cy)) - (sw ? 0.0 : D[2][3 * M + i]); };
		if (sw) s[2] = div(2);
		else {
			s[3] = -u * D[0][3] / mx - v * D[1][3] / my - w * D[2][3] - g - D[2][5] / q[4];
			s[4] = div(4);
			if (s[4] == 0.0) s[4] = 1e-300;
			s[2] = div(2) / s[4];       // the model multiplies it by s[4]
		}
		if (t != NULL) for (size_t i = 0; i < tr.size(); i++) t[i] = div(6 + i);
	}
	virtual void EvaluatePointwiseState(const PhysicalConstants & phys, const Time & time,
		double z, double x, double y, double * s, double * t) const
	{
		if (a.integer("tend", 0)) Tendency(phys, time, z, x, y, s, t); else State(phys, time, z, x, y, s, t);
	}
	void State(const PhysicalConstants & phys, const Time & time,
		double z, double x, double y, double * s, double * t) const
	{
		double zeta = z / ztop;
		double base = 1.0;
		if (kind == "sw2") {
			double cl = cos(y), sl = sin(y);
			s[0] = u0 * (cl * cos(alpha) + cos(x) * sl * sin(alpha));
			s[1] = -u0 * sin(x) * sin(alpha);
			double q = -cos(x) * cl * sin(alpha) + sl * cos(alpha);
			s[2] = H0 - (phys.GetEarthRadius() * phys.GetOmega() + 0.5 * u0) * u0 * q * q / phys.GetG();
			base = s[2];
		} else if (sw) {
			double u, v; Wind(x, y, u, v);
			if (kind == "rest" ) { s[0] = s[1] = 0; s[2] = H0; }
			else { s[0] = u0 * u; s[1] = u0 * v; s[2] = H0 * (1.0 + amp * frho.val(x, y)); }
			base = s[2] - EvaluateTopography(phys, x, y);
		} else {
			double p;
			Base(phys, z, s[2], s[4], p);
			s[0] = s[1] = s[3] = 0;
			if (kind == "rand") {
				double u, v; Wind(x, y, u, v);
				double sh = 0.5 + zeta - 0.5 * zeta * zeta;
				s[0] = u0 * u * sh; s[1] = u0 * v * sh;
				s[2] *= 1.0 + amp * ftheta.val(x, y) * (0.3 + zeta * (1.5 - zeta));
				s[4] *= 1.0 + amp * frho.val(x, y) * (0.7 - 0.4 * zeta);
				s[3] = w0 * fw.val(x, y) * sin(M_PI * zeta);
				if (a.integer("wterr", 0)) {    // vertical velocity that follows the terrain
					double h = EvaluateTopography(phys, x, y), hx = 0, hy = 0, R = sph ? phys.GetEarthRadius() : 1.0;
					if (h0topo != 0.0) { ftopo.grad(x, y, hx, hy); double c = 2 * h0topo * ftopo.val(x, y) / R; hx *= c; hy *= c; }
					s[3] = (s[0] * hx + s[1] * hy) * (ztop - z) / (ztop - h) + w0 * fw.val(x, y) * sin(M_PI * (z - h) / (ztop - h));
				}
			} else if (kind == "uniform") {
				s[0] = u0 * a.num("ux", 1.0); s[1] = u0 * a.num("uy", 0.0);
			} else if (kind == "bubble") {
				double f = ftheta.val(x, y);
				s[2] *= 1.0 + amp * f * sin(M_PI * zeta);
			} else if (kind == "hs") {
				double u, v; Wind(x, y, u, v);
				s[0] = u0 * u; s[1] = u0 * v;
				s[2] *= 1.0 + amp * ftheta.val(x, y);
				s[3] = w0;
			}
			base = s[4];
		}
		if (a.has("tdep")) {   // time-dependent initial data
			double f = 1.0 + a.num("tdep") * (time.GetYear() % 10 + 0.1 * time.GetMonth() + 0.01 * time.GetDay() + 1e-5 * time.GetSecond());
			s[2] *= f; s[0] *= f;
		}
		if (t != NULL) {
			for (size_t i = 0; i < tr.size(); i++) {
				std::vector<std::string> sp = Split(tr[i], ':');
				double q = 0, par = sp.size() > 1 ? strtod(sp[1].c_str(), NULL) : 1.0;
				if (sp[0] == "u") q = par;
				else if (sp[0] == "r") q = 0.5 + 0.3 * ftr[((int)par) % 16].val(x, y) * (sw ? 1.0 : (0.6 + 0.4 * zeta));
				else if (sp[0] == "b") {
					double f = ftr[((int)par) % 16].val(x, y);
					q = (f > 0.2) ? (f - 0.2) : 0.0;
					if (!sw && !(zeta > 0.2 && zeta < 0.7)) q = 0.0;
				} else if (sp[0] == "n") q = 0.3 * ftr[((int)par) % 16].val(x, y);
				t[i] = q * base;
			}
		}
	}
};

///////////////////////////////////////////////////////////////////////////////
// Model set-up through the public set-up functions.
inline Time DTime(const std::string & s) {
	Time t(Time::CalendarNoLeap, Time::TypeDelta);
	t.FromFormattedString(s); t.SetTimeType(Time::TypeDelta);
	return t;
}
inline Time FTime(const std::string & s) {
	Time t;
	t.FromFormattedString(s); t.SetTimeType(Time::TypeFixed);
	return t;
}

struct Setup {
	Setup() : eqn(NULL), model(NULL), tc(NULL) {}
	EquationSet * eqn; UserDataMeta meta; Model * model; VTestCase * tc;
	_TempestCommandLineVariables v;
};

inline void FillVars(const Args & a, _TempestCommandLineVariables & v) {
	bool sw = (a.str("eq", "nh") == "sw");
	v.fNoOutput = (a.integer("output", 0) == 0);
	v.strOutputDir = a.str("outdir", "out");
	v.strOutputPrefix = a.str("outprefix", "out");
	v.strRestartFile = a.str("restart", "");
	v.fRestartPerturbation = false;
	v.nOutputsPerFile = a.integer("perfile", -1);
	v.timeOutputDeltaT = DTime(a.str("outdt", a.str("dt", "100s")));
	v.timeOutputRestartDeltaT = a.has("rdt") ? DTime(a.str("rdt")) : DTime("");
	v.timeDeltaT = DTime(a.str("dt", "100s"));
	v.timeEndTime = FTime(a.str("end", "100s"));
	v.nOutputResX = a.integer("outx", 36);
	v.nOutputResY = a.integer("outy", 18);
	v.nOutputResZ = a.integer("outz", 0);
	v.fOutputVorticity = a.integer("ovort", 0) != 0;
	v.fOutputDivergence = a.integer("odiv", 0) != 0;
	v.fOutputTemperature = a.integer("otemp", 0) != 0;
	v.fOutputSurfacePressure = a.integer("ops", 0) != 0;
	v.fOutputRichardson = a.integer("ori", 0) != 0;
	v.fNoReferenceState = a.integer("norefstate", 0) != 0;
	v.fNoTracers = false;
	v.fNoHyperviscosity = (a.num("nu", 0.0) == 0.0) && (a.num("nud", 0.0) == 0.0) && (a.num("nuv", 0.0) == 0.0);
	v.nHyperviscosityOrder = a.integer("hvorder", 4);
	v.dNuScalar = a.num("nu", 0.0);
	v.dNuDiv = a.num("nud", a.num("nu", 0.0));
	v.dNuVort = a.num("nuv", a.num("nu", 0.0));
	v.dInstepNuDiv = a.num("inud", 0.0);
	v.fExplicitVertical = a.integer("expvert", 0) != 0;
	v.strVerticalStaggering = a.str("stagger", sw ? "LEV" : "LOR");
	v.fForceMassFluxOnLevels = a.integer("mflev", 0) != 0;
	v.strVerticalStretch = a.str("stretch", "uniform");
	v.strVerticalDiscretization = a.str("vdisc", "FE");
	v.nVerticalHyperdiffOrder = a.integer("vhv", 0);
	v.strTimestepScheme = a.str("scheme", "strang");
	v.strHorizontalDynamics = a.str("hmethod", "V1");
	v.strVerticalDynamics = a.str("vmethod", "V1");
	v.nResolutionX = a.integer("ne", 4);
	v.nResolutionY = a.integer("ney", 1);
	v.nLevels = sw ? 1 : a.integer("levels", 6);
	v.nHorizontalOrder = a.integer("order", 4);
	v.nVerticalOrder = sw ? 1 : a.integer("vorder", 1);
}

inline void BoxDims(const Args & a, double d[6], int bc[4]) {
	d[0] = a.num("x0", 0.0); d[1] = d[0] + a.num("gLx", a.num("Lx", 100000.0));   // gLx, gLy: size of the box when not one period of the fields
	d[2] = a.num("y0", 0.0); d[3] = d[2] + a.num("gLy", a.num("Ly", 100000.0));
	d[4] = 0; d[5] = a.num("ztop", 10000.0);
	for (int i = 0; i < 4; i++) bc[i] = Grid::BoundaryCondition_Periodic;
	if (a.integer("noflux", 0)) { bc[1] = bc[3] = Grid::BoundaryCondition_NoFlux; }
	if (a.has("bc")) {
		std::vector<std::string> v = Split(a.str("bc"), ',');
		for (int i = 0; i < 4 && i < (int)v.size(); i++) bc[i] = atoi(v[i].c_str());
	}
}

inline Setup MakeModel(const Args & a, bool fTestCase = true) {
	Setup s;
	bool sw = (a.str("eq", "nh") == "sw");
	s.eqn = new EquationSet(sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	s.tc = new VTestCase(a);
	for (size_t i = 0; i < s.tc->tr.size(); i++) {
		std::stringstream ss; ss << "Q" << i;
		s.eqn->InsertTracer(ss.str(), ss.str() + "_full");
	}
	for (int i = 0; i < a.integer("ud2d", 0); i++) {
		std::stringstream ss; ss << "UD" << i;
		s.meta.InsertDataItem2D(ss.str());
	}
	s.model = new Model(*s.eqn, s.meta);
	FillVars(a, s.v);
	std::string grid = a.str("grid", "cs");
	int np = a.integer("patches", 0);
	if (grid == "cs" && np == 0) {
		_TempestSetupCubedSphereModel(*s.model, s.v);
	} else if (np == 0) {
		double d[6]; int bc[4]; BoxDims(a, d, bc);
		_TempestSetupCartesianModel(*s.model, d, a.num("reflat", 0.0), bc, grid == "xz", s.v);
	} else {
		// explicit number of patches
		s.model->SetDeltaT(s.v.timeDeltaT);
		s.model->SetEndTime(s.v.timeEndTime);
		_TempestSetupMethodOfLines(*s.model, s.v);
		STLStringHelper::ToLower(s.v.strVerticalStaggering);
		std::string st = s.v.strVerticalStaggering;
		Grid::VerticalStaggering e = (st == "lev") ? Grid::VerticalStaggering_Levels : (st == "int") ? Grid::VerticalStaggering_Interfaces
			: (st == "lor") ? Grid::VerticalStaggering_Lorenz : Grid::VerticalStaggering_CharneyPhillips;
		STLStringHelper::ToLower(s.v.strVerticalDiscretization);
		Grid::VerticalDiscretization vd = (s.v.strVerticalDiscretization == "fv") ? Grid::VerticalDiscretization_FiniteVolume : Grid::VerticalDiscretization_FiniteElement;
		Grid * g;
		if (grid == "cs") {
			GridCSGLL * p = new GridCSGLL(*s.model);
			p->DefineParameters();
			p->SetParameters(s.v.nLevels, np, s.v.nResolutionX, 4, s.v.nHorizontalOrder, s.v.nVerticalOrder, vd, e);
			g = p;
		} else {
			double d[6]; int bc[4]; BoxDims(a, d, bc);
			GridCartesianGLL * p = new GridCartesianGLL(*s.model);
			p->DefineParameters();
			p->SetParameters(s.v.nLevels, np, s.v.nResolutionX, s.v.nResolutionY, 4, s.v.nHorizontalOrder, s.v.nVerticalOrder,
				d, a.num("reflat", 0.0), bc, grid == "xz", vd, e);
			g = p;
		}
		g->InitializeDataLocal();
		if (s.v.strVerticalStretch == "cubic") g->SetVerticalStretchFunction(new VerticalStretchCubic);
		if (s.v.strVerticalStretch == "pwlinear") g->SetVerticalStretchFunction(new VerticalStretchPiecewiseLinear);
		s.model->SetGrid(g, np);
		_TempestSetupOutputManagers(*s.model, s.v);
	}
	if (a.has("start")) s.model->SetStartTime(FTime(a.str("start")));
	if (fTestCase) s.model->SetTestCase(s.tc);
	return s;
}

inline int Rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int Size() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }

///////////////////////////////////////////////////////////////////////////////
// Binary dumps, one file per rank: text header lines followed by raw doubles.
struct Dump {
	FILE * fp;
	Dump(const std::string & path) {
		fp = fopen(path.c_str(), "wb");
		if (fp == NULL) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(70); }
	}
	~Dump() { fclose(fp); }
	void line(const std::string & s) { fprintf(fp, "%s\n", s.c_str()); }
	void raw(const char * name, const double * p, size_t n, int nd, const size_t * d) {
		fprintf(fp, "ARR %s %d", name, nd);
		for (int i = 0; i < nd; i++) fprintf(fp, " %lu", (unsigned long)d[i]);
		fprintf(fp, "\n");
		if (n) fwrite(p, sizeof(double), n, fp);
		fprintf(fp, "\n");
	}
	void arr(const char * name, const DataArray1D<double> & x) {
		if (!x.IsAttached()) return;
		size_t d[1] = {x.GetRows()};
		std::vector<double> v(d[0]);
		for (size_t i = 0; i < d[0]; i++) v[i] = x[i];
		raw(name, v.data(), v.size(), 1, d);
	}
	void arr(const char * name, const DataArray2D<double> & x) {
		if (!x.IsAttached()) return;
		size_t d[2] = {x.GetRows(), x.GetColumns()};
		std::vector<double> v(d[0] * d[1]);
		size_t n = 0;
		for (size_t i = 0; i < d[0]; i++) for (size_t j = 0; j < d[1]; j++) v[n++] = x(i, j);
		raw(name, v.data(), v.size(), 2, d);
	}
	void arr(const char * name, const DataArray3D<double> & x) {
		if (!x.IsAttached()) return;
		size_t d[3] = {x.GetRows(), x.GetColumns(), x.GetSubColumns()};
		std::vector<double> v(d[0] * d[1] * d[2]);
		size_t n = 0;
		for (size_t i = 0; i < d[0]; i++) for (size_t j = 0; j < d[1]; j++) for (size_t k = 0; k < d[2]; k++) v[n++] = x(i, j, k);
		raw(name, v.data(), v.size(), 3, d);
	}
	void arr(const char * name, const DataArray4D<double> & x) {
		if (!x.IsAttached()) return;
		size_t d[4] = {x.GetSize(0), x.GetSize(1), x.GetSize(2), x.GetSize(3)};
		std::vector<double> v(d[0] * d[1] * d[2] * d[3]);
		size_t n = 0;
		for (size_t c = 0; c < d[0]; c++) for (size_t i = 0; i < d[1]; i++) for (size_t j = 0; j < d[2]; j++) for (size_t k = 0; k < d[3]; k++) v[n++] = x(c, i, j, k);
		raw(name, v.data(), v.size(), 4, d);
	}
};

// what: letters; s state, t tracers, g basic geometry, G all geometry, a auxiliary, r reference, l Rayleigh
inline void DumpGrid(Grid * g, const std::string & prefix, const std::string & tag, const std::string & what, int ix = 0) {
	char buf[512];
	snprintf(buf, sizeof(buf), "%s.%s.%d.bin", prefix.c_str(), tag.c_str(), Rank());
	Dump d(buf);
	for (int n = 0; n < g->GetActivePatchCount(); n++) {
		GridPatch * p = g->GetActivePatch(n);
		const PatchBox & b = p->GetPatchBox();
		snprintf(buf, sizeof(buf), "PATCH %d panel %d A %d %d B %d %d halo %d proc %d", p->GetPatchIndex(), b.GetPanel(),
			b.GetAGlobalInteriorBegin(), b.GetAGlobalInteriorEnd(), b.GetBGlobalInteriorBegin(), b.GetBGlobalInteriorEnd(),
			b.GetHaloElements(), p->GetProcessor());
		d.line(buf);
		if (what.find('s') != std::string::npos) {
			d.arr("node", p->GetDataState(ix, DataLocation_Node));
			d.arr("redge", p->GetDataState(ix, DataLocation_REdge));
		}
		if (what.find('t') != std::string::npos && g->GetModel().GetEquationSet().GetTracers() > 0)
			d.arr("tracers", p->GetDataTracers(ix));
		if (what.find('r') != std::string::npos) {
			d.arr("refnode", p->GetReferenceState(DataLocation_Node));
			d.arr("refredge", p->GetReferenceState(DataLocation_REdge));
		}
		if (what.find('g') != std::string::npos || what.find('G') != std::string::npos) {
			d.arr("lon", p->GetLongitude()); d.arr("lat", p->GetLatitude());
			d.arr("area", p->GetElementAreaNode()); d.arr("areaE", p->GetElementAreaREdge());
			d.arr("zlev", p->GetZLevels()); d.arr("zint", p->GetZInterfaces());
			d.arr("topo", p->GetTopography());
			d.arr("anode", p->GetANodes()); d.arr("bnode", p->GetBNodes());
			d.arr("jac2d", p->GetJacobian2D());
			d.arr("cm2a", p->GetContraMetric2DA()); d.arr("cm2b", p->GetContraMetric2DB());
		}
		if (what.find('G') != std::string::npos) {
			d.arr("aedge", p->GetAEdges()); d.arr("bedge", p->GetBEdges());
			d.arr("cov2a", p->GetCovMetric2DA()); d.arr("cov2b", p->GetCovMetric2DB());
			d.arr("jac", p->GetJacobian()); d.arr("jacE", p->GetJacobianREdge());
			d.arr("cma", p->GetContraMetricA()); d.arr("cmb", p->GetContraMetricB()); d.arr("cmx", p->GetContraMetricXi());
			d.arr("cmaE", p->GetContraMetricAREdge()); d.arr("cmbE", p->GetContraMetricBREdge()); d.arr("cmxE", p->GetContraMetricXiREdge());
			d.arr("drn", p->GetDerivRNode()); d.arr("dre", p->GetDerivRREdge());
			d.arr("topod", p->GetTopographyDeriv());
			d.arr("cor", p->GetCoriolisF());
		}
		if (what.find('l') != std::string::npos) {
			d.arr("rayn", p->GetRayleighStrength(DataLocation_Node)); d.arr("raye", p->GetRayleighStrength(DataLocation_REdge));
		}
		if (what.find('a') != std::string::npos) {
			d.arr("pressure", p->GetDataPressure()); d.arr("temperature", p->GetDataTemperature());
			d.arr("vort", p->GetDataVorticity()); d.arr("div", p->GetDataDivergence());
			d.arr("ps", p->GetDataSurfacePressure());
		}
		d.line("ENDPATCH");
	}
	if (Rank() == 0) {
		GridGLL * q = dynamic_cast<GridGLL *>(g);
		d.arr("retalev", g->GetREtaLevels()); d.arr("retaint", g->GetREtaInterfaces());
		d.arr("wlev", g->GetREtaLevelsNormArea()); d.arr("wint", g->GetREtaInterfacesNormArea());
		d.arr("slev", g->GetREtaStretchLevels()); d.arr("sint", g->GetREtaStretchInterfaces());
		if (q != NULL) d.arr("dxbasis", q->GetDxBasis1D());
	}
	d.line("END");
}

///////////////////////////////////////////////////////////////////////////////
// What the test case says at every point of every patch (physical variables), evaluated here: node, edge (state),
// refn, refe (reference state), trn (tracer densities), topo, rayn, raye
inline void DumpAnalytic(Grid * g, const VTestCase & tc, const Time & time, const std::string & prefix) {
	char buf[512];
	snprintf(buf, sizeof(buf), "%s.ana.%d.bin", prefix.c_str(), Rank());
	Dump d(buf);
	const PhysicalConstants & phys = g->GetModel().GetPhysicalConstants();
	size_t nc = g->GetModel().GetEquationSet().GetComponents(), nt = tc.tr.size();
	for (int n = 0; n < g->GetActivePatchCount(); n++) {
		GridPatch * p = g->GetActivePatch(n);
		const PatchBox & b = p->GetPatchBox();
		snprintf(buf, sizeof(buf), "PATCH %d panel %d A %d %d B %d %d halo %d proc %d", p->GetPatchIndex(), b.GetPanel(),
			b.GetAGlobalInteriorBegin(), b.GetAGlobalInteriorEnd(), b.GetBGlobalInteriorBegin(), b.GetBGlobalInteriorEnd(),
			b.GetHaloElements(), p->GetProcessor());
		d.line(buf);
		size_t nA = b.GetATotalWidth(), nB = b.GetBTotalWidth();
		for (int e = 0; e < 2; e++) {
			const DataArray3D<double> & z = e ? p->GetZInterfaces() : p->GetZLevels();
			size_t nk = g->GetRElements() + e;
			std::vector<double> s(nA * nB * nc * nk), r(nA * nB * nc * nk), t(nA * nB * nt * nk), q(nA * nB * nk), h(nA * nB), vo(nA * nB), di(nA * nB);
			for (size_t i = 0; i < nA; i++) for (size_t j = 0; j < nB; j++) {
				double x = p->GetLongitude()(i,j), y = p->GetLatitude()(i,j);
				h[i * nB + j] = tc.EvaluateTopography(phys, x, y);
				tc.VortDiv(phys, x, y, vo[i * nB + j], di[i * nB + j]);
				for (size_t k = 0; k < nk; k++) {
					double ps[5] = {0,0,0,0,0}, pr[5] = {0,0,0,0,0}, pt[16];
					double zz = z(i,j,k);
					tc.EvaluatePointwiseState(phys, time, zz, x, y, ps, pt);
					if (tc.HasReferenceState()) tc.EvaluateReferenceState(phys, zz, x, y, pr);
					size_t o = (i * nB + j) * nk + k;
					for (size_t c = 0; c < nc; c++) { s[c * nA * nB * nk + o] = ps[c]; r[c * nA * nB * nk + o] = pr[c]; }
					for (size_t c = 0; c < nt; c++) t[c * nA * nB * nk + o] = pt[c];
					q[o] = tc.EvaluateRayleighStrength(zz, x, y);
				}
			}
			size_t d4[4] = {nc, nA, nB, nk}, d3[3] = {nA, nB, nk}, d2[2] = {nA, nB};
			d.raw(e ? "redge" : "node", s.data(), s.size(), 4, d4);
			d.raw(e ? "refredge" : "refnode", r.data(), r.size(), 4, d4);
			d.raw(e ? "raye" : "rayn", q.data(), q.size(), 3, d3);
			if (!e) {
				d4[0] = nt; if (nt) d.raw("tracers", t.data(), t.size(), 4, d4);
				d.raw("topo", h.data(), h.size(), 2, d2); d.raw("vort", vo.data(), vo.size(), 2, d2); d.raw("div", di.data(), di.size(), 2, d2);
			}
		}
		d.line("ENDPATCH");
	}
	d.line("END");
}

///////////////////////////////////////////////////////////////////////////////
// a process called after every step
class StepProbe : public WorkflowProcess {
public:
	std::string prefix, what;
	int step, every;
	long calls;
	Model & mod;
	StepProbe(Model & m, const std::string & p, const std::string & w, int ev)
		: WorkflowProcess(m, Time(0, 0, 0, 1, 0, Time::CalendarNoLeap, Time::TypeDelta)), prefix(p), what(w), step(0), every(ev), calls(0), mod(m), tc(NULL) {}
	virtual bool IsReady(const Time & time) { return true; }
	VTestCase * tc;
	virtual void Initialize(const Time & t) {
		if (every > 0) DumpGrid(mod.GetGrid(), prefix, "0", what);
		if (tc != NULL) DumpAnalytic(mod.GetGrid(), *tc, mod.GetStartTime(), prefix);
	}
	virtual void Perform(const Time & time) {
		step++; calls++;
		if (every > 0 && step % every == 0) {
			char b[32]; snprintf(b, sizeof(b), "%d", step);
			DumpGrid(mod.GetGrid(), prefix, b, what);
		}
	}
};

} // namespace vp
#endif
