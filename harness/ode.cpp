// Time schemes driven by dynamics with known tendencies: every node carries a small system of ordinary differential
// equations with an explicit part F (given as horizontal and vertical explicit terms) and an implicit part G.
#include "vph.h"
#include "VerticalDynamicsFEM.h"
#include <algorithm>
using namespace vp;

static double cF = 1, cV = 1, cG = 1, cA = 0;    // switches: horizontal explicit, vertical explicit, implicit
static long nExpl = 0, nImpl = 0, nAfter = 0, nAlias = 0;

// unknowns at a node: u v theta rho q0 q1 (q0 obeys the same equation as rho); w on interfaces
static const int NU = 6;
static void FH(const double * y, double * f) {
	f[0] = 0.7 * y[1];
	f[1] = -0.7 * y[0] * (1.0 + 0.3 * y[3]);
	f[2] = 0.2 * y[0] * y[1] - 0.05 * y[2];
	f[3] = -0.3 * y[3] * y[2];
	f[4] = -0.3 * y[4] * y[2];
	f[5] = 0.25 * y[5] * (1.0 - 0.5 * y[5]) + 0.1 * y[0];
}
static void FV(const double * y, double * f) {
	f[0] = -0.15 * y[0] * y[2]; f[1] = 0.1 * y[0]; f[2] = 0.1 * y[1];
	f[3] = 0.2 * y[0] * y[3]; f[4] = 0.2 * y[0] * y[4]; f[5] = -0.2 * y[5] * y[1];
}
static void GI(const double * y, double * f) {
	f[0] = -0.4 * y[0]; f[1] = 0.3 - 0.2 * y[1]; f[2] = -0.35 * y[2] * y[2]; f[3] = -0.5 * y[3]; f[4] = -0.5 * y[4]; f[5] = 0.2 - 0.6 * y[5];
}
static void GSolve(double * y, double h) {
	y[0] /= 1 + 0.4 * h; y[1] = (y[1] + 0.3 * h) / (1 + 0.2 * h);
	double k = 0.35 * h; if (k != 0.0) y[2] = (-1 + sqrt(1 + 4 * k * y[2])) / (2 * k);
	y[3] /= 1 + 0.5 * h; y[4] /= 1 + 0.5 * h; y[5] = (y[5] + 0.2 * h) / (1 + 0.6 * h);
}
static double wFH(double w) { return 0.5 - 0.3 * w * w; }
static double wFV(double w) { return 0.1 * w; }
static double wG(double w) { return -0.6 * w; }

template <class OP> static void Each(Model & m, int ia, int iu, OP op) {
	Grid * g = m.GetGrid();
	for (int n = 0; n < g->GetActivePatchCount(); n++) {
		GridPatch * p = g->GetActivePatch(n);
		const PatchBox & b = p->GetPatchBox();
		DataArray4D<double> & an = p->GetDataState(ia, DataLocation_Node), & un = p->GetDataState(iu, DataLocation_Node);
		DataArray4D<double> & ar = p->GetDataState(ia, DataLocation_REdge), & ur = p->GetDataState(iu, DataLocation_REdge);
		DataArray4D<double> & at = p->GetDataTracers(ia), & ut = p->GetDataTracers(iu);
		for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++)
		for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
			for (int k = 0; k < g->GetRElements(); k++) {
				double a[NU] = {an(0,i,j,k), an(1,i,j,k), an(2,i,j,k), an(4,i,j,k), at(0,i,j,k), at(1,i,j,k)};
				double u[NU] = {un(0,i,j,k), un(1,i,j,k), un(2,i,j,k), un(4,i,j,k), ut(0,i,j,k), ut(1,i,j,k)};
				op.node(a, u);
				un(0,i,j,k) = u[0]; un(1,i,j,k) = u[1]; un(2,i,j,k) = u[2]; un(4,i,j,k) = u[3]; ut(0,i,j,k) = u[4]; ut(1,i,j,k) = u[5];
			}
			for (int k = 0; k <= g->GetRElements(); k++) {
				double u = ur(3,i,j,k); op.w(ar(3,i,j,k), u); ur(3,i,j,k) = u;
			}
		}
	}
}
struct OpF { double h; bool v;
	void node(const double * a, double * u) { double f[NU]; if (v) FV(a, f); else FH(a, f); for (int i = 0; i < NU; i++) u[i] += h * f[i]; }
	void w(double a, double & u) { u += h * (v ? wFV(a) : wFH(a)); } };
struct OpGx { double h;
	void node(const double * a, double * u) { double f[NU]; GI(a, f); for (int i = 0; i < NU; i++) u[i] += h * f[i]; }
	void w(double a, double & u) { u += h * wG(a); } };
struct OpGi { double h;
	void node(const double * a, double * u) { double y[NU]; for (int i = 0; i < NU; i++) y[i] = a[i]; GSolve(y, h); for (int i = 0; i < NU; i++) u[i] += y[i] - a[i]; }
	void w(double a, double & u) { u += a / (1 + 0.6 * h) - a; } };

struct OpSet { double c;
	void node(const double * a, double * u) { for (int i = 0; i < NU; i++) u[i] = c; }
	void w(double a, double & u) { u = c; } };
struct OpMul { double c;
	void node(const double * a, double * u) { for (int i = 0; i < NU; i++) u[i] *= c; }
	void w(double a, double & u) { u *= c; } };

class OdeH : public HorizontalDynamics {
public:
	OdeH(Model & m) : HorizontalDynamics(m) {}
	virtual void StepExplicit(int ia, int iu, const Time & t, double dt) { nExpl++; OpF o = {dt * cF, false}; Each(m_model, ia, iu, o); }
	virtual void StepAfterSubCycle(int ia, int iu, int iw, const Time & t, double dt) {
		nAfter++;
		if (ia == iw || iu == iw) nAlias++;
		m_model.GetGrid()->CopyData(ia, iu, DataType_State);
		m_model.GetGrid()->CopyData(ia, iu, DataType_Tracers);
		if (ia != iw && iu != iw) { OpSet s = {-3.25}; Each(m_model, ia, iw, s); }   // scratch space is overwritten
		if (cA != 0.0) { OpMul o = {exp(-cA * dt)}; Each(m_model, ia, iu, o); }
	}
};
class OdeV : public VerticalDynamicsFEM {
public:
	OdeV(Model & m, bool ex) : VerticalDynamicsFEM(m, 4, 1, 0, ex, false, false) {}
	virtual void Initialize() {}
	virtual void StepExplicit(int ia, int iu, const Time & t, double dt) { nExpl++; OpF o = {dt * cV, true}; Each(m_model, ia, iu, o); }
	virtual void StepImplicitTermsExplicitly(int ia, int iu, const Time & t, double dt) { nImpl++; OpGx o = {dt * cG}; Each(m_model, ia, iu, o); }
	virtual void StepImplicit(int ia, int iu, const Time & t, double dt) { nImpl++; OpGi o = {dt * cG}; Each(m_model, ia, iu, o); }
	virtual void FilterNegativeTracers(int) {}
};

static void Rhs(const double * y, double * f) {
	double a[NU], b[NU], c[NU]; FH(y, a); FV(y, b); GI(y, c);
	for (int i = 0; i < NU; i++) f[i] = cF * a[i] + cV * b[i] + cG * c[i];
	f[NU] = cF * wFH(y[NU]) + cV * wFV(y[NU]) + cG * wG(y[NU]);
}
static void Exact(double * y, double T) {
	int N = 4000; double h = T / N;
	for (int n = 0; n < N; n++) {
		double k1[NU+1], k2[NU+1], k3[NU+1], k4[NU+1], z[NU+1];
		Rhs(y, k1);
		for (int i = 0; i <= NU; i++) z[i] = y[i] + 0.5 * h * k1[i]; Rhs(z, k2);
		for (int i = 0; i <= NU; i++) z[i] = y[i] + 0.5 * h * k2[i]; Rhs(z, k3);
		for (int i = 0; i <= NU; i++) z[i] = y[i] + h * k3[i]; Rhs(z, k4);
		for (int i = 0; i <= NU; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
	}
}

int main(int argc, char ** argv) {
	TempestInitialize(&argc, &argv);
	try {
		Args a(argc, argv);
		AnnounceOnlyOutputOnRankZero();
		EquationSet eqn(EquationSet::PrimitiveNonhydrostaticEquations);
		eqn.InsertTracer("Q0", "Q0"); eqn.InsertTracer("Q1", "Q1");
		UserDataMeta meta;
		Model model(eqn, meta);
		_TempestCommandLineVariables v;
		Args b = a; b.m["eq"] = "nh"; b.m["grid"] = "xy";
		FillVars(b, v);
		v.strHorizontalDynamics = "-";      // not a method: the set-up stops there, after the time scheme
		try { _TempestSetupMethodOfLines(model, v); } catch (Exception & e) {
			if (model.GetTimestepScheme() == NULL) { printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout); exit(9); }
		}
		model.SetHorizontalDynamics(new OdeH(model));
		model.SetVerticalDynamics(new OdeV(model, a.str("scheme") == "spex"));
		double d[6] = {0, 1, 0, 1, 0, a.num("ztop", 1.0)}; int bc[4] = {0, 0, 0, 0};
		for (int i = 0; i < 4; i++) bc[i] = Grid::BoundaryCondition_Periodic;
		GridCartesianGLL * g = new GridCartesianGLL(model);
		g->DefineParameters();
		g->SetParameters(3, 1, 2, 2, 4, 3, 1, d, 0.0, bc, false, Grid::VerticalDiscretization_FiniteElement, Grid::VerticalStaggering_Lorenz);
		g->InitializeDataLocal();
		model.SetGrid(g, 1);
		GridPatch * p = g->GetActivePatch(0);
		const PatchBox & box = p->GetPatchBox();
		DataArray4D<double> & n0 = p->GetDataState(0, DataLocation_Node), & r0 = p->GetDataState(0, DataLocation_REdge), & t0 = p->GetDataTracers(0);
		int nk = g->GetRElements();
		std::vector<double> init, fin;
		const char * modes[] = {"expl", "expv", "impl", "ev", "hi", "full", "zero", "after"};
		double sw[8][3] = {{1,0,0},{0,1,0},{0,0,1},{1,1,0},{1,0,1},{1,1,1},{0,0,0},{0,0,0}};
		double T = a.num("T", 4.0);
		int seed = a.integer("seed", 1);
		std::vector<std::string> ns = Split(a.str("N", "8,16,32,64"), ',');
		printf("\n");
		for (int md = 0; md < 8; md++) {
			cF = sw[md][0]; cV = sw[md][1]; cG = sw[md][2]; cA = (md == 7) ? 0.3 : 0.0;
			for (size_t q = 0; q < ns.size(); q++) {
				int N = atoi(ns[q].c_str());
				// smooth periodic initial data, with scalars of order one
				Field f = Field::Box(seed, 1, 1.0, 1.0, false);
				DataArray2D<double> lon, lat;
				const DataArray2D<double> & X = p->GetLongitude(), & Y = p->GetLatitude();
				// make sure stale data of other instances cannot help: fill them with different values
				for (int ix = 1; ix < model.GetComponentDataInstances(); ix++)
				for (int i = 0; i < n0.GetSize(1); i++) for (int j = 0; j < n0.GetSize(2); j++) {
					for (int k = 0; k < nk; k++) {
						for (int c = 0; c < 5; c++) p->GetDataState(ix, DataLocation_Node)(c, i, j, k) = 1.7 + ix + c;
						if (p->GetDataTracers(ix).IsAttached()) for (int c = 0; c < 2; c++) p->GetDataTracers(ix)(c, i, j, k) = 2.7 + ix;
					}
					for (int k = 0; k <= nk; k++) for (int c = 0; c < 5; c++) p->GetDataState(ix, DataLocation_REdge)(c, i, j, k) = 1.2 + ix;
				}
				for (int i = 0; i < n0.GetSize(1); i++) for (int j = 0; j < n0.GetSize(2); j++) {
					double s = f.val(X(i, j), Y(i, j));
					for (int k = 0; k < nk; k++) {
						n0(0,i,j,k) = 0.9 + 0.2 * s; n0(1,i,j,k) = -0.4 + 0.1 * s + 0.05 * k; n0(2,i,j,k) = 0.8 + 0.2 * s; n0(3,i,j,k) = 0.3;
						n0(4,i,j,k) = 1.1 - 0.2 * s; t0(0,i,j,k) = n0(4,i,j,k); t0(1,i,j,k) = 0.5 + 0.3 * s;
					}
					for (int k = 0; k <= nk; k++) { for (int c = 0; c < 5; c++) r0(c,i,j,k) = 1.0; r0(3,i,j,k) = 0.2 + 0.3 * s + 0.1 * k; }
				}
				std::vector<double> y0;
				for (int i = box.GetAInteriorBegin(); i < box.GetAInteriorEnd(); i++) for (int j = box.GetBInteriorBegin(); j < box.GetBInteriorEnd(); j++)
				for (int k = 0; k < nk; k++) {
					double y[NU+1] = {n0(0,i,j,k), n0(1,i,j,k), n0(2,i,j,k), n0(4,i,j,k), t0(0,i,j,k), t0(1,i,j,k), r0(3,i,j,k)};
					for (int c = 0; c <= NU; c++) y0.push_back(y[c]);
				}
				double h = T / N;
				long e0 = nExpl, i0 = nImpl, a0 = nAfter;
				Time t(2000, 1, 1, 0, 0);
				for (int n = 0; n < N; n++) {
					model.GetTimestepScheme()->Step(n == 0, n == N - 1, t, h);
				}
				double err[NU+1], chg[NU+1]; for (int c = 0; c <= NU; c++) err[c] = chg[c] = 0;
				double same = 0;
				size_t z = 0; long cnt = 0;
				for (int i = box.GetAInteriorBegin(); i < box.GetAInteriorEnd(); i++) for (int j = box.GetBInteriorBegin(); j < box.GetBInteriorEnd(); j++)
				for (int k = 0; k < nk; k++) {
					double y[NU+1] = {n0(0,i,j,k), n0(1,i,j,k), n0(2,i,j,k), n0(4,i,j,k), t0(0,i,j,k), t0(1,i,j,k), r0(3,i,j,k)};
					double x[NU+1]; for (int c = 0; c <= NU; c++) x[c] = y0[z + c];
					for (int c = 0; c <= NU; c++) chg[c] = std::max(chg[c], fabs(y[c] - x[c]));
					if (md < 6) Exact(x, T);
					if (md == 7) for (int c = 0; c <= NU; c++) x[c] *= exp(-cA * T);
					for (int c = 0; c <= NU; c++) { double e = fabs(y[c] - x[c]); if (!(e <= err[c])) err[c] = e; }
					double s = fabs(y[3] - y[4]); if (!(s <= same)) same = s;
					z += NU + 1; cnt++;
				}
				printf("@J {\"mode\": \"%s\", \"N\": %d, \"nodes\": %ld, \"expl\": %ld, \"impl\": %ld, \"after\": %ld, \"alias\": %ld, \"same\": %.6g, \"err\": [", modes[md], N, cnt, nExpl - e0, nImpl - i0, nAfter - a0, nAlias, same);
				for (int c = 0; c <= NU; c++) printf("%s%.6g", c ? ", " : "", err[c]);
				printf("], \"chg\": [");
				for (int c = 0; c <= NU; c++) printf("%s%.6g", c ? ", " : "", chg[c]);
				printf("]}\n");
			}
		}
		printf("@END\n");
	} catch (Exception & e) { printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout); exit(9); }
	fflush(stdout);
	TempestDeinitialize();
	return 0;
}
