// Command-line options. The argument vector is parsed by the model's own macros; the environment variable VPO holds
// this program's own settings (key=value;...). mode=parse prints every variable; mode=run sets the model up from the
// options and runs it; mode=ref builds the same model directly from VPO, bypassing the option handling.
#include "vph.h"
using namespace vp;

static Setup Base(const Args & a) {
	Setup s;
	bool sw = (a.str("eq", "nh") == "sw");
	s.eqn = new EquationSet(sw ? EquationSet::ShallowWaterEquations : EquationSet::PrimitiveNonhydrostaticEquations);
	s.tc = new VTestCase(a);
	for (size_t i = 0; i < s.tc->tr.size(); i++) { std::stringstream ss; ss << "Q" << i; s.eqn->InsertTracer(ss.str(), ss.str() + "_full"); }
	s.model = new Model(*s.eqn, s.meta);
	return s;
}

static TimestepScheme * Scheme(Model & m, const std::string & s) {
	if (s == "strang") return new TimestepSchemeStrang(m);
	if (s == "strang/fe") return new TimestepSchemeStrang(m, 0.0, TimestepSchemeStrang::ForwardEuler);
	if (s == "strang/rk4") return new TimestepSchemeStrang(m, 0.0, TimestepSchemeStrang::RungeKutta4);
	if (s == "strang/rk3") return new TimestepSchemeStrang(m, 0.0, TimestepSchemeStrang::RungeKuttaSSP3);
	if (s == "strang/kgu35") return new TimestepSchemeStrang(m, 0.0, TimestepSchemeStrang::KinnmarkGrayUllrich35);
	if (s == "strang/ssprk53") return new TimestepSchemeStrang(m, 0.0, TimestepSchemeStrang::RungeKuttaSSPRK53);
	if (s == "erk") return new TimestepSchemeERK(m);
	if (s == "erk/fe") return new TimestepSchemeERK(m, TimestepSchemeERK::ForwardEuler);
	if (s == "erk/rk4") return new TimestepSchemeERK(m, TimestepSchemeERK::RungeKutta4);
	if (s == "erk/rk3") return new TimestepSchemeERK(m, TimestepSchemeERK::RungeKuttaSSP3);
	if (s == "erk/kgu35") return new TimestepSchemeERK(m, TimestepSchemeERK::KinnmarkGrayUllrich35);
	if (s == "erk/ssprk53") return new TimestepSchemeERK(m, TimestepSchemeERK::RungeKuttaSSPRK53);
	if (s == "ars222") return new TimestepSchemeARS222(m);
	if (s == "ars232") return new TimestepSchemeARS232(m);
	if (s == "ark232") return new TimestepSchemeARK232(m);
	if (s == "gark2") return new TimestepSchemeGARK2(m);
	if (s == "ars343") return new TimestepSchemeARS343(m);
	if (s == "ars343b") return new TimestepSchemeARS343b(m);
	if (s == "ars443") return new TimestepSchemeARS443(m);
	if (s == "ssp3_332") return new TimestepSchemeSSP3332(m);
	fprintf(stderr, "scheme?\n"); exit(70);
}

static Setup Ref(const Args & a) {
	Setup s = Base(a); Model & m = *s.model;
	bool sw = (a.str("eq", "nh") == "sw");
	int order = a.integer("order", 4), vorder = a.integer("vorder", 1), lev = a.integer("levels", sw ? 1 : 6);
	m.SetDeltaT(DTime(a.str("dt"))); m.SetEndTime(FTime(a.str("end")));
	m.SetTimestepScheme(Scheme(m, a.str("scheme", "strang")));
	bool nohv = a.integer("nohv", 0);
	double nu = nohv ? 0 : a.num("nu", 1e15), nud = nohv ? 0 : a.num("nud", 1e15), nuv = nohv ? 0 : a.num("nuv", 1e15);
	if (a.str("hmethod", "v1") == "v1") m.SetHorizontalDynamics(new HorizontalDynamicsFEM(m, order, a.integer("hvorder", 4), nu, nud, nuv, a.num("inud", 0)));
	else m.SetHorizontalDynamics(new HorizontalDynamicsFEMV2(m, order, a.integer("hvorder", 4), nu, nud, nuv, a.num("inud", 0)));
	if (lev == 1 || a.str("vmethod", "v1") == "none") m.SetVerticalDynamics(new VerticalDynamicsStub(m));
	else m.SetVerticalDynamics(new VerticalDynamicsFEM(m, order, vorder, a.integer("vhv", 0), a.integer("expvert", 0) != 0, a.integer("norefstate", 0) == 0, a.integer("mflev", 0) != 0));
	std::string st = a.str("stagger", "lor");
	Grid::VerticalStaggering e = (st == "lev") ? Grid::VerticalStaggering_Levels : (st == "int") ? Grid::VerticalStaggering_Interfaces
		: (st == "lor") ? Grid::VerticalStaggering_Lorenz : Grid::VerticalStaggering_CharneyPhillips;
	Grid::VerticalDiscretization vd = (a.str("vdisc", "fe") == "fv") ? Grid::VerticalDiscretization_FiniteVolume : Grid::VerticalDiscretization_FiniteElement;
	Grid * g;
	if (a.str("grid", "cs") == "cs") {
		GridCSGLL * p = new GridCSGLL(m); p->DefineParameters();
		p->SetParameters(lev, 6, a.integer("ne", 4), 4, order, vorder, vd, e); g = p;
	} else {
		double d[6]; int bc[4]; BoxDims(a, d, bc);
		GridCartesianGLL * p = new GridCartesianGLL(m); p->DefineParameters();
		p->SetParameters(lev, 1, a.integer("ne", 4), a.integer("ney", 2), 4, order, vorder, d, a.num("reflat", 0.0), bc, a.str("grid") == "xz", vd, e); g = p;
	}
	g->InitializeDataLocal();
	if (a.str("stretch", "uniform") == "cubic") g->SetVerticalStretchFunction(new VerticalStretchCubic);
	if (a.str("stretch", "uniform") == "pwlinear") g->SetVerticalStretchFunction(new VerticalStretchPiecewiseLinear);
	m.SetGrid(g);
	return s;
}

static void Show(const char * n, bool v) { printf("@O %s bool %d\n", n, (int)v); }
static void Show(const char * n, int v) { printf("@O %s int %d\n", n, v); }
static void Show(const char * n, double v) { printf("@O %s double %.17g\n", n, v); }
static void Show(const char * n, const std::string & v) { printf("@O %s string %s\n", n, v.c_str()); }
static void Show(const char * n, const Time & v) { printf("@O %s time %s|%d\n", n, v.ToFreeString().c_str(), (int)v.GetTimeType()); }

int main(int argc, char ** argv) {
	int rc = 0;
	TempestInitialize(&argc, &argv);
	try {
		Args a;
		{ std::vector<std::string> kv = Split(std::getenv("VPO") ? std::getenv("VPO") : "", ';');
		  for (size_t i = 0; i < kv.size(); i++) { size_t p = kv[i].find('='); if (p != std::string::npos) a.m[kv[i].substr(0, p)] = kv[i].substr(p + 1); } }
		std::string mode = a.str("mode", "parse");
		Setup s;
		if (mode == "ref") {
			s = Ref(a);
			s.model->SetTestCase(s.tc);
			s.model->Go();
			DumpGrid(s.model->GetGrid(), a.str("dump"), "final", "stG");
		} else {
			bool cs = (a.str("grid", "cs") == "cs"), fUser; double dUser; int iUser; std::string strUser; Time timeUser;
			BeginTempestCommandLine("VP")
				if (cs) { SetDefaultResolution(4); } else { SetDefaultResolutionX(4); SetDefaultResolutionY(2); }
				SetDefaultLevels(6);
				SetDefaultOutputDeltaT("7200s");
				SetDefaultDeltaT("60s");
				SetDefaultEndTime("120s");
				SetDefaultHorizontalOrder(4);
				SetDefaultVerticalOrder(1);
				CommandLineBool(fUser, "ubool");
				CommandLineDouble(dUser, "udouble", -2.5);
				CommandLineInt(iUser, "uint", 17);
				CommandLineString(strUser, "ustring", "some text");
				CommandLineFixedTime(timeUser, "utime", "2001-02-03");
				ParseCommandLine(argc, argv);
			EndTempestCommandLine(argv)
			_TempestCommandLineVariables & v = _tempestvars;
			if (Rank() == 0) {
				Show("output_none", v.fNoOutput); Show("output_dir", v.strOutputDir); Show("output_prefix", v.strOutputPrefix); Show("restart_file", v.strRestartFile);
				Show("perturb_restart", v.fRestartPerturbation); Show("output_perfile", v.nOutputsPerFile); Show("output_restart_dt", v.timeOutputRestartDeltaT);
				Show("output_x", v.nOutputResX); Show("output_y", v.nOutputResY); Show("output_z", v.nOutputResZ); Show("output_vort", v.fOutputVorticity);
				Show("output_div", v.fOutputDivergence); Show("output_temp", v.fOutputTemperature); Show("output_ps", v.fOutputSurfacePressure); Show("output_Ri", v.fOutputRichardson);
				Show("norefstate", v.fNoReferenceState); Show("notracers", v.fNoTracers); Show("nohypervis", v.fNoHyperviscosity); Show("hypervisorder", v.nHyperviscosityOrder);
				Show("nu", v.dNuScalar); Show("nud", v.dNuDiv); Show("nuv", v.dNuVort); Show("inud", v.dInstepNuDiv); Show("explicitvertical", v.fExplicitVertical);
				Show("vstagger", v.strVerticalStaggering); Show("vdisc", v.strVerticalDiscretization); Show("vmassfluxlevels", v.fForceMassFluxOnLevels); Show("vstretch", v.strVerticalStretch);
				Show("vhypervisorder", v.nVerticalHyperdiffOrder); Show("timescheme", v.strTimestepScheme); Show("hmethod", v.strHorizontalDynamics); Show("vmethod", v.strVerticalDynamics);
				Show(cs ? "resolution" : "resx", v.nResolutionX); if (!cs) Show("resy", v.nResolutionY);
				Show("levels", v.nLevels); Show("outputtime", v.timeOutputDeltaT); Show("dt", v.timeDeltaT); Show("endtime", v.timeEndTime);
				Show("order", v.nHorizontalOrder); Show("vertorder", v.nVerticalOrder);
				Show("ubool", fUser); Show("udouble", dUser); Show("uint", iUser); Show("ustring", strUser); Show("utime", timeUser);
				fflush(stdout);
			}
			if (mode == "run") {
				s = Base(a); Model & model = *s.model;
				if (cs) { TempestSetupCubedSphereModel(model) }
				else { double d[6]; int bc[4]; BoxDims(a, d, bc); TempestSetupCartesianModel(model, d, a.num("reflat", 0.0), bc, a.str("grid") == "xz") }
				model.SetTestCase(s.tc);
				model.Go();
				DumpGrid(model.GetGrid(), a.str("dump"), "final", "stG");
			}
		}
		if (Rank() == 0) { if (s.model) printf("@TIME %s\n", s.model->GetCurrentTime().ToString().c_str()); printf("@END\n"); fflush(stdout); }
		delete s.model; // closes output files
	} catch (Exception & e) {
		printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout);
		rc = 9; MPI_Abort(MPI_COMM_WORLD, 9);
	}
	fflush(stdout);
	TempestDeinitialize();
	return rc;
}
