// A model set up as for a run (all of Model::Go's preparation included); then, instead of the time loop, a list of
// operations on the real dynamics and grid, ops=op;op;...   Each op is name:arg:arg...
#include "vph.h"
#include "chaos.h"
#include "HeldSuarezPhysics.h"
using namespace vp;

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static double hsym(uint64_t seed, uint64_t p, uint64_t c, uint64_t A, uint64_t B, uint64_t k) {
	uint64_t h = mix(seed * 0x9E3779B97F4A7C15ULL + 1); h = mix(h ^ (p + 17)); h = mix(h ^ (c * 1315423911ULL)); h = mix(h ^ (A * 2654435761ULL)); h = mix(h ^ (B * 97531ULL + 5)); h = mix(h ^ (k * 7919ULL + 3));
	return 2.0 * ((h >> 11) * (1.0 / 9007199254740992.0)) - 1.0;
}

struct Runner : public WorkflowProcess {
	Model & mod; Args a; std::string prefix;
	Runner(Model & m, const Args & a_) : WorkflowProcess(m, Time(0, 0, 0, 1, 0, Time::CalendarNoLeap, Time::TypeDelta)), mod(m), a(a_), prefix(a_.str("dump", "d")) {}
	virtual bool IsReady(const Time & t) { return false; }
	virtual void Perform(const Time & t) {}

	// gmax[loc][c]: largest absolute value of each component over the grid
	double GlobalMax(double v) { double r = v; MPI_Allreduce(&v, &r, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); return r; }

	void Random(int ix, int seed, double amp, bool set, double floor, int only) {
		Grid * g = mod.GetGrid();
		int nT = mod.GetEquationSet().GetTracers();
		for (int what = 0; what < 3; what++) {
			if (what == 2 && (nT == 0 || ix >= mod.GetTracerDataInstances())) continue;
			int nC = (what == 2) ? nT : mod.GetEquationSet().GetComponents();
			for (int c = 0; c < nC; c++) {
				if (only >= 0 && c != only && what < 2) continue;
				double mx = 0;
				for (int pass = 0; pass < 2; pass++) {
					for (int n = 0; n < g->GetActivePatchCount(); n++) {
						GridPatch * p = g->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
						DataArray4D<double> & x = (what == 2) ? p->GetDataTracers(ix) : p->GetDataState(ix, what == 0 ? DataLocation_Node : DataLocation_REdge);
						for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++)
						for (int k = 0; k < (int)x.GetSize(3); k++) {
							if (pass == 0) { if (fabs(x(c, i, j, k)) > mx) mx = fabs(x(c, i, j, k)); }
							else {
								double h = hsym(seed, b.GetPanel(), c + 50 * what, b.GetAGlobalInteriorBegin() + i - b.GetAInteriorBegin(), b.GetBGlobalInteriorBegin() + j - b.GetBInteriorBegin(), k);
								double s = amp * (mx > floor ? mx : floor) * h;
								x(c, i, j, k) = set ? s : x(c, i, j, k) + s;
							}
						}
					}
					if (pass == 0) mx = GlobalMax(mx);
				}
			}
		}
	}
	void ForAllTracers(int ix, int c, double v) {
		Grid * g = mod.GetGrid();
		for (int n = 0; n < g->GetActivePatchCount(); n++) {
			DataArray4D<double> & x = g->GetActivePatch(n)->GetDataTracers(ix);
			for (size_t i = 0; i < x.GetSize(1); i++) for (size_t j = 0; j < x.GetSize(2); j++) for (size_t k = 0; k < x.GetSize(3); k++) x(c, i, j, k) = v;
		}
	}
	void Poke(int ix, int panel, int A, int B, int loc, int c, int k, double v, bool add) {
		Grid * g = mod.GetGrid();
		for (int n = 0; n < g->GetActivePatchCount(); n++) {
			GridPatch * p = g->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
			if (b.GetPanel() != panel) continue;
			int i = A - b.GetAGlobalInteriorBegin(), j = B - b.GetBGlobalInteriorBegin();
			if (i < 0 || j < 0 || A >= b.GetAGlobalInteriorEnd() || B >= b.GetBGlobalInteriorEnd()) continue;
			i += b.GetAInteriorBegin(); j += b.GetBInteriorBegin();
			DataArray4D<double> & x = (loc == 2) ? p->GetDataTracers(ix) : p->GetDataState(ix, loc == 0 ? DataLocation_Node : DataLocation_REdge);
			x(c, i, j, k) = add ? x(c, i, j, k) + v : v;
		}
	}
	// set the state of instance ix to explicit values read from a file: lines "panel A B loc c k value" (hex or decimal)
	void Load(int ix, const std::string & path) {
		Grid * g = mod.GetGrid();
		FILE * f = fopen(path.c_str(), "rb");
		if (f == NULL) { fprintf(stderr, "no %s\n", path.c_str()); exit(70); }
		double v[7];
		while (fread(v, sizeof(double), 7, f) == 7) Poke(ix, (int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], v[6], false);
		fclose(f);
	}
	// whole-array load: for each location the file holds a panel-major dense array [panel][c][A][B][k]
	void LoadDense(int ix, int loc, int npan, int nA, int nB, const std::string & path) {
		Grid * g = mod.GetGrid();
		FILE * f = fopen(path.c_str(), "rb");
		if (f == NULL) { fprintf(stderr, "no %s\n", path.c_str()); exit(70); }
		fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
		std::vector<double> v(sz / 8);
		if (fread(v.data(), 8, v.size(), f) != v.size()) exit(70);
		fclose(f);
		for (int n = 0; n < g->GetActivePatchCount(); n++) {
			GridPatch * p = g->GetActivePatch(n); const PatchBox & b = p->GetPatchBox();
			DataArray4D<double> & x = (loc == 2) ? p->GetDataTracers(ix) : p->GetDataState(ix, loc == 0 ? DataLocation_Node : DataLocation_REdge);
			size_t nC = x.GetSize(0), nK = x.GetSize(3);
			if (v.size() != (size_t)npan * nC * nA * nB * nK) { fprintf(stderr, "size of %s\n", path.c_str()); exit(70); }
			for (size_t c = 0; c < nC; c++) for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) for (size_t k = 0; k < nK; k++) {
				size_t A = b.GetAGlobalInteriorBegin() + i - b.GetAInteriorBegin(), B = b.GetBGlobalInteriorBegin() + j - b.GetBInteriorBegin();
				x(c, i, j, k) = v[((((size_t)b.GetPanel() * nC + c) * nA + A) * nB + B) * nK + k];
			}
		}
	}
	void Clean(int ix) {}

	virtual void Initialize(const Time & time) {
		Grid * g = mod.GetGrid();
		GridGLL * q = dynamic_cast<GridGLL *>(g);
		HorizontalDynamics * h = mod.GetHorizontalDynamics();
		VerticalDynamics * v = mod.GetVerticalDynamics();
		std::vector<std::string> ops = Split(a.str("ops"), ';');
		for (size_t o = 0; o < ops.size(); o++) {
			std::vector<std::string> w = Split(ops[o], ':');
			while (w.size() < 10) w.push_back("");
			const std::string & n = w[0];
			int i1 = atoi(w[1].c_str()), i2 = atoi(w[2].c_str()), i3 = atoi(w[3].c_str());
			double d3 = strtod(w[3].c_str(), NULL), d4 = strtod(w[4].c_str(), NULL);
			if (n == "dump") DumpGrid(g, prefix, w[1], w[3].empty() ? std::string("st") : w[3], i2);
			else if (n == "rand") Random(i1, i2, d3, w[4] == "set", w[5].empty() ? 0.0 : strtod(w[5].c_str(), NULL), w[6].empty() ? -1 : atoi(w[6].c_str()));
			else if (n == "dss") {
				DataType t = (w[1] == "S") ? DataType_State : (w[1] == "T") ? DataType_Tracers : (w[1] == "V") ? DataType_Vorticity : DataType_Divergence;
				q->ApplyDSS(i2, t);
			}
			else if (n == "post") g->PostProcessSubstage(i2, w[1] == "T" ? DataType_Tracers : DataType_State);
			else if (n == "hexp") h->StepExplicit(i1, i2, time, d3);
			else if (n == "vexp") v->StepExplicit(i1, i2, time, d3);
			else if (n == "vfexp") v->ForceStepExplicit(i1, i2, time, d3);
			else if (n == "vimp") v->StepImplicit(i1, i2, time, d3);
			else if (n == "vite") v->StepImplicitTermsExplicitly(i1, i2, time, d3);
			else if (n == "hafter") h->StepAfterSubCycle(i1, i2, i3, time, d4);
			else if (n == "vafter") v->StepAfterSubCycle(i1, i2, i3, time, d4);
			else if (n == "vfilt") v->FilterNegativeTracers(i1);
			else if (n == "copy") { g->CopyData(i1, i2, DataType_State); if (mod.GetEquationSet().GetTracers() > 0 && i1 < mod.GetTracerDataInstances() && i2 < mod.GetTracerDataInstances()) g->CopyData(i1, i2, DataType_Tracers); }
			else if (n == "zero") { g->ZeroData(i1, DataType_State); if (mod.GetEquationSet().GetTracers() > 0 && i1 < mod.GetTracerDataInstances()) g->ZeroData(i1, DataType_Tracers); }
			else if (n == "addref") g->AddReferenceState(i1);
			else if (n == "eval") {
				Args b = a;
				std::vector<std::string> kv = Split(w[2], '&');
				for (size_t z = 0; z < kv.size(); z++) { size_t e = kv[z].find('='); if (e != std::string::npos) b.m[kv[z].substr(0, e)] = kv[z].substr(e + 1); }
				VTestCase tc(b);
				for (int z = 0; z < g->GetActivePatchCount(); z++) g->GetActivePatch(z)->EvaluateTestCase(tc, time, i1);
			}
			else if (n == "wfix") { // physical vertical velocity -> covariant components of the whole velocity
				for (int z = 0; z < g->GetActivePatchCount(); z++) {
					GridPatch * p = g->GetActivePatch(z);
					DataArray4D<double> & x = p->GetDataState(i1, DataLocation_Node), & y = p->GetDataState(i1, DataLocation_REdge);
					const DataArray4D<double> & dn = p->GetDerivRNode(), & de = p->GetDerivRREdge();
					for (size_t i = 0; i < x.GetSize(1); i++) for (size_t j = 0; j < x.GetSize(2); j++) {
						for (size_t k = 0; k < x.GetSize(3); k++) { double wv = x(3, i, j, k); x(0, i, j, k) += wv * dn(i, j, k, 0); x(1, i, j, k) += wv * dn(i, j, k, 1); x(3, i, j, k) = wv * dn(i, j, k, 2); }
						for (size_t k = 0; k < y.GetSize(3); k++) { double wv = y(3, i, j, k); y(0, i, j, k) += wv * de(i, j, k, 0); y(1, i, j, k) += wv * de(i, j, k, 1); y(3, i, j, k) = wv * de(i, j, k, 2); }
					}
				}
			}
			else if (n == "lin") { // lin:out:c0,c1,...
				std::vector<std::string> cs = Split(w[2], ',');
				DataArray1D<double> co(cs.size());
				for (size_t z = 0; z < cs.size(); z++) co[z] = strtod(cs[z].c_str(), NULL);
				g->LinearCombineData(co, i1, DataType_State);
				if (w[3] == "T") g->LinearCombineData(co, i1, DataType_Tracers);
			}
			else if (n == "n2r") g->InterpolateNodeToREdge(i1, i2);
			else if (n == "r2n") g->InterpolateREdgeToNode(i1, i2);
			else if (n == "vd") g->ComputeVorticityDivergence(i1);
			else if (n == "ana") { VTestCase tc(a); DumpAnalytic(g, tc, time, prefix); }
			else if (n == "press") g->ComputePressure(i1);
			else if (n == "temp") g->ComputeTemperature(i1);
			else if (n == "ps") g->ComputeSurfacePressure(i1);
			else if (n == "ri") g->ComputeRichardson(i1);
			else if (n == "cs") { // cs:type:ix
				for (int t = 0; t < 4; t++) for (int d = 0; d < 2; d++) {
					if (d == 1 && mod.GetEquationSet().GetTracers() == 0) continue;
					if (d == 1 && i2 >= mod.GetTracerDataInstances()) continue;
					ChecksumType ct = (t == 0) ? ChecksumType_Sum : (t == 1) ? ChecksumType_L1 : (t == 2) ? ChecksumType_L2 : ChecksumType_Linf;
					DataArray1D<double> r;
					g->Checksum(d ? DataType_Tracers : DataType_State, r, i2, ct);
					if (Rank() == 0) { printf("\n@CS %s %d %d", w[1].c_str(), d, t); for (size_t c = 0; c < r.GetRows(); c++) printf(" %.17g", r[c]); printf("\n"); }
				}
			}
			else if (n == "hs") { // hs:interval  one application of the Held-Suarez forcing
				Time f; f.FromFormattedString(w[1]);
				HeldSuarezPhysics hs(mod, f); hs.Initialize(time); hs.Perform(time);
			}
			else if (n == "energy") {
				double e = g->ComputeTotalEnergy(i2), s = g->ComputeTotalPotentialEnstrophy(i2), m = (mod.GetEquationSet().GetType() == EquationSet::ShallowWaterEquations) ? 0.0 : g->ComputeTotalVerticalMomentum(i2);
				if (Rank() == 0) printf("\n@EN %s %.17g %.17g %.17g\n", w[1].c_str(), e, s, m);
			}
			else if (n == "poke") Poke(i1, i2, i3, atoi(w[4].c_str()), atoi(w[5].c_str()), atoi(w[6].c_str()), atoi(w[7].c_str()), strtod(w[8].c_str(), NULL), w[9] == "add");
			else if (n == "trset") ForAllTracers(i1, i2, d3);
			else if (n == "load") Load(i1, w[2]);
			else if (n == "loadd") LoadDense(i1, i2, i3, atoi(w[4].c_str()), atoi(w[5].c_str()), w[6]);
			else if (n == "step") { // step:n:dt  n steps of the time scheme itself
				Time t = time;
				for (int z = 0; z < i1; z++) mod.GetTimestepScheme()->Step(z == 0, z == i1 - 1, t, strtod(w[2].c_str(), NULL));
			}
			else if (n == "exch") g->Exchange(w[1] == "T" ? DataType_Tracers : DataType_State, i2);
			else { fprintf(stderr, "unknown op %s\n", n.c_str()); exit(71); }
		}
		throw 42;
	}
};

int main(int argc, char ** argv) {
	int rc = 0;
	TempestInitialize(&argc, &argv);
	try {
		Args a(argc, argv);
		AnnounceOnlyOutputOnRankZero();
		Setup s = MakeModel(a);
		if (a.integer("chaos", 0)) vpc::init(a.integer("chaos", 0), a.integer("seed", 1));
		s.model->AttachWorkflowProcess(new Runner(*s.model, a));
		if (Rank() == 0) printf("\n@INST %d %d\n", s.model->GetComponentDataInstances(), s.model->GetTracerDataInstances());
		const PhysicalConstants & ph = s.model->GetPhysicalConstants();
		if (Rank() == 0) printf("\n@PHYS R=%.17g omega=%.17g g=%.17g Rd=%.17g cp=%.17g p0=%.17g cv=%.17g\n", ph.GetEarthRadius(), ph.GetOmega(), ph.GetG(), ph.GetR(), ph.GetCp(), ph.GetP0(), ph.GetCv());
		if (Rank() == 0) printf("\n@REFLEN %.17g\n", s.model->GetGrid()->GetReferenceLength());
		s.model->Go();
	} catch (int z) {
		if (Rank() == 0) printf("\n@END ops\n");
		fflush(stdout);
	} catch (Exception & e) {
		printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout);
		rc = 9; MPI_Abort(MPI_COMM_WORLD, 9);
	}
	fflush(stdout);
	TempestDeinitialize();
	return rc;
}
