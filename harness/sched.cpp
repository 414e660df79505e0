// The model's own time loop with a recording time scheme, recording output managers and recording processes.
// Input: a file of scenarios, one per line: id start end dt nout (freq perfile)* nproc (freq)*   ("-" = empty time)
#include "vph.h"
#include "HorizontalDynamicsStub.h"
#include "VerticalDynamicsStub.h"
#include <fstream>
using namespace vp;

struct RecScheme : public TimestepScheme {
	RecScheme(Model & m) : TimestepScheme(m) {}
	virtual int GetComponentDataInstances() const { return 1; }
	virtual int GetTracerDataInstances() const { return 1; }
	virtual void Initialize() { printf("@E init\n"); }
	virtual void Step(bool f, bool l, const Time & t, double dt) { printf("@E step %d %d %s %.17g\n", f ? 1 : 0, l ? 1 : 0, t.ToLongString().c_str(), dt); }
};
struct RecOut : public OutputManager {
	int id;
	RecOut(int i, Grid & g, const Time & f, int per) : OutputManager(g, f, "", "p", per), id(i) {}
	virtual const char * GetName() const { return "Rec"; }
	virtual bool OpenFile(const std::string & n) { printf("@E open %d %s\n", id, n.c_str()); return true; }
	virtual void CloseFile() { printf("@E close %d\n", id); }
	virtual void Output(const Time & t) { printf("@E out %d %s\n", id, t.ToLongString().c_str()); }
};
struct RecProc : public WorkflowProcess {
	int id;
	RecProc(int i, Model & m, const Time & f) : WorkflowProcess(m, f), id(i) {}
	virtual void Perform(const Time & t) { printf("@E perf %d %s\n", id, t.ToLongString().c_str()); WorkflowProcess::Perform(t); }
};
static std::string W(std::istream & in) { std::string s; in >> s; return s == "-" ? std::string("") : s; }

int main(int argc, char ** argv) {
	TempestInitialize(&argc, &argv);
	AnnounceOnlyOutputOnRankZero();
	try {
		Args a(argc, argv);
		std::ifstream f(a.str("in").c_str());
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream in(line);
			std::string id = W(in), st = W(in), en = W(in), dt = W(in);
			printf("\n@S %s\n", id.c_str());
			EquationSet eqn(EquationSet::PrimitiveNonhydrostaticEquations);
			UserDataMeta meta;
			Model model(eqn, meta);
			model.SetTimestepScheme(new RecScheme(model));
			model.SetHorizontalDynamics(new HorizontalDynamicsStub(model));
			model.SetVerticalDynamics(new VerticalDynamicsStub(model));
			model.SetDeltaT(DTime(dt)); model.SetEndTime(FTime(en));
			if (!st.empty()) model.SetStartTime(FTime(st));
			double d[6] = {0, 1e5, 0, 1e5, 0, 1e4}; int bc[4];
			for (int i = 0; i < 4; i++) bc[i] = Grid::BoundaryCondition_Periodic;
			GridCartesianGLL * g = new GridCartesianGLL(model);
			g->DefineParameters();
			g->SetParameters(4, 1, 2, 1, 4, 3, 1, d, 0.0, bc, true, Grid::VerticalDiscretization_FiniteElement, Grid::VerticalStaggering_Lorenz);
			g->InitializeDataLocal();
			model.SetGrid(g, 1);
			int no; in >> no;
			for (int i = 0; i < no; i++) { std::string q = W(in); int per; in >> per; model.AttachOutputManager(new RecOut(i, *g, DTime(q), per)); }
			int np; in >> np;
			std::vector<RecProc *> pr;
			for (int i = 0; i < np; i++) { pr.push_back(new RecProc(i, model, DTime(W(in)))); model.AttachWorkflowProcess(pr.back()); }
			Args ta; ta.m["grid"] = "xz";
			model.SetTestCase(new VTestCase(ta));
			try { model.Go(); printf("@E end %s\n", model.GetCurrentTime().ToLongString().c_str()); }
			catch (Exception & e) { printf("@E exc %s\n", e.ToString().c_str()); }
			fflush(stdout);
			for (size_t i = 0; i < pr.size(); i++) delete pr[i];
		}
		printf("@DONE\n");
	} catch (Exception & e) { printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout); MPI_Abort(MPI_COMM_WORLD, 9); }
	TempestDeinitialize();
	return 0;
}
