// General model runner: configuration by key=value, dumps of the state before the first and after chosen steps.
#include "vph.h"
#include "chaos.h"
#include "HeldSuarezPhysics.h"
#include <malloc.h>
using namespace vp;
// The live heap after every step.
struct MonMem : public WorkflowProcess {
	int n;
	MonMem(Model & m) : WorkflowProcess(m, Time(0, 0, 0, 1, 0, Time::CalendarNoLeap, Time::TypeDelta)), n(0) {}
	virtual bool IsReady(const Time &) { return true; }
	virtual void Perform(const Time & t) {
		struct mallinfo2 i = mallinfo2();
		if (Rank() == 0) printf("\n@MEM %d %zu\n", n, i.uordblks + i.hblkhd);
		n++;
	}
};
// The Held-Suarez forcing with the state recorded before and after each application.
struct MonHS : public HeldSuarezPhysics {
	Model & mod; std::string prefix; int n;
	MonHS(Model & m, const Time & f, const std::string & p) : HeldSuarezPhysics(m, f), mod(m), prefix(p), n(0) {}
	virtual void Perform(const Time & t) {
		char b[32]; snprintf(b, sizeof(b), "hb%d", n);
		DumpGrid(mod.GetGrid(), prefix, b, "stg");
		HeldSuarezPhysics::Perform(t);
		b[1] = 'a';
		DumpGrid(mod.GetGrid(), prefix, b, "stg");
		if (Rank() == 0) printf("\n@HS %d %.17g\n", n, t - mod.GetStartTime());
		n++;
	}
};
int main(int argc, char ** argv) {
	int rc = 0;
	TempestInitialize(&argc, &argv);
	try {
		Args a(argc, argv);
		if (a.integer("quiet", 1)) AnnounceOnlyOutputOnRankZero();
		if (a.integer("chaos", 0)) vpc::init(a.integer("chaos", 0), a.integer("chseed", 1));
		Setup s = MakeModel(a);
		std::string what = a.str("what", "stg");
		StepProbe * pr = NULL;
		if (a.has("hsf")) {
			Time f; f.FromFormattedString(a.str("hsf"));
			s.model->AttachWorkflowProcess(new MonHS(*s.model, f, a.str("dump")));
		}
		if (a.has("dump")) {
			pr = new StepProbe(*s.model, a.str("dump"), what, a.integer("every", 1));
			if (a.integer("ana", 0)) pr->tc = s.tc;
			s.model->AttachWorkflowProcess(pr);
		}
		if (a.has("mem")) s.model->AttachWorkflowProcess(new MonMem(*s.model));
		s.model->Go();
		if (a.has("dump")) DumpGrid(s.model->GetGrid(), a.str("dump"), "final", what);
		if (a.has("checksum")) {
			DataArray1D<double> cs;
			for (int t = 0; t < 3; t++) {
				ChecksumType ct = (t == 0) ? ChecksumType_Sum : (t == 1) ? ChecksumType_L1 : ChecksumType_L2;
				s.model->GetGrid()->Checksum(DataType_State, cs, 0, ct);
				if (Rank() == 0) { printf("@CS %d", t); for (size_t c = 0; c < cs.GetRows(); c++) printf(" %.17g", cs[c]); printf("\n"); }
			}
		}
		vpc::report();
		if (Rank() == 0) {
			printf("@END time=%s steps=%d\n", s.model->GetCurrentTime().ToString().c_str(), pr ? pr->step : -1);
			fflush(stdout);
		}
	} catch (Exception & e) {
		printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout);
		rc = 9;
		MPI_Abort(MPI_COMM_WORLD, 9);
	}
	fflush(stdout);
	TempestDeinitialize();
	return rc;
}
