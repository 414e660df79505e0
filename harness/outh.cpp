// Model runs that write reference output; dumps of the state at every output time.
#include "vph.h"
#include "OutputManagerReference.h"
using namespace vp;
static void User(Grid * g, const std::string & prefix) {
	char b[512]; snprintf(b, sizeof(b), "%s.user.%d.bin", prefix.c_str(), Rank());
	Dump d(b);
	for (int n = 0; n < g->GetActivePatchCount(); n++) {
		GridPatch * p = g->GetActivePatch(n);
		const PatchBox & x = p->GetPatchBox();
		snprintf(b, sizeof(b), "PATCH %d panel %d A %d %d B %d %d halo %d proc %d", p->GetPatchIndex(), x.GetPanel(), x.GetAGlobalInteriorBegin(),
			x.GetAGlobalInteriorEnd(), x.GetBGlobalInteriorBegin(), x.GetBGlobalInteriorEnd(), x.GetHaloElements(), p->GetProcessor());
		d.line(b);
		DataArray3D<double> & u = p->GetUserData2D();
		for (size_t i = 0; i < u.GetRows(); i++) for (size_t j = 0; j < u.GetColumns(); j++) for (size_t k = 0; k < u.GetSubColumns(); k++)
			u(i, j, k) = sin(1.0 + i + 0.3 * (x.GetAGlobalInteriorBegin() + (int)j) + 0.7 * (x.GetBGlobalInteriorBegin() + (int)k) + 2.0 * x.GetPanel());
		d.arr("user", u);
		d.line("ENDPATCH");
	}
	d.line("END");
}
int main(int argc, char ** argv) {
	TempestInitialize(&argc, &argv);
	try {
		Args a(argc, argv);
		AnnounceOnlyOutputOnRankZero();
		Setup s = MakeModel(a);
		if (a.has("own")) {
			OutputManagerReference * o = new OutputManagerReference(*s.model->GetGrid(), s.v.timeOutputDeltaT, s.v.strOutputDir, s.v.strOutputPrefix,
				s.v.nOutputsPerFile, s.v.nOutputResX, s.v.nOutputResY, s.v.nOutputResZ, a.str("own").find('n') != std::string::npos, a.str("own").find('r') != std::string::npos);
			if (s.v.fOutputVorticity) o->OutputVorticity();
			if (s.v.fOutputDivergence) o->OutputDivergence();
			if (s.v.fOutputTemperature) o->OutputTemperature();
			if (s.v.fOutputSurfacePressure) o->OutputSurfacePressure();
			s.model->AttachOutputManager(o);
		}
		if (a.has("ud2d")) User(s.model->GetGrid(), a.str("dump"));
		StepProbe * pr = new StepProbe(*s.model, a.str("dump"), "sgtrG", 1);
		s.model->AttachWorkflowProcess(pr);
		s.model->Go();
		DumpGrid(s.model->GetGrid(), a.str("dump"), "final", "sgtrGa");
		if (Rank() == 0) printf("@END time=%s steps=%d\n", s.model->GetCurrentTime().ToString().c_str(), pr->step);
		fflush(stdout);
		delete s.model;
	} catch (Exception & e) {
		printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout);
		MPI_Abort(MPI_COMM_WORLD, 9);
	}
	TempestDeinitialize();
	return 0;
}
