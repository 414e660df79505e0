// Halo exchanges of hashed data: rounds=N random exchanges; the full arrays (halo included) are dumped after each.
#include "vph.h"
#include "chaos.h"
using namespace vp;
static double code(int round, int dt, int loc, int c, int k, int panel, long A, long B) {
	return (double)B + 512.0 * (A + 512.0 * (panel + 8.0 * (k + 64.0 * (c + 16.0 * (loc + 2.0 * (dt + 8.0 * (round + 1)))))));
}
template <class T> static void fill4(T & x, const PatchBox & b, int round, int dt, int loc) {
	for (int c = 0; c < x.GetSize(0); c++) for (int i = 0; i < x.GetSize(1); i++) for (int j = 0; j < x.GetSize(2); j++) for (int k = 0; k < x.GetSize(3); k++) {
		long A = b.GetAGlobalInteriorBegin() + i - b.GetHaloElements(), B = b.GetBGlobalInteriorBegin() + j - b.GetHaloElements();
		bool in = i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd();
		x(c, i, j, k) = in ? code(round, dt, loc, c, k, b.GetPanel(), A, B) : -1.0;
	}
}
template <class T> static void fill3(T & x, const PatchBox & b, int round, int dt) {
	for (int i = 0; i < x.GetSize(0); i++) for (int j = 0; j < x.GetSize(1); j++) for (int k = 0; k < x.GetSize(2); k++) {
		long A = b.GetAGlobalInteriorBegin() + i - b.GetHaloElements(), B = b.GetBGlobalInteriorBegin() + j - b.GetHaloElements();
		bool in = i >= b.GetAInteriorBegin() && i < b.GetAInteriorEnd() && j >= b.GetBInteriorBegin() && j < b.GetBInteriorEnd();
		x(i, j, k) = in ? code(round, dt, 0, 0, k, b.GetPanel(), A, B) : -1.0;
	}
}
int main(int argc, char ** argv) {
	TempestInitialize(&argc, &argv);
	int rc = 0;
	try {
		Args a(argc, argv);
		AnnounceOnlyOutputOnRankZero();
		Setup s = MakeModel(a, false);
		Grid * g = s.model->GetGrid();
		vpc::init(a.integer("chaos", 1), a.integer("seed", 1));
		Rng rng(a.integer("seed", 1));
		DataType types[] = {DataType_State, DataType_Tracers, DataType_Vorticity, DataType_Divergence, DataType_Temperature, DataType_TopographyDeriv};
		bool fTr = s.eqn->GetTracers() > 0;
		for (int r = 0; r < a.integer("rounds", 6); r++) {
			int dt = (r < 6) ? r : rng.below(6), ix = rng.below(s.model->GetComponentDataInstances());
			if (s.eqn->GetType() == EquationSet::ShallowWaterEquations && dt == 4) dt = 2;
			if (dt == 1 && !fTr) dt = 0;
			if (dt == 1) ix = rng.below(s.model->GetTracerDataInstances());
			for (int n = 0; n < g->GetActivePatchCount(); n++) {
				GridPatch * p = g->GetActivePatch(n);
				const PatchBox & b = p->GetPatchBox();
				if (dt == 0) { fill4(p->GetDataState(ix, DataLocation_Node), b, r, dt, 0); fill4(p->GetDataState(ix, DataLocation_REdge), b, r, dt, 1); }
				if (dt == 1) fill4(p->GetDataTracers(ix), b, r, dt, 0);
				if (dt == 2) fill3(p->GetDataVorticity(), b, r, dt);
				if (dt == 3) fill3(p->GetDataDivergence(), b, r, dt);
				if (dt == 4) fill3(p->GetDataTemperature(), b, r, dt);
				if (dt == 5) fill3(p->GetTopographyDeriv(), b, r, dt);
			}
			g->Exchange(types[dt], ix);
			char buf[600];
			snprintf(buf, sizeof(buf), "%s.%d.%d.bin", a.str("dump").c_str(), r, Rank());
			Dump d(buf);
			for (int n = 0; n < g->GetActivePatchCount(); n++) {
				GridPatch * p = g->GetActivePatch(n);
				const PatchBox & b = p->GetPatchBox();
				snprintf(buf, sizeof(buf), "PATCH %d panel %d A %d %d B %d %d halo %d proc %d", p->GetPatchIndex(), b.GetPanel(),
					b.GetAGlobalInteriorBegin(), b.GetAGlobalInteriorEnd(), b.GetBGlobalInteriorBegin(), b.GetBGlobalInteriorEnd(), b.GetHaloElements(), p->GetProcessor());
				d.line(buf);
				if (dt == 0) {
					// only the components that live at the location take part
					d.arr("node", p->GetDataState(ix, DataLocation_Node)); d.arr("redge", p->GetDataState(ix, DataLocation_REdge));
				}
				if (dt == 1) d.arr("tracers", p->GetDataTracers(ix));
				if (dt == 2) d.arr("vort", p->GetDataVorticity());
				if (dt == 3) d.arr("div", p->GetDataDivergence());
				if (dt == 4) d.arr("temperature", p->GetDataTemperature());
				if (dt == 5) d.arr("topod", p->GetTopographyDeriv());
				d.line("ENDPATCH");
			}
			d.line("END");
			if (Rank() == 0) {
				printf("\n@R %d %d", r, dt);
				for (int c = 0; c < s.eqn->GetComponents(); c++) printf(" %d", (int)(g->GetVarLocation(c) == DataLocation_Node ? 0 : 1));
				printf("\n");
			}
		}
		MPI_Barrier(MPI_COMM_WORLD);
		// nothing may be left in flight
		g->Exchange(types[0], 0);
		vpc::report();
		if (Rank() == 0) { printf("@END\n"); fflush(stdout); }
	} catch (Exception & e) { printf("@EXC %s\n", e.ToString().c_str()); fflush(stdout); rc = 9; MPI_Abort(MPI_COMM_WORLD, 9); }
	fflush(stdout);
	TempestDeinitialize();
	return rc;
}
