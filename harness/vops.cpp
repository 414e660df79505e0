// Vertical column operators as matrices. "req=FILE out=FILE": one operator per line, built directly on the given nodes;
// otherwise a model is set up from the options and its grid's operators are printed.
// Every operator is also applied through each of its other entry points to a random column; "dev" is the largest difference.
#include "vph.h"
#include "LinearColumnOperatorFEM.h"
#include "FluxCorrectionFunction.h"
#include <fstream>
using namespace vp;
typedef std::vector<double> V;

static FILE * g;
static uint64_t rs = 88172645463325252ull;
static double rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (double)(rs >> 11) / 9007199254740992.0 * 2.0 - 1.0; }
static const double PAD = 7.77e77;

static void Matrix(const std::vector<V> & cols) { // cols[j] = result of unit vector j
	for (size_t i = 0; i < (cols.empty() ? 0 : cols[0].size()); i++) for (size_t j = 0; j < cols.size(); j++) fprintf(g, " %.17g", cols[j][i]);
}

// Largest difference between the entry points of one operator; infinity when an entry written outside the column changes.
static double Deviation(const LinearColumnOperator & op, int nIn, int nOut) {
	double dev = 0.0;
	for (int s = 1; s <= 3; s++) {
		for (int so = 1; so <= 2; so++) {
			V x(nIn), r(nIn), ro(nOut), want(nOut), wref(nOut), xs(nIn * s, PAD), rr(nIn * s, PAD), ros(nOut * so, 0.25);
			for (int i = 0; i < nIn; i++) { x[i] = rnd(); r[i] = rnd(); xs[i * s] = x[i]; rr[i * s] = r[i]; }
			for (int k = 0; k < nOut; k++) { ro[k] = rnd(); ros[k * so] = ro[k]; }
			op.Apply(&x[0], &want[0]);
			V d(nIn), e(nOut); for (int i = 0; i < nIn; i++) d[i] = x[i] - r[i];
			op.Apply(&d[0], &e[0]);
			double sc = 1e-300; for (int k = 0; k < nOut; k++) { wref[k] = e[k] + ro[k]; sc = std::max(sc, std::max(fabs(want[k]), fabs(wref[k]))); }
			for (int k = 0; k < nOut; k++) {
				dev = std::max(dev, fabs(op.Apply(&x[0], k) - want[k]) / sc);
				dev = std::max(dev, fabs(op.Apply(&xs[0], k, s) - want[k]) / sc);
				dev = std::max(dev, fabs(op.Apply(&xs[0], &rr[0], ro[k], k, s) - wref[k]) / sc);
			}
			V o(nOut * so + 2, PAD);
			op.Apply(&xs[0], &o[1], s, so);
			for (int k = 0; k < nOut; k++) dev = std::max(dev, fabs(o[1 + k * so] - want[k]) / sc);
			for (int k = 0; k < nOut * so + 2; k++) if ((k == 0 || (k - 1) % so != 0 || k - 1 >= nOut * so) && o[k] != PAD) dev = INFINITY;
			V p(nOut + 2, PAD);
			op.ApplyWithRef(&x[0], &r[0], &p[1], &ro[0]);
			for (int k = 0; k < nOut; k++) dev = std::max(dev, fabs(p[1 + k] - wref[k]) / sc);
			if (p[0] != PAD || p[nOut + 1] != PAD) dev = INFINITY;
			if (s == so || s == 1) { // one stride for the reference columns as for the data they refer to
				V q(nOut * so + 2, PAD);
				op.ApplyWithRef(&xs[0], &rr[0], &q[1], &ros[0], s, so);
				for (int k = 0; k < nOut; k++) dev = std::max(dev, fabs(q[1 + k * so] - wref[k]) / sc);
			}
		}
	}
	return dev;
}

static void Show(const char * name, const LinearColumnOperator & op, int nIn, int nOut) {
	std::vector<V> cols(nIn, V(nOut, 0.0));
	for (int j = 0; j < nIn; j++) { V x(nIn, 0.0); x[j] = 1.0; op.Apply(&x[0], &cols[j][0]); }
	fprintf(g, "%s %d %d %.3g |", name, nOut, nIn, Deviation(op, nIn, nOut)); Matrix(cols); fprintf(g, "\n");
}
static void Show(const char * name, const LinearColumnOperator & op) { Show(name, op, op.GetCoeffs().GetColumns(), op.GetCoeffs().GetRows()); }

// The penalty for one interior edge at a time: n x n matrices, one after the other.
static void Penalty(const char * name, const LinearColumnDiscPenaltyFEM & op, int n, int nEdges) {
	fprintf(g, "%s %d %d %d |", name, n * nEdges, n, 0);
	std::vector<V> cols(n, V(n * nEdges));
	for (int e = 0; e < nEdges; e++) for (int j = 0; j < n; j++) {
		V w(nEdges, 0.0), x(2 * n, PAD), o(3 * n, 0.5); w[e] = 1.0;
		for (int i = 0; i < n; i++) x[2 * i] = (i == j);
		op.Apply(&w[0], &x[0], &o[0], 2, 3);
		for (int i = 0; i < n; i++) cols[j][e * n + i] = o[3 * i] - 0.5;
	}
	Matrix(cols); fprintf(g, "\n");
}

template <class F> static void Map(const char * name, int nIn, int nOut, F f) {
	std::vector<V> cols(nIn, V(nOut, 0.0));
	for (int j = 0; j < nIn; j++) { V x(nIn, 0.0); x[j] = 1.0; V o(nOut + 2, PAD); f(&x[0], &o[1]); for (int i = 0; i < nOut; i++) cols[j][i] = o[1 + i]; if (o[0] != PAD || o[nOut + 1] != PAD) cols[j][0] = NAN; }
	fprintf(g, "%s %d %d 0 |", name, nOut, nIn); Matrix(cols); fprintf(g, "\n");
}
static void Vec(const char * name, const DataArray1D<double> & a) { fprintf(g, "%s %d 1 0 |", name, (int)a.GetRows()); for (size_t i = 0; i < a.GetRows(); i++) fprintf(g, " %.17g", a[i]); fprintf(g, "\n"); }

struct In { std::vector<double> d; size_t p; void v(DataArray1D<double> & a, int n) { if (n == 0) return; a.Allocate(n); for (int i = 0; i < n; i++) a[i] = d.at(p++); } };

static void Direct(const std::string & line) {
	std::istringstream ss(line); std::string name, w; ss >> name;
	std::vector<int> I; In in; in.p = 0; bool fl = false;
	while (ss >> w) { if (w == "|") { fl = true; continue; } if (fl) in.d.push_back(strtod(w.c_str(), NULL)); else I.push_back(atoi(w.c_str())); }
	int order = I[0], src = I[1], dst = I[2], zero = I[3], nN = I[4], nE = I[5], nO = I[6];
	DataArray1D<double> N, E, O; in.v(N, nN); in.v(E, nE); in.v(O, nO);
	try {
		if (name == "interp") { LinearColumnInterpFEM o; o.Initialize(src ? LinearColumnInterpFEM::InterpSource_Interfaces : LinearColumnInterpFEM::InterpSource_Levels, order, N, E, O, zero); Show("m", o); }
		else if (name == "interprec") { LinearColumnInterpFEM o; o.InitializeReconstructed(src ? LinearColumnInterpFEM::InterpSource_Interfaces : LinearColumnInterpFEM::InterpSource_Levels, dst ? LinearColumnInterpFEM::InterpSource_Interfaces : LinearColumnInterpFEM::InterpSource_Levels, order, N, E); Show("m", o); }
		else if (name == "diff") { LinearColumnDiffFEM o; o.InitializeInterfaceMethod(src ? LinearColumnDiffFEM::InterpSource_Interfaces : LinearColumnDiffFEM::InterpSource_Levels, order, N, E, O, zero); Show("m", o); }
		else if (name == "flux") { LinearColumnDiffFEM o; o.InitializeFluxCorrectionMethod(LinearColumnDiffFEM::InterpSource_Levels, order, N, E, O, zero); Show("m", o); }
		else if (name == "diffrec") { LinearColumnDiffFEM o; o.InitializeReconstructed(src ? LinearColumnDiffFEM::InterpSource_Interfaces : LinearColumnDiffFEM::InterpSource_Levels, dst ? LinearColumnDiffFEM::InterpSource_Interfaces : LinearColumnDiffFEM::InterpSource_Levels, order, N, E); Show("m", o); }
		else if (name == "gll") { LinearColumnDiffFEM o; o.InitializeGLLNodes(order, N, O); Show("m", o); }
		else if (name == "var") { LinearColumnDiffFEM o; o.InitializeVariationalNodeToREdge(order, N, E); Show("m", o); }
		else if (name == "dd") { LinearColumnDiffDiffFEM o; o.Initialize(src ? LinearColumnDiffDiffFEM::InterpSource_Interfaces : LinearColumnDiffDiffFEM::InterpSource_Levels, order, N, E); Show("m", o); }
		else if (name == "ddgll") { LinearColumnDiffDiffFEM o; o.InitializeGLLNodes(order, N); Show("m", o); }
		else if (name == "int") { LinearColumnIntFEM o; o.InitializeNodeToNodeInterfaceMethod(order, N, E); Show("m", o); }
		else if (name == "pen") { LinearColumnDiscPenaltyFEM o; o.Initialize(order, N, E); Penalty("m", o, nN, nN / order - 1); }
		else if (name == "penrec") { LinearColumnDiscPenaltyFEM o; o.InitializeReconstructed(order, N, E); Penalty("m", o, nN, nN - 1); }
		else if (name == "ident") { LinearColumnOperator o; o.InitializeIdentity(order); Show("m", o); }
		else if (name == "fcf") { DataArray1D<double> D; FluxCorrectionFunction::GetDerivatives(src, order, N, D); Vec("m", D); }
		else fprintf(g, "?\n");
	} catch (Exception & e) { fprintf(g, "exc\n"); }
	fprintf(g, ".\n");
}

int main(int argc, char ** argv) {
	int rc = 0;
	TempestInitialize(&argc, &argv);
	Args a(argc, argv);
	g = fopen(a.str("out").c_str(), "w");
	if (a.has("req")) {
		std::ifstream f(a.str("req").c_str()); std::string line;
		while (std::getline(f, line)) Direct(line);
	} else try {
		Setup s = MakeModel(a);
		GridGLL * p = dynamic_cast<GridGLL *>(s.model->GetGrid());
		int n = p->GetRElements();
		bool fem = a.str("stagger", "lor") != "int" || a.str("vdisc") == "fv";
		Vec("levels", p->GetREtaLevels()); Vec("stretchlevels", p->GetREtaStretchLevels()); Vec("levelsarea", p->GetREtaLevelsNormArea());
		Vec("interfaces", p->GetREtaInterfaces()); Vec("stretchinterfaces", p->GetREtaStretchInterfaces()); Vec("interfacesarea", p->GetREtaInterfacesNormArea());
		Map("n2n", n, n, [&](const double * x, double * y) { p->DifferentiateNodeToNode(x, y, false); });
		Map("n2n1", n, n, [&](const double * x, double * y) { for (int k = 0; k < n; k++) y[k] = p->DifferentiateNodeToNode(x, k, 1); });
		Map("dd", n, n, [&](const double * x, double * y) { p->DiffDiffNodeToNode(x, y); });
		if (fem) {
			Map("i", n, n + 1, [&](const double * x, double * y) { p->InterpolateNodeToREdge(x, y, false); });
			Map("iz", n, n + 1, [&](const double * x, double * y) { p->InterpolateNodeToREdge(x, y, true); });
			Map("i1", n, n + 1, [&](const double * x, double * y) { for (int k = 0; k <= n; k++) y[k] = p->InterpolateNodeToREdge(x, NULL, k, 0.0, 1); });
			Map("j", n + 1, n, [&](const double * x, double * y) { p->InterpolateREdgeToNode(x, y); });
			Map("j1", n + 1, n, [&](const double * x, double * y) { for (int k = 0; k < n; k++) y[k] = p->InterpolateREdgeToNode(x, NULL, k, 0.0, 1); });
			// with reference columns: M (x - r) + r'; here r, r' are fixed columns, so subtract the result for x = 0
			V r(2 * n + 2), r2(n + 1); for (size_t k = 0; k < r.size(); k++) r[k] = rnd(); for (int k = 0; k <= n; k++) r2[k] = rnd();
			Map("i1r", n, n + 1, [&](const double * x, double * y) { V t(2 * n, PAD); for (int k = 0; k < n; k++) t[2 * k] = x[k] + r[2 * k]; for (int k = 0; k <= n; k++) y[k] = p->InterpolateNodeToREdge(&t[0], &r[0], k, r2[k], 2) - r2[k]; });
			Map("j1r", n + 1, n, [&](const double * x, double * y) { V t(2 * n + 2, PAD); for (int k = 0; k <= n; k++) t[2 * k] = x[k] + r[2 * k]; for (int k = 0; k < n; k++) y[k] = p->InterpolateREdgeToNode(&t[0], &r[0], k, r2[k], 2) - r2[k]; });
			Map("n2nz", n, n, [&](const double * x, double * y) { p->DifferentiateNodeToNode(x, y, true); });
			Map("n2r", n, n + 1, [&](const double * x, double * y) { p->DifferentiateNodeToREdge(x, y, false); });
			Map("n2r1", n, n + 1, [&](const double * x, double * y) { for (int k = 0; k <= n; k++) y[k] = p->DifferentiateNodeToREdge(x, k, 1); });
			Map("r2n", n + 1, n, [&](const double * x, double * y) { p->DifferentiateREdgeToNode(x, y); });
			Map("r2n1", n + 1, n, [&](const double * x, double * y) { for (int k = 0; k < n; k++) y[k] = p->DifferentiateREdgeToNode(x, k, 1); });
			Map("r2r", n + 1, n + 1, [&](const double * x, double * y) { p->DifferentiateREdgeToREdge(x, y); });
			Map("r2r1", n + 1, n + 1, [&](const double * x, double * y) { for (int k = 0; k <= n; k++) y[k] = p->DifferentiateREdgeToREdge(x, k, 1); });
			Map("ddr", n + 1, n + 1, [&](const double * x, double * y) { p->DiffDiffREdgeToREdge(x, y); });
			int vo = (a.str("vdisc") == "fv") ? 1 : a.integer("vorder", 1);
			if (n / vo > 1) Penalty("pen", p->GetOpPenaltyNodeToNode(), n, n / vo - 1);
			// interpolation of whole patches, column by column
			double dev = 0.0; long cols = 0;
			for (int ip = 0; ip < p->GetActivePatchCount(); ip++) {
				GridPatch * q = p->GetActivePatch(ip);
				const PatchBox & b = q->GetPatchBox();
				DataArray4D<double> & N = q->GetDataState(0, DataLocation_Node), & E = q->GetDataState(0, DataLocation_REdge);
				for (int c = 0; c < (int)N.GetSize(0); c++) for (int dir = 0; dir < 2; dir++) {
					for (size_t i = 0; i < N.GetSize(1); i++) for (size_t j = 0; j < N.GetSize(2); j++) { for (int k = 0; k < n; k++) N[c][i][j][k] = rnd(); for (int k = 0; k <= n; k++) E[c][i][j][k] = rnd(); }
					V before;
					int o = (c + 1) % N.GetSize(0); // another variable stays as it is
					for (size_t i = 0; i < N.GetSize(1); i++) for (size_t j = 0; j < N.GetSize(2); j++) { for (int k = 0; k < n; k++) before.push_back(N[o][i][j][k]); for (int k = 0; k <= n; k++) before.push_back(E[o][i][j][k]); }
					if (dir == 0) q->InterpolateNodeToREdge(c, 0); else q->InterpolateREdgeToNode(c, 0);
					size_t z = 0;
					for (size_t i = 0; i < N.GetSize(1); i++) for (size_t j = 0; j < N.GetSize(2); j++) { for (int k = 0; k < n; k++) if (o != c && before[z++] != N[o][i][j][k]) dev = INFINITY; for (int k = 0; k <= n; k++) if (o != c && before[z++] != E[o][i][j][k]) dev = INFINITY; }
					for (int i = b.GetAInteriorBegin(); i < b.GetAInteriorEnd(); i++) for (int j = b.GetBInteriorBegin(); j < b.GetBInteriorEnd(); j++) {
						V y(n + 1); cols++;
						if (dir == 0) { p->InterpolateNodeToREdge(&N[c][i][j][0], &y[0], false); for (int k = 0; k <= n; k++) dev = std::max(dev, fabs(y[k] - E[c][i][j][k])); }
						else { p->InterpolateREdgeToNode(&E[c][i][j][0], &y[0]); for (int k = 0; k < n; k++) dev = std::max(dev, fabs(y[k] - N[c][i][j][k])); }
					}
				}
			}
			fprintf(g, "patches 1 1 %.3g | %ld\n", dev, cols);
		}
		fprintf(g, ".\n");
	} catch (Exception & e) { printf("@EXC %s\n", e.ToString().c_str()); rc = 9; }
	fclose(g);
	printf("@END\n"); fflush(stdout);
	TempestDeinitialize();
	return rc;
}
