// Batch evaluation of the numerical building blocks: one request per line, one reply per line.
//   name int... | double...
#include "GaussQuadrature.h"
#include "GaussLobattoQuadrature.h"
#include "LegendrePolynomial.h"
#include "PolynomialInterp.h"
#include "LinearAlgebra.h"
#include "MathHelper.h"
#include "Exception.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>

static std::vector<double> out;
static void put(double x) { out.push_back(x); }
static void put(DataArray1D<double> & x) { for (size_t i = 0; i < x.GetRows(); i++) put(x[i]); }
static void put(DataArray2D<double> & x) { put(x.GetRows()); put(x.GetColumns()); for (size_t i = 0; i < x.GetRows(); i++) for (size_t j = 0; j < x.GetColumns(); j++) put(x[i][j]); }

struct In {
	std::vector<int> i; std::vector<double> d; size_t p;
	double next() { if (p >= d.size()) { fprintf(stderr, "short\n"); exit(3); } return d[p++]; }
	void m(DataArray2D<double> & A, int r, int c) { A.Allocate(r, c); for (int a = 0; a < r; a++) for (int b = 0; b < c; b++) A[a][b] = next(); }
	void v(DataArray1D<double> & A, int r) { A.Allocate(r); for (int a = 0; a < r; a++) A[a] = next(); }
};

int main(int argc, char ** argv) {
	std::ifstream f(argv[1]); FILE * g = fopen(argv[2], "w");
	std::string line; long n = 0;
	while (std::getline(f, line)) {
		std::istringstream ss(line); std::string name, w; ss >> name;
		In in; in.p = 0; bool fl = false;
		while (ss >> w) { if (w == "|") { fl = true; continue; } if (fl) in.d.push_back(strtod(w.c_str(), NULL)); else in.i.push_back(atoi(w.c_str())); }
		std::vector<int> & I = in.i;
		out.clear();
		int exc = 0, info = 0;
		try {
			if (name == "gauss" || name == "lobatto") {
				DataArray1D<double> G, W;
				if (in.d.size() == 2) { double a = in.next(), b = in.next(); if (name == "gauss") GaussQuadrature::GetPoints(I[0], a, b, G, W); else GaussLobattoQuadrature::GetPoints(I[0], a, b, G, W); }
				else if (name == "gauss") GaussQuadrature::GetPoints(I[0], G, W); else GaussLobattoQuadrature::GetPoints(I[0], G, W);
				put(G.GetRows()); put(W.GetRows()); put(G); put(W);
			}
			else if (name == "legendre") { double v, d, x = in.next(); LegendrePolynomial::EvaluateValueAndDerivative(I[0], x, v, d); put(v); put(d); put(LegendrePolynomial::Evaluate(I[0], x)); put(LegendrePolynomial::EvaluateDerivative(I[0], x)); }
			else if (name == "root") put(LegendrePolynomial::Root(I[0], I[1]));
			else if (name == "droot") put(LegendrePolynomial::DerivativeRoot(I[0], I[1]));
			else if (name == "xroot") put(LegendrePolynomial::DerivativeExtendedRoot(I[0], I[1]));
			else if (name == "char") put(LegendrePolynomial::EvaluateCharacteristic(I[0], I[1], in.next()));
			else if (name == "allroots" || name == "alldroots") {
				int m = (name == "allroots") ? I[0] : I[0] - 1;
				std::vector<double> r(m + 2, -77.0);
				if (name == "allroots") LegendrePolynomial::AllRoots(I[0], &r[0]); else LegendrePolynomial::AllDerivativeRoots(I[0], &r[0]);
				for (int k = 0; k < m + 2; k++) put(r[k]);
			}
			else if (name == "lag") {
				int d = I[0], m = I[1]; std::vector<double> x(m), c(m + 1, -77.0); for (int k = 0; k < m; k++) x[k] = in.next();
				double s = in.next();
				if (d == 0) PolynomialInterp::LagrangianPolynomialCoeffs(m, &x[0], &c[0], s);
				if (d == 1) PolynomialInterp::DiffLagrangianPolynomialCoeffs(m, &x[0], &c[0], s);
				if (d == 2) PolynomialInterp::DiffDiffLagrangianPolynomialCoeffs(m, &x[0], &c[0], s);
				if (d == 3) PolynomialInterp::DiffDiffDiffLagrangianPolynomialCoeffs(m, &x[0], &c[0], s);
				for (int k = 0; k <= m; k++) put(c[k]);
			}
			else if (name == "interp") { int m = I[0]; std::vector<double> x(m), y(m); for (int k = 0; k < m; k++) x[k] = in.next(); for (int k = 0; k < m; k++) y[k] = in.next(); put(PolynomialInterp::Interpolate(m, &x[0], &y[0], in.next())); }
			else if (name == "coeffs") { int m = I[0]; std::vector<double> x(m), y(m), a(m + 1, -77.0); for (int k = 0; k < m; k++) x[k] = in.next(); for (int k = 0; k < m; k++) y[k] = in.next(); double mid = in.next();
				if (I[1]) { std::vector<double> ws(m * m); std::vector<int> pv(m); PolynomialInterp::InterpolateCoeffs(m, &x[0], &y[0], &a[0], mid, &ws[0], &pv[0]); }
				else PolynomialInterp::InterpolateCoeffs(m, &x[0], &y[0], &a[0], mid);
				for (int k = 0; k <= m; k++) put(a[k]); }
			else if (name == "gesv") { DataArray2D<double> A; DataArray1D<double> b; in.m(A, I[0], I[0]); in.v(b, I[0]); DataArray1D<int> pv(I[0]); info = LAPACK::DGESV(A, b, pv); put(b); }
			else if (name == "gesvm") { DataArray2D<double> A, b; in.m(A, I[0], I[0]); in.m(b, I[1], I[0]); DataArray1D<int> pv(I[0]); info = LAPACK::DGESV(A, b, pv); put(b); }
			else if (name == "gesvbad") { DataArray2D<double> A(I[0], I[1]); DataArray1D<double> b(I[2]); DataArray1D<int> pv(I[0]); info = LAPACK::DGESV(A, b, pv); }
			else if (name == "lu") { DataArray2D<double> A; DataArray1D<double> b; in.m(A, I[0], I[0]); in.v(b, I[0]); DataArray1D<int> pv(I[0]); info = LAPACK::DGETRF(A, pv); info += LAPACK::DGETRS(I[1] ? 'T' : 'N', A, b, pv); put(b); }
			else if (name == "inv") { DataArray2D<double> A; in.m(A, I[0], I[0]); DataArray1D<int> pv(I[0]); DataArray1D<double> wk(I[0] * 4); info = LAPACK::DGETRF(A, pv); info += LAPACK::DGETRI(A, pv, wk); put(A); }
			else if (name == "gbsv") { DataArray2D<double> A; DataArray1D<double> b; in.m(A, I[0], 2 * I[1] + I[2] + 1); in.v(b, I[0]); DataArray1D<int> pv(I[0]); info = LAPACK::DGBSV(A, b, pv, I[1], I[2]); put(b); }
			else if (name == "gbsvbad") { DataArray2D<double> A(I[0], I[3]); DataArray1D<double> b(I[0]); DataArray1D<int> pv(I[0]); info = LAPACK::DGBSV(A, b, pv, I[1], I[2]); }
			else if (name == "gblu") { DataArray2D<double> A; DataArray1D<double> b; in.m(A, I[0], 2 * I[1] + I[2] + 1); in.v(b, I[0]); DataArray1D<int> pv(I[0]); info = LAPACK::DGBTRF(A, pv, I[1], I[2]); info += LAPACK::DGBTRS(I[3] ? 'T' : 'N', A, b, pv, I[1], I[2]); put(b); }
			else if (name == "gtsv") { DataArray1D<double> l, d, u, b; in.v(l, I[0] > 1 ? I[0] - 1 : 1); in.v(d, I[0]); in.v(u, I[0] > 1 ? I[0] - 1 : 1); in.v(b, I[0]); info = LAPACK::DGTSV(l, d, u, b); put(b); }
			else if (name == "tpsv") { int m = I[0]; DataArray1D<double> A, x; in.v(A, m * (m + 1) / 2); in.v(x, m); info = LAPACK::DTPSV(I[1] ? 'U' : 'L', I[2] ? 'T' : 'N', I[3] ? 'U' : 'N', m, A, x); put(x); }
			else if (name == "trtri") { DataArray2D<double> A; in.m(A, I[0], I[0]); info = LAPACK::DTRTRI(I[1] ? 'U' : 'L', I[2] ? 'U' : 'N', A); put(A); }
			else if (name == "gemm") { DataArray2D<double> A, B, C; in.m(A, I[2], I[0]); in.m(B, I[1], I[2]); in.m(C, I[1], I[0]); double al = in.next(), be = in.next(); LAPACK::DGEMM(C, A, B, al, be); put(C); }
			else if (name == "gemmbad") { DataArray2D<double> A(I[0], I[1]), B(I[2], I[3]), C(I[4], I[5]); LAPACK::DGEMM(C, A, B, 1.0, 0.0); }
			else if (name == "qr") { DataArray2D<double> A; in.m(A, I[0], I[1]); DataArray1D<double> tau(I[0]), wk(4 * I[1] + 4); info = LAPACK::DGEQRF(A, tau, wk); put(A); info += LAPACK::DORGQR(A, tau, wk); put(A); }
			else if (name == "ginv") { DataArray2D<double> A, O; in.m(A, I[0], I[1]); LAPACK::GeneralizedInverse(A, O); put(O); }
			else if (name == "ginvsvd") { DataArray2D<double> A, O; in.m(A, I[0], I[1]); LAPACK::GeneralizedInverseSVD(A, O); put(O); }
			else if (name == "blas") { DataArray1D<double> x, y, z, t; int m = I[0]; in.v(x, m); in.v(y, m); double a = in.next();
				put(LAPACK::DDOT(x, y)); put(LAPACK::DDOT_A(x, &y[0])); put(LAPACK::DNORM2(x));
				LAPACK::DCOPY(y, z); LAPACK::DAXPY(a, x, z); put(z); LAPACK::DCOPY(y, z); LAPACK::DAXPY_A(a, &x[0], z); put(z);
				LAPACK::DCOPY_A(x, &z[0]); LAPACK::DSCAL(z, a); put(z); LAPACK::DSWAP(x, y); put(x); put(y); }
			else if (name == "math") { double x = in.next();
				put(Max(x, 0.5)); put(Min(x, 0.5)); put(Sign(x)); put(Clamp(x, -0.25, 0.75)); put(ISqrt((unsigned)I[0])); put(IntPow(I[1], (unsigned)I[2])); put(IPow(x, (unsigned)I[2])); put(IFact((unsigned)I[2]));
				double h = in.next(), a = in.next(), b = in.next(), c = in.next(), d = in.next();
				put(LinearInterpolate(x, a, b, c, d)); put(QuadraticInterpolate(x, h, a, b, c)); put(CubicInterpolate(x, h, a, b, c, d)); }
			else { fprintf(stderr, "unknown %s\n", name.c_str()); return 4; }
		} catch (Exception & e) { exc = 1; }
		fprintf(g, "%d %d", exc, info);
		for (size_t k = 0; k < out.size(); k++) fprintf(g, " %.17g", out[k]);
		fprintf(g, "\n");
		n++;
	}
	fclose(g);
	printf("@END %ld\n", n);
	return 0;
}
