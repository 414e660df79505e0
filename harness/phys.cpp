// Thermodynamic functions under constants set in a given order: lines "set R Cp P0 ... | arg" of a file, values on stdout.
#include "PhysicalConstants.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
int main(int argc, char ** argv) {
	FILE * in = fopen(argv[1], "r"); if (in == NULL) return 70;
	char line[4096];
	PhysicalConstants * p = new PhysicalConstants;
	while (fgets(line, sizeof line, in)) {
		char * t = strtok(line, " \n");
		if (t == NULL) continue;
		if (!strcmp(t, "new")) { delete p; p = new PhysicalConstants; continue; }
		double v = strtod(strtok(NULL, " \n"), NULL);
		if (!strcmp(t, "R")) p->SetR(v);
		else if (!strcmp(t, "Cp")) p->SetCp(v);
		else if (!strcmp(t, "P0")) p->SetP0(v);
		else if (!strcmp(t, "G")) p->SetG(v);
		else if (!strcmp(t, "Omega")) p->SetOmega(v);
		else if (!strcmp(t, "Radius")) p->SetEarthRadius(v);
		else if (!strcmp(t, "Alpha")) p->SetAlpha(v);
		else if (!strcmp(t, "T0")) p->SetT0(v);
		else if (!strcmp(t, "RhoWater")) p->SetRhoWater(v);
		else if (!strcmp(t, "Rvap")) p->SetRvap(v);
		else if (!strcmp(t, "Mvap")) p->SetMvap(v);
		else if (!strcmp(t, "Lvap")) p->SetLvap(v);
		else if (!strcmp(t, "get")) {
			double x[] = {p->GetR(), p->GetCp(), p->GetP0(), p->GetG(), p->GetOmega(), p->GetEarthRadius(), p->GetAlpha(), p->GetT0(), p->GetRhoWater(), p->GetRvap(), p->GetMvap(), p->GetLvap(),
				p->GetCv(), p->GetKappa(), p->GetGamma(), p->GetPressureScaling()};
			printf("get"); for (unsigned i = 0; i < sizeof x / sizeof x[0]; i++) printf(" %.17g", x[i]); printf("\n");
		}
		else if (!strcmp(t, "f")) // v = rho theta
			printf("f %.17g %.17g %.17g %.17g %.17g %.17g\n", p->PressureFromRhoTheta(v), p->RhoThetaFromPressure(p->PressureFromRhoTheta(v)),
				p->ExnerPressureFromRhoTheta(v), p->RhoThetaFromExnerPressure(p->ExnerPressureFromRhoTheta(v)),
				p->ExnerPressureFromPressure(p->PressureFromRhoTheta(v)), p->PressureFromExnerPressure(p->ExnerPressureFromRhoTheta(v)));
	}
	delete p;
	return 0;
}
