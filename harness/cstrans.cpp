// Batch evaluation of the coordinate transforms: records of 10 doubles (function, arguments) in, 8 doubles out.
#include "CubedSphereTrans.h"
#include "Direction.h"
#include <cstdio>
#include <vector>
int main(int argc, char ** argv) {
	typedef CubedSphereTrans C;
	FILE * f = fopen(argv[1], "rb"); FILE * g = fopen(argv[2], "wb");
	double a[10];
	long n = 0;
	while (fread(a, 8, 10, f) == 10) {
		double o[8] = {-999, -999, -999, -999, -999, -999, -999, 0};
		try {
			switch ((int)a[0]) {
			case 0: C::XYZFromXYP(a[1], a[2], (int)a[3], o[0], o[1], o[2]); break;
			case 1: C::XYPFromXYP(a[1], a[2], (int)a[3], (int)a[4], o[0], o[1]); break;
			case 2: C::RLLFromXYP(a[1], a[2], (int)a[3], o[0], o[1]); break;
			case 3: C::RLLFromABP(a[1], a[2], (int)a[3], o[0], o[1]); break;
			case 4: { int p; C::XYPFromRLL(a[1], a[2], o[0], o[1], p); o[2] = p; } break;
			case 5: { int p; C::ABPFromRLL(a[1], a[2], o[0], o[1], p); o[2] = p; } break;
			case 6: C::VecTransABPFromRLL(a[1], a[2], (int)a[3], a[4], a[5], o[0], o[1]); break;
			case 7: C::VecTransRLLFromABP(a[1], a[2], (int)a[3], a[4], a[5], o[0], o[1]); break;
			case 8: C::CoVecTransABPFromRLL(a[1], a[2], (int)a[3], a[4], a[5], o[0], o[1]); break;
			case 9: C::CoVecTransRLLFromABP(a[1], a[2], (int)a[3], a[4], a[5], o[0], o[1]); break;
			case 10: o[0] = a[4]; o[1] = a[5]; C::VecPanelTrans((int)a[1], (int)a[2], o[0], o[1], a[6], a[7]); break;
			case 11: o[0] = a[4]; o[1] = a[5]; C::CoVecPanelTrans((int)a[1], (int)a[2], o[0], o[1], a[6], a[7]); break;
			case 12: o[0] = C::GnomonicGridAngle(a[1], a[2]); break;
			case 13: o[0] = C::GnomonicElementArea(a[1], a[2], a[3], a[4], a[5]); break;
			case 14: { int p; Direction d; C::RelativePanel((int)a[1], (Direction)(int)a[2], p, d); o[0] = p; o[1] = d; } break;
			case 15: { int p, i, j; bool s, t, u; C::RelativeCoord((int)a[1], (int)a[2], (int)a[3], (int)a[4], p, i, j, s, t, u);
				o[0] = p; o[1] = i; o[2] = j; o[3] = s; o[4] = t; o[5] = u; } break;
			case 16: o[0] = C::PanelFromDirection((int)a[1], (Direction)(int)a[2]); break;
			case 17: o[0] = C::DirectionFromPanel((int)a[1], (int)a[2]); break;
			case 18: o[0] = C::OpposingDirection((int)a[1], (int)a[2], (Direction)(int)a[3]); break;
			case 19: o[0] = C::DirectionFromXYP((int)a[1], a[2], a[3]); break;
			case 20: o[0] = DirectionOpposite((Direction)(int)a[1]); break;
			case 21: { int i = (int)a[2], j = (int)a[3]; DirectionIncrement((Direction)(int)a[1], i, j); o[0] = i; o[1] = j; } break;
			default: return 3;
			}
		} catch (Exception & e) { o[7] = 1; }
		fwrite(o, 8, 8, g);
		n++;
	}
	fclose(f); fclose(g);
	printf("@END %ld\n", n);
	return 0;
}
