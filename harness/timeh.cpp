// Time class driven by a command file: one command per line, one answer per line ("X" when it threw).
#include "TimeObj.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <iostream>
#include <sstream>
#include <vector>

static std::string Show(const Time & t) {
	char b[200];
	bool fix = t.GetTimeType() == Time::TypeFixed;
	snprintf(b, sizeof(b), "%d %d %d %d %d %c", t.GetYear(), t.GetMonth() - (fix ? 1 : 0), t.GetDay() - (fix ? 1 : 0), t.GetSecond(), t.GetMicroSecond(), fix ? 'F' : 'D');
	return b;
}
static std::string Unhex(const std::string & h) {
	std::string s;
	for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), NULL, 16);
	return s;
}
int main() {
	std::string line;
	std::vector<Time> reg(8);
	while (std::getline(std::cin, line)) {
		std::istringstream in(line);
		std::string op; in >> op;
		std::string out;
		try {
			if (op == "new") { // new r cal type y m d s u
				int r, c, t, y, m, d, s, u; in >> r >> c >> t >> y >> m >> d >> s >> u;
				reg[r] = Time(y, m, d, s, u, (Time::CalendarType)c, (Time::TimeType)t);
				out = Show(reg[r]);
			} else if (op == "add") { int a, b; in >> a >> b; reg[a] += reg[b]; out = Show(reg[a]); }
			else if (op == "adds") { int a, n; in >> a >> n; reg[a] += n; out = Show(reg[a]); }
			else if (op == "addd") { int a, n; in >> a >> n; reg[a].AddDays(n); out = Show(reg[a]); }
			else if (op == "addm") { int a, n; in >> a >> n; reg[a].AddMonths(n); out = Show(reg[a]); }
			else if (op == "addy") { int a, n; in >> a >> n; reg[a].AddYears(n); out = Show(reg[a]); }
			else if (op == "copy") { int a, b; in >> a >> b; reg[a] = reg[b]; out = Show(reg[a]); }
			else if (op == "diff") { int a, b; in >> a >> b; char q[64]; snprintf(q, sizeof(q), "%.17g", reg[a] - reg[b]); out = q; }
			else if (op == "secs") { int a; in >> a; char q[64]; snprintf(q, sizeof(q), "%.17g", reg[a].GetSeconds()); out = q; }
			else if (op == "cmp") { int a, b; in >> a >> b; char q[64]; snprintf(q, sizeof(q), "%d %d %d %d %d %d", reg[a] == reg[b], reg[a] < reg[b], reg[a] > reg[b], reg[a] <= reg[b], reg[a] >= reg[b], reg[a].IsSameDate(reg[b])); out = q; }
			else if (op == "zero") { int a; in >> a; out = reg[a].IsZero() ? "1" : "0"; }
			else if (op == "str") { int a; in >> a; out = reg[a].ToDateString() + "|" + reg[a].ToShortString() + "|" + reg[a].ToLongString() + "|" + reg[a].ToString(); }
			else if (op == "free") { int a; in >> a; out = "|" + reg[a].ToFreeString(); }
			else if (op == "parse") { // parse r cal type(-1: as parsed) hex
				int r, c, t; std::string h; in >> r >> c >> t >> h;
				Time x((Time::CalendarType)c, t < 0 ? Time::TypeFixed : (Time::TimeType)t);
				x.FromFormattedString(Unhex(h == "-" ? "" : h));
				if (t >= 0) x.SetTimeType((Time::TimeType)t);
				reg[r] = x; out = Show(x);
			} else if (op == "plong") { int r, c; std::string h; in >> r >> c >> h; reg[r] = Time(Unhex(h), (Time::CalendarType)c, Time::TypeFixed); out = Show(reg[r]); }
			else if (op == "settype") { int a, t; in >> a >> t; reg[a].SetTimeType((Time::TimeType)t); out = Show(reg[a]); }
			else out = "?";
		} catch (Exception & e) { out = "X"; }
		puts(out.c_str());
	}
	return 0;
}
