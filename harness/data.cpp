// Random histories of operations on DataArray1D..4D, DataStruct and DataContainer against a reference model.
//   data seed count            histories; prints "@V key detail" for each difference and "@C name n" counters
//   data oob dim axis form     one access just outside the array (debug bounds checking)
#include "DataArray1D.h"
#include "DataArray2D.h"
#include "DataArray3D.h"
#include "DataArray4D.h"
#include "DataStruct.h"
#include "DataContainer.h"
#include "Exception.h"
#include <cstdio>
#include <cstdint>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <set>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t used() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t used() { return mallinfo2().uordblks; }
#endif

static std::mt19937_64 rng;
static size_t R(size_t n) { return rng() % n; }
static std::map<std::string, long> cnt;
static std::set<std::string> seen;
static std::string hist;
static void V(const std::string & key, const std::string & what) {
	if (seen.insert(key).second) { printf("@V %s %s [%s]\n", key.c_str(), what.c_str(), hist.substr(hist.size() > 400 ? hist.size() - 400 : 0).c_str()); fflush(stdout); }
}

template <int D, typename T> struct Arr;
#define COMMON(N) typedef DataArray##N##D<T> A; \
	static bool attached(const A & a) { return a.IsAttached(); }
template <typename T> struct Arr<1, T> { COMMON(1)
	static A * make(const size_t * s, DataType t, DataLocation l, bool al) { return new A(s[0], t, l, al); }
	static void alloc(A & a, const size_t * s) { a.Allocate(s[0]); }
	static void size(A & a, const size_t * s) { a.SetSize(s[0]); }
	static size_t dim(const A & a, int) { return a.GetRows(); }
	static T & at(A & a, const size_t * i, int w) { return w == 0 ? a(i[0]) : w == 1 ? a[(int)i[0]] : ((T *)a)[i[0]]; }
	static const T & cat(const A & a, const size_t * i, int w) { return w == 0 ? a(i[0]) : w == 1 ? a[(int)i[0]] : ((const T *)a)[i[0]]; }
	static bool names(const A & a) { return true; } };
template <typename T> struct Arr<2, T> { COMMON(2)
	static A * make(const size_t * s, DataType t, DataLocation l, bool al) { return new A(s[0], s[1], t, l, al); }
	static void alloc(A & a, const size_t * s) { a.Allocate(s[0], s[1]); }
	static void size(A & a, const size_t * s) { a.SetSize(s[0], s[1]); }
	static size_t dim(const A & a, int d) { return d == 0 ? a.GetRows() : a.GetColumns(); }
	static T & at(A & a, const size_t * i, int w) { return w == 0 ? a(i[0], i[1]) : w == 1 ? a[i[0]][i[1]] : a(i[0])[i[1]]; }
	static const T & cat(const A & a, const size_t * i, int w) { return w == 0 ? a(i[0], i[1]) : w == 1 ? a[i[0]][i[1]] : a(i[0])[i[1]]; }
	static bool names(const A & a) { return true; } };
template <typename T> struct Arr<3, T> { COMMON(3)
	static A * make(const size_t * s, DataType t, DataLocation l, bool al) { return new A(s[0], s[1], s[2], t, l, al); }
	static void alloc(A & a, const size_t * s) { a.Allocate(s[0], s[1], s[2]); }
	static void size(A & a, const size_t * s) { a.SetSize(s[0], s[1], s[2]); }
	static size_t dim(const A & a, int d) { return a.GetSize(d); }
	static T & at(A & a, const size_t * i, int w) { return w == 0 ? a(i[0], i[1], i[2]) : w == 1 ? a[i[0]][i[1]][i[2]] : a(i[0], i[1])[i[2]]; }
	static const T & cat(const A & a, const size_t * i, int w) { return w == 0 ? a(i[0], i[1], i[2]) : w == 1 ? a[i[0]][i[1]][i[2]] : a(i[0], i[1])[i[2]]; }
	static bool names(const A & a) { return a.GetRows() == a.GetSize(0) && a.GetColumns() == a.GetSize(1) && a.GetSubColumns() == a.GetSize(2); } };
template <typename T> struct Arr<4, T> { COMMON(4)
	static A * make(const size_t * s, DataType t, DataLocation l, bool al) { return new A(s[0], s[1], s[2], s[3], t, l, al); }
	static void alloc(A & a, const size_t * s) { a.Allocate(s[0], s[1], s[2], s[3]); }
	static void size(A & a, const size_t * s) { a.SetSize(s[0], s[1], s[2], s[3]); }
	static size_t dim(const A & a, int d) { return a.GetSize(d); }
	static T & at(A & a, const size_t * i, int w) { return w == 0 ? a(i[0], i[1], i[2], i[3]) : w == 1 ? a[i[0]][i[1]][i[2]][i[3]] : a(i[0], i[1], i[2])[i[3]]; }
	static const T & cat(const A & a, const size_t * i, int w) { return w == 0 ? a(i[0], i[1], i[2], i[3]) : w == 1 ? a[i[0]][i[1]][i[2]][i[3]] : a(i[0], i[1], i[2])[i[3]]; }
	static bool names(const A & a) { return true; } };

// Reference model of one array
template <typename T> struct Model {
	int D; size_t s[4]; int st;               // 0 unattached, 1 owned, 2 external
	DataType t; DataLocation l;
	std::vector<T> v; unsigned char * ext;
	size_t total() const { size_t p = 1; for (int d = 0; d < D; d++) p *= s[d]; return p; }
	size_t bytes() const { size_t b = total() * sizeof(T); return (b + 7) / 8 * 8; }
};

template <int D, typename T> struct Play {
	typedef Arr<D, T> X; typedef typename X::A A;
	struct Obj { A * a; Model<T> m; };
	std::vector<Obj> o;
	std::vector<unsigned char *> bufs;
	std::string nm;
	void sizes(size_t * s, bool zero) { for (int d = 0; d < D; d++) s[d] = (zero && R(9) == 0) ? 0 : 1 + R(R(4) ? 4 : 9); }
	T val() { return (T)(1 + R(100)); }
	void look(Obj & x, const char * after) {
		std::string k = nm + ":" + after; A & a = *x.a; Model<T> & m = x.m;
		cnt["looks"]++;
		if (a.IsAttached() != (m.st != 0)) V(k + ":attached", "IsAttached() is wrong");
		for (int d = 0; d < D; d++) if (X::dim(a, d) != m.s[d]) { V(k + ":size", "size of a dimension changed or is wrong"); return; }
		if (!X::names(a)) V(k + ":size", "GetRows/GetColumns disagree with GetSize");
		if (a.GetTotalSize() != m.total() || a.GetByteSize() != m.bytes()) V(k + ":bytes", "GetTotalSize/GetByteSize is wrong");
		if (a.GetDataType() != m.t || a.GetDataLocation() != m.l) V(k + ":type", "DataType/DataLocation is wrong");
		if (!m.st || !a.IsAttached()) return;
		size_t n = m.total(); size_t i[4] = {0, 0, 0, 0};
		const A & c = a;
		for (size_t q = 0; q < n; q++) {
			size_t r = q; for (int d = D - 1; d >= 0; d--) { i[d] = r % m.s[d]; r /= m.s[d]; }
			for (int w = 0; w < 3; w++) {
				if (X::cat(c, i, w) != m.v[q] || X::at(a, i, w) != m.v[q]) { V(k + ":value", "element lost or misplaced"); return; }
			}
			if (&X::at(a, i, 0) != &X::at(a, i, 1) || &X::at(a, i, 0) != &X::at(a, i, 2)) V(k + ":place", "accessors address different places");
			if (m.st == 2 && (unsigned char *)&X::at(a, i, 0) != m.ext + q * sizeof(T)) V(k + ":layout", "element not at its row-major place in the attached memory");
		}
		cnt["elements"] += n;
	}
	template <typename F> bool run(F f) { try { f(); return true; } catch (Exception & e) { return false; } }
	void outcome(bool done, bool legal, const char * op) {
		cnt[std::string(legal ? "legal " : "misuse ") + op]++;
		if (done && !legal) V(nm + ":" + op + ":accepted", "misuse was not reported");
		if (!done && legal) V(nm + ":" + op + ":refused", "a legal operation was refused");
	}
	void history(int len) {
		size_t before = used();
		hist = nm + ": ";
		hist.reserve(8000);
		size_t h0 = hist.capacity(); (void)h0;
		for (int step = 0; step < len; step++) one();
		for (size_t i = 0; i < o.size(); i++) delete o[i].a;
		// memory handed to attached arrays still belongs to us
		for (size_t i = 0; i < bufs.size(); i++) { volatile unsigned char z = bufs[i][0]; (void)z; free(bufs[i]); }
		std::vector<Obj>().swap(o); std::vector<unsigned char *>().swap(bufs);
		(void)before;
	}
	void one() {
		int op = R(20);
		if (o.empty() || (op == 0 && o.size() < 6)) {
			Obj x; size_t s[4]; Model<T> & m = x.m; m.D = D; m.ext = NULL;
			sizes(s, true); DataType t = (DataType)R(3); DataLocation l = (DataLocation)R(2); bool al = R(2);
			size_t p = 1; for (int d = 0; d < D; d++) p *= s[d];
			hist += "new ";
			bool legal = !al || p;
			bool def = R(4) == 0;
			if (def) { x.a = new A(t, l); for (int d = 0; d < D; d++) m.s[d] = 0; m.st = 0; }
			else {
				x.a = NULL;
				bool done = run([&] { x.a = X::make(s, t, l, al); });
				outcome(done, legal, "construct");
				if (!done) return;
				for (int d = 0; d < D; d++) m.s[d] = s[d];
				m.st = al ? 1 : 0; if (al) m.v.assign(p, T(0));
			}
			m.t = t; m.l = l; o.push_back(x); look(o.back(), "construct"); return;
		}
		Obj & x = o[R(o.size())]; Model<T> & m = x.m; size_t s[4];
		switch (op) {
		case 1: case 2: { // Allocate
			sizes(s, true); if (R(3) == 0) for (int d = 0; d < D; d++) s[d] = m.s[d];
			if (R(5) == 0) for (int d = 0; d < D; d++) s[d] = 0;
			size_t e[4], p = 1; for (int d = 0; d < D; d++) { e[d] = s[d] ? s[d] : m.s[d]; p *= e[d]; }
			bool legal = m.st != 2 && p; hist += "alloc ";
			bool done = run([&] { X::alloc(*x.a, s); }); outcome(done, legal, "Allocate");
			if (legal) { for (int d = 0; d < D; d++) m.s[d] = e[d]; m.st = 1; m.v.assign(p, T(0)); }
			look(x, "Allocate"); break; }
		case 3: { sizes(s, true); bool legal = m.st == 0; hist += "setsize ";
			bool done = run([&] { X::size(*x.a, s); }); outcome(done, legal, "SetSize");
			if (legal) for (int d = 0; d < D; d++) m.s[d] = s[d];
			look(x, "SetSize"); break; }
		case 4: case 5: { if (m.st == 0 && m.total() == 0) break;
			bool legal = m.st == 0; hist += "attach ";
			unsigned char * b = NULL; size_t nb = m.total(); 
			// sometimes reattach memory that was used before
			b = (unsigned char *)malloc(m.bytes()); bufs.push_back(b);
			for (size_t q = 0; q < m.bytes(); q++) b[q] = 0;
			for (size_t q = 0; q < nb; q++) ((T *)b)[q] = val();
			bool done = run([&] { x.a->AttachToData(b); }); outcome(done, legal, "AttachToData");
			if (legal) { m.st = 2; m.ext = b; m.v.assign((T *)b, (T *)b + nb); }
			look(x, "AttachToData"); break; }
		case 6: { hist += "detach "; std::vector<T> was; unsigned char * b = m.ext; if (m.st == 2) was = m.v;
			bool done = run([&] { x.a->Detach(); }); outcome(done, true, "Detach");
			if (m.st == 2) for (size_t q = 0; q < was.size(); q++) if (((T *)b)[q] != was[q]) { V(nm + ":Detach:ext", "attached memory lost its contents"); break; }
			m.st = 0; m.ext = NULL; m.v.clear(); look(x, "Detach"); break; }
		case 7: { bool legal = m.st != 2; hist += "dealloc ";
			bool done = run([&] { x.a->Deallocate(); }); outcome(done, legal, "Deallocate");
			if (legal) { m.st = 0; m.v.clear(); } look(x, "Deallocate"); break; }
		case 8: { hist += "zero "; bool done = run([&] { x.a->Zero(); }); outcome(done, m.st != 0, "Zero");
			if (m.st) m.v.assign(m.total(), T(0)); look(x, "Zero"); break; }
		case 9: { hist += "scale "; T c = (T)R(3); bool done = run([&] { x.a->Scale(c); }); outcome(done, m.st != 0, "Scale");
			if (m.st) for (auto & q : m.v) q *= c; look(x, "Scale"); break; }
		case 10: { Obj & y = o[R(o.size())]; hist += "axpy ";
			bool legal = m.st && y.m.st; for (int d = 0; d < D; d++) legal = legal && m.s[d] == y.m.s[d];
			T c = (T)R(2); bool done = run([&] { x.a->AddProduct(*y.a, c); }); outcome(done, legal, "AddProduct");
			if (legal) for (size_t q = 0; q < m.v.size(); q++) m.v[q] += c * y.m.v[q];
			look(x, "AddProduct"); look(y, "AddProduct-source"); break; }
		case 11: case 12: case 13: { Obj & y = o[R(o.size())]; Model<T> & n = y.m; hist += "assign ";
			bool same = true; for (int d = 0; d < D; d++) same = same && m.s[d] == n.s[d];
			bool legal = n.st ? (m.st != 2 || (same && m.t == n.t && m.l == n.l)) : m.st == 0;
			if (n.st && n.total() == 0) break;
			bool done = run([&] { if (R(2)) *x.a = *y.a; else x.a->Assign(*y.a); }); outcome(done, legal, "Assign");
			if (legal && &m != &n) { for (int d = 0; d < D; d++) m.s[d] = n.s[d]; m.t = n.t; m.l = n.l; if (n.st) { m.v = n.v; if (m.st == 0) m.st = 1; } }
			look(x, "Assign"); look(y, "Assign-source"); break; }
		case 14: { if (o.size() > 6) break; hist += "copy "; Obj z; z.m = m; z.m.ext = NULL; z.a = NULL;
			bool done = run([&] { z.a = new A((const A &)*x.a); }); outcome(done, true, "copy"); if (!done) return;
			if (z.m.st == 2) z.m.st = 1;
			o.push_back(z); look(o.back(), "copy"); break; }
		case 15: { if (o.size() < 2) break; hist += "delete "; size_t i = &x - &o[0]; delete x.a; o.erase(o.begin() + i); cnt["legal destroy"]++; break; }
		case 16: { hist += "settype "; m.t = (DataType)R(3); m.l = (DataLocation)R(2); x.a->SetDataType(m.t); x.a->SetDataLocation(m.l); look(x, "SetDataType"); break; }
		default: { if (!m.st) break; hist += "write ";
			size_t n = m.total();
			for (int k = 0; k < 5; k++) { size_t q = R(n), r = q, i[4]; for (int d = D - 1; d >= 0; d--) { i[d] = r % m.s[d]; r /= m.s[d]; }
				T c = val(); X::at(*x.a, i, R(3)) = c; m.v[q] = c; }
			cnt["legal write"]++;
			look(x, "write");
			for (size_t j = 0; j < o.size(); j++) look(o[j], "write-elsewhere"); } }
	}
};

template <int D, typename T> void play(const char * t, int n) {
	Play<D, T> p; p.nm = std::string("DataArray") + char('0' + D) + "D<" + t + ">";
	p.history(60); // warm the counters
	for (int k = 0; k < n; k++) { hist.clear(); size_t b = used(); size_t keys = cnt.size() + seen.size(); p.history(20 + R(80));
		hist.clear(); std::string().swap(hist); size_t a = used();
		cnt["histories"]++;
		if (cnt.size() + seen.size() == keys && a != b && k > 3) V(p.nm + ":leak", "memory in use changed by " + std::to_string((long)a - (long)b) + " over a history"); }
}

struct Three { int a; char c; };

// Containers
struct Chunk { DataChunk * c; size_t align, bytes; };
template <typename A> static void span(A & a, unsigned char *& p) { p = NULL; }
static size_t up(size_t b) { return (b + 7) / 8 * 8; }
template <typename T> static Chunk chunk() {
	Chunk k; k.align = alignof(T); size_t s[4]; for (int d = 0; d < 4; d++) s[d] = 1 + R(4);
	switch (R(5)) {
	case 0: k.c = new DataArray1D<T>(s[0], DataType_Default, DataLocation_Default, false); k.bytes = s[0] * sizeof(T); break;
	case 1: k.c = new DataArray2D<T>(s[0], s[1], DataType_Default, DataLocation_Default, false); k.bytes = s[0] * s[1] * sizeof(T); break;
	case 2: k.c = new DataArray3D<T>(s[0], s[1], s[2], DataType_Default, DataLocation_Default, false); k.bytes = s[0] * s[1] * s[2] * sizeof(T); break;
	case 3: k.c = new DataArray4D<T>(s[0], s[1], s[2], s[3], DataType_Default, DataLocation_Default, false); k.bytes = s[0] * s[1] * s[2] * s[3] * sizeof(T); break;
	default: k.c = new DataStruct<T>(); k.bytes = sizeof(T); }
	return k;
}
// raw first element of a chunk, through its own accessors
template <typename T> static unsigned char * base(DataChunk * c) {
	if (auto p = dynamic_cast<DataArray1D<T> *>(c)) return (unsigned char *)&(*p)(0);
	if (auto p = dynamic_cast<DataArray2D<T> *>(c)) return (unsigned char *)&(*p)(0, 0);
	if (auto p = dynamic_cast<DataArray3D<T> *>(c)) return (unsigned char *)&(*p)(0, 0, 0);
	if (auto p = dynamic_cast<DataArray4D<T> *>(c)) return (unsigned char *)&(*p)(0, 0, 0, 0);
	return NULL;
}
template <typename T> static bool isStruct(DataChunk * c) { return dynamic_cast<DataStruct<T> *>(c) != NULL; }

static unsigned char * anybase(DataChunk * c) {
	unsigned char * b;
	if ((b = base<double>(c))) return b; if ((b = base<float>(c))) return b; if ((b = base<int>(c))) return b; if ((b = base<char>(c))) return b; if ((b = base<size_t>(c))) return b;
	return NULL;
}

static void containers(int n) {
	for (int h = 0; h < n; h++) {
		hist = "container: "; 
		DataContainer * dc = new DataContainer; std::vector<Chunk> ks; size_t total = 0;
		int m = R(9);
		for (int i = 0; i < m; i++) {
			Chunk k; switch (R(5)) { case 0: k = chunk<double>(); break; case 1: k = chunk<float>(); break; case 2: k = chunk<int>(); break; case 3: k = chunk<char>(); break; default: k = chunk<size_t>(); }
			if (dc->PushDataChunk(k.c) != (size_t)i) V("container:index", "PushDataChunk returns a wrong index");
			if (k.c->GetByteSize() != up(k.bytes)) V("container:chunksize", "chunk size is not its data rounded up to words");
			ks.push_back(k); total += up(k.bytes);
		}
		if (dc->GetTotalByteSize() != total) V("container:total", "total size is not the sum of the members");
		unsigned char * ext[2] = {NULL, NULL}; int cur = -1; std::vector<unsigned char> want[3];
		for (int e = 0; e < 2; e++) { ext[e] = (unsigned char *)malloc(total ? total : 1); for (size_t q = 0; q < total; q++) ext[e][q] = R(256); want[e].assign(ext[e], ext[e] + total); }
		// -1 unattached, 0/1 external, 2 own
		auto verify = [&](const char * at) {
			cnt["container looks"]++;
			bool att = cur >= 0;
			if (dc->IsAttached() != att) { V(std::string("container:attached:") + at, "IsAttached() is wrong"); return; }
			unsigned char * p = dc->GetPointer();
			if (!att) { if (p) V("container:pointer", "pointer kept after detaching"); }
			if (cur == 0 || cur == 1) if (p != ext[cur]) V("container:where", "not at the memory given");
			size_t off = 0;
			for (auto & k : ks) {
				if (k.c->IsAttached() != att) { V(std::string("container:member:") + at, "a member's attachment differs from its container's"); return; }
				if (att) { unsigned char * b = anybase(k.c);
					if (b && b != p + off) V(std::string("container:layout:") + at, "member not directly after the previous one");
					if (b && ((size_t)b % k.align)) V("container:align", "member is misaligned");
					off += up(k.bytes); }
			}
			if (att && total) { if (memcmp(p, &want[cur][0], total)) V(std::string("container:contents:") + at, "contents lost or changed"); }
			for (int e = 0; e < 2; e++) if (total && memcmp(ext[e], &want[e][0], total)) V(std::string("container:detached-contents:") + at, "memory lost its contents when detached");
		};
		verify("new");
		for (int st = 0; st < 12; st++) {
			int op = R(6); bool ok = true;
			try {
			if (op == 0) { hist += "allocate "; bool legal = cur < 0; ok = true; try { dc->Allocate(); } catch (Exception &) { ok = false; }
				if (ok != legal) V(legal ? "container:Allocate:refused" : "container:Allocate:accepted", "Allocate()"); if (legal && ok) { cur = 2; want[2].assign(total, 0); } cnt[legal ? "legal container Allocate" : "misuse container Allocate"]++; }
			else if (op == 1 || op == 2) { int e = op - 1; hist += "attach "; bool legal = cur < 0; try { dc->AttachTo(ext[e]); } catch (Exception &) { ok = false; }
				if (ok != legal) V(legal ? "container:AttachTo:refused" : "container:AttachTo:accepted", "AttachTo()"); if (legal && ok) cur = e; cnt[legal ? "legal container AttachTo" : "misuse container AttachTo"]++; }
			else if (op == 3) { hist += "detach "; if (R(2)) dc->Detach(); else dc->Deallocate(); cur = -1; cnt["legal container Detach"]++; }
			else if (cur >= 0 && !ks.empty()) { hist += "write ";
				size_t off = 0; size_t w = R(ks.size());
				for (size_t i = 0; i < ks.size(); i++) { Chunk & k = ks[i];
					if (i == w) {
						size_t q = R(k.bytes);
						unsigned char * b = anybase(k.c);
						if (b) { b[q] ^= 0x5a; want[cur][off + q] ^= 0x5a; cnt["container writes"]++; }
						else if (auto p = dynamic_cast<DataStruct<double> *>(k.c)) { double d = (double)R(1000); *p = d; memcpy(&want[cur][off], &d, sizeof(d)); if ((double)*p != d) V("struct:value", "value lost"); }
						else if (auto p = dynamic_cast<DataStruct<int> *>(k.c)) { int d = (int)R(1000); *p = d; memcpy(&want[cur][off], &d, sizeof(d)); if ((int)*p != d) V("struct:value", "value lost"); }
						else if (auto p = dynamic_cast<DataStruct<size_t> *>(k.c)) { size_t d = R(1000); *p = d; memcpy(&want[cur][off], &d, sizeof(d)); if ((size_t)*p != d) V("struct:value", "value lost"); }
					}
					off += up(k.bytes); } }
			} catch (Exception & e) { V("container:exception", e.ToString()); }
			verify("step");
		}
		cnt["container histories"]++;
		// destroy in either order: members outlive the container or not
		if (R(2)) { dc->Detach(); for (auto & k : ks) delete k.c; delete dc; }
		else { delete dc; for (auto & k : ks) delete k.c; }
		for (int e = 0; e < 2; e++) { if (total && memcmp(ext[e], &want[e][0], total)) V("container:after", "memory changed by destruction"); free(ext[e]); }
	}
}

template <typename T> static void structs(const char * t, int n) {
	for (int h = 0; h < n; h++) {
		hist = std::string("DataStruct<") + t + ">: "; std::string nm = std::string("DataStruct<") + t + ">";
		typedef DataStruct<T> S; S * o[3] = {new S, new S, NULL}; int st[3] = {0, 0, 0}; T v[3] = {0, 0, 0}; std::vector<unsigned char *> bufs; 
		o[2] = new S(*o[0]);
		for (int k = 0; k < 25; k++) {
			int i = R(3), j = R(3), op = R(9); bool done = true, legal = true; T c = (T)R(50);
			try { switch (op) {
			case 0: hist += "alloc "; legal = st[i] != 2; o[i]->Allocate(); if (legal) { st[i] = 1; v[i] = 0; } break;
			case 1: { hist += "attach "; legal = st[i] == 0; unsigned char * b = (unsigned char *)malloc(up(sizeof(T))); bufs.push_back(b); T z = c; memcpy(b, &z, sizeof(T)); o[i]->AttachToData(b); if (legal) { st[i] = 2; v[i] = c; } break; }
			case 2: hist += "detach "; o[i]->Detach(); st[i] = 0; break;
			case 3: hist += "dealloc "; legal = st[i] != 2; o[i]->Deallocate(); if (legal) st[i] = 0; break;
			case 4: hist += "assign "; legal = st[j] || !st[i]; *o[i] = *o[j]; if (legal && st[j]) { v[i] = v[j]; if (!st[i]) st[i] = 1; } break;
			case 5: hist += "zero "; legal = st[i]; o[i]->Zero(); if (legal) v[i] = 0; break;
			case 6: hist += "scale "; legal = st[i]; o[i]->Scale((T)2); if (legal) v[i] = v[i] * 2; break;
			case 7: hist += "axpy "; legal = st[i] && st[j]; o[i]->AddProduct(*o[j], (T)1); if (legal) v[i] = v[i] + v[j]; break;
			default: hist += "set "; legal = st[i]; *o[i] = c; if (legal) v[i] = c; }
			} catch (Exception &) { done = false; }
			cnt[std::string(legal ? "legal" : "misuse") + " struct"]++;
			if (done != legal) V(nm + ":" + std::to_string(op) + (legal ? ":refused" : ":accepted"), "operation outcome");
			for (int q = 0; q < 3; q++) { if (o[q]->IsAttached() != (st[q] != 0)) V(nm + ":attached", "IsAttached"); else if (st[q] && (T)*o[q] != v[q]) V(nm + ":value", "value lost"); 
				if (v[q] > 1000000) { v[q] = 0; if (st[q]) *o[q] = (T)0; } }
		}
		for (int q = 0; q < 3; q++) delete o[q];
		for (auto b : bufs) free(b);
	}
}

static int oob(int dim, int axis, int form) {
	size_t s[4] = {3, 4, 5, 6}, i[4] = {0, 0, 0, 0};
	i[axis] = s[axis] + (form >= 2 ? 1 : 0);
	// a buffer with room, so that only the bounds check can object
	static double big[4096];
	volatile double x = 0;
	try {
		if (dim == 1) { DataArray1D<double> a(3, DataType_Default, DataLocation_Default, false); a.AttachToData(big); x = a((size_t)i[0]); }
		if (dim == 2) { DataArray2D<double> a(3, 4, DataType_Default, DataLocation_Default, false); a.AttachToData(big); x = form % 2 ? (axis == 1 ? a(i[0], i[1]) : a[i[0]][0]) : a(i[0], i[1]); }
		if (dim == 3) { DataArray3D<double> a(3, 4, 5, DataType_Default, DataLocation_Default, false); a.AttachToData(big); x = form % 2 ? (axis == 2 ? a(i[0], i[1], i[2]) : a[i[0]][i[1]][0]) : a(i[0], i[1], i[2]); }
		if (dim == 4) { DataArray4D<double> a(3, 4, 5, 6, DataType_Default, DataLocation_Default, false); a.AttachToData(big); x = form % 2 ? (axis == 3 ? a(i[0], i[1], i[2], i[3]) : a[i[0]][i[1]][i[2]][0]) : a(i[0], i[1], i[2], i[3]); }
	} catch (Exception & e) { printf("@REPORTED %s\n", e.ToString().c_str()); return 0; }
	printf("@SILENT %g\n", (double)x);
	return 0;
}

int main(int argc, char ** argv) {
	if (std::string(argv[1]) == "oob") return oob(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
	rng.seed(strtoull(argv[1], NULL, 10)); int n = atoi(argv[2]);
	play<1, double>("double", n); play<1, int>("int", n); play<1, char>("char", n); play<1, float>("float", n);
	play<2, double>("double", n); play<2, int>("int", n); play<2, short>("short", n);
	play<3, double>("double", n); play<3, float>("float", n); play<3, char>("char", n);
	play<4, double>("double", n); play<4, int>("int", n); play<4, char>("char", n);
	structs<double>("double", n); structs<int>("int", n); structs<size_t>("size_t", n); structs<float>("float", n);
	containers(n * 4);
	{ size_t b0 = 0; int grow = 0; hist.clear(); for (int k = 0; k < 12; k++) { size_t c = cnt.size() + seen.size(); containers(8); structs<int>("int", 8); std::string().swap(hist); size_t u = used(); if (k > 3 && cnt.size() + seen.size() == c && u > b0) grow++; b0 = u; }
	  if (grow > 4) V("container:leak", "memory in use grows with every history"); }
	for (auto & c : cnt) printf("@C %ld %s\n", c.second, c.first.c_str());
	printf("@END\n");
	return 0;
}
