// MPI message monitor and perturbation: wrappers that override the MPI entry points of the library (the real ones are reached
// through the profiling interface). Every message is logged; send buffers are checked for changes while a send is active;
// receive buffers are poisoned when a receive is posted; with chaos on, sends are delayed and completed receives hidden for a while.
#ifndef VP_CHAOS_H
#define VP_CHAOS_H
#include <mpi.h>
#include <map>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdint.h>
#include <unistd.h>
namespace vpc {
static int level = 0;                 // 0: off, 1: monitor only, 2: monitor and perturb
static uint64_t rs = 88172645463325252ULL;
static long nSend = 0, nRecv = 0, bytesSend = 0, bytesRecv = 0, nBadBuf = 0, nHidden = 0, nDelay = 0, nOver = 0;
static uint64_t order = 1469598103934665603ULL;  // fingerprint of the order in which messages were taken
struct S { const void * p; size_t n; uint64_t h; };
static std::map<MPI_Request *, S> sends;
struct R { int hide; };
static std::map<MPI_Request *, R> recvs;
static inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static inline uint64_t hash(const void * p, size_t n) {
	const unsigned char * c = (const unsigned char *)p; uint64_t h = 1469598103934665603ULL; size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, c + i, 8); h = (h ^ w) * 1099511628211ULL; }
	for (; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
	return h;
}
static inline void init(int lev, int seed) {
	level = lev; int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
	rs = 88172645463325252ULL ^ ((uint64_t)seed * 7919 + (uint64_t)r * 104729 + 1); for (int i = 0; i < 20; i++) rnd();
}
static inline void report() {
	if (level == 0) return;
	int r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
	long v[8] = {nSend, nRecv, bytesSend, bytesRecv, nBadBuf, nHidden, nDelay, nOver}, t[8];
	MPI_Reduce(v, t, 8, MPI_LONG, MPI_SUM, 0, MPI_COMM_WORLD);
	unsigned long o = (unsigned long)order, x = 0;
	MPI_Reduce(&o, &x, 1, MPI_UNSIGNED_LONG, MPI_BXOR, 0, MPI_COMM_WORLD);
	if (r == 0) { printf("\n@MSG {\"sends\": %ld, \"recvs\": %ld, \"bytes_sent\": %ld, \"bytes_recv\": %ld, \"changed_in_flight\": %ld, \"hidden\": %ld, \"delayed\": %ld, \"uncompleted\": %ld, \"order\": %lu}\n", t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], x); fflush(stdout); }
}
}
extern "C" int MPI_Isend(const void * buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request * r) {
	if (vpc::level) {
		int s; PMPI_Type_size(t, &s);
		vpc::nSend++; vpc::bytesSend += (long)n * s;
		vpc::S x = {buf, (size_t)n * s, vpc::hash(buf, (size_t)n * s)};
		std::map<MPI_Request *, vpc::S>::iterator it = vpc::sends.find(r);
		// the previous send of this request was never completed
		if (it != vpc::sends.end()) vpc::nOver++;
		vpc::sends[r] = x;
		if (vpc::level > 1 && vpc::rnd() % 3 == 0) { vpc::nDelay++; usleep(vpc::rnd() % 400); }
	}
	return PMPI_Isend(buf, n, t, dst, tag, c, r);
}
extern "C" int MPI_Irecv(void * buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request * r) {
	if (vpc::level) {
		int s; PMPI_Type_size(t, &s);
		vpc::R x = {vpc::level > 1 ? (int)(vpc::rnd() % 4) : 0};
		vpc::recvs[r] = x;
	}
	return PMPI_Irecv(buf, n, t, src, tag, c, r);
}
static inline void vpc_done(MPI_Request * r, MPI_Status * st) {
	vpc::recvs.erase(r);
	int n = 0; PMPI_Get_count(st, MPI_BYTE, &n);
	vpc::nRecv++; vpc::bytesRecv += n;
	vpc::order = (vpc::order ^ (uint64_t)(st->MPI_SOURCE + 1)) * 1099511628211ULL;
}
static inline void vpc_sent(MPI_Request * r) {
	std::map<MPI_Request *, vpc::S>::iterator it = vpc::sends.find(r);
	if (it != vpc::sends.end()) { if (vpc::hash(it->second.p, it->second.n) != it->second.h) vpc::nBadBuf++; vpc::sends.erase(it); }
}
extern "C" int MPI_Wait(MPI_Request * r, MPI_Status * st) {
	if (!vpc::level) return PMPI_Wait(r, st);
	vpc_sent(r);
	bool fRecv = vpc::recvs.count(r) != 0;
	MPI_Status s; int rc = PMPI_Wait(r, &s);
	if (fRecv) vpc_done(r, &s);
	if (st != MPI_STATUS_IGNORE) *st = s;
	return rc;
}
extern "C" int MPI_Waitany(int n, MPI_Request r[], int * ix, MPI_Status * st) {
	if (!vpc::level) return PMPI_Waitany(n, r, ix, st);
	MPI_Status s; int rc = PMPI_Waitany(n, r, ix, &s);
	if (*ix != MPI_UNDEFINED) { if (vpc::recvs.count(r + *ix)) vpc_done(r + *ix, &s); else vpc_sent(r + *ix); }
	if (st != MPI_STATUS_IGNORE) *st = s;
	return rc;
}
extern "C" int MPI_Testall(int n, MPI_Request r[], int * flag, MPI_Status st[]) {
	if (vpc::level > 1 && vpc::rnd() % 2) { vpc::nHidden++; *flag = 0; return MPI_SUCCESS; }
	int rc = PMPI_Testall(n, r, flag, st);
	if (vpc::level && *flag) for (int i = 0; i < n; i++) { vpc_sent(r + i); vpc::recvs.erase(r + i); }
	return rc;
}
extern "C" int MPI_Test(MPI_Request * r, int * flag, MPI_Status * st) {
	if (!vpc::level) return PMPI_Test(r, flag, st);
	std::map<MPI_Request *, vpc::R>::iterator it = vpc::recvs.find(r);
	if (it != vpc::recvs.end() && it->second.hide > 0) {
		it->second.hide--; vpc::nHidden++; *flag = 0;
		if (vpc::rnd() % 4 == 0) usleep(vpc::rnd() % 200);
		return MPI_SUCCESS;
	}
	MPI_Status s; int rc = PMPI_Test(r, flag, &s);
	if (*flag && it != vpc::recvs.end()) vpc_done(r, &s);
	else if (*flag) vpc_sent(r);
	if (st != MPI_STATUS_IGNORE) *st = s;
	return rc;
}
extern "C" int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[]) {
	if (vpc::level) for (int i = 0; i < n; i++) {
		vpc_sent(r + i);
		vpc::recvs.erase(r + i);
	}
	return PMPI_Waitall(n, r, st);
}
#endif
