// The circular buffer between background generators and their consumer.
#include "vs.h"
#include <nntl/math.h>
#include <nntl/interfaces.h>
#include <nntl/utils/data_buffer.h>
using namespace nntl; typedef utils::DataBuffer<int64_t, void> DB; typedef DB::BufferRange_t BR;
// one history: generators claim room and later deliver; the consumer acquires and releases
static void hist(int T, int N) {
	int64_t buf[8]; for (auto& b : buf) b = -1; buf[T] = -7; DB B(buf, (size_t)T); vs_assert(B.isInitialized(), "initialized");
	int64_t q[64]; int head = 0, tail = 0; int pend[2] = { 0, 0 }; BR br; int held = 0;
	for (int s = 0; s < N; ++s) {
		int op = (int)vs_choose("op", 3); if (op == 1 && !pend[0] && !pend[1]) return; // the generators are alike: the first to claim is number 0
		if (op < 2) { // generator number op: claim, or deliver what it has claimed
			if (!pend[op]) { int n = vs_int("claim", 1, T + 1); int r = (int)vs_concretize((int64_t)B._as_should_work((size_t)n)); int avail = tail - head, freeRoom = T - avail - pend[0] - pend[1]; vs_assert(r >= 0 && r <= n && r <= freeRoom, "a claim never exceeds the free room (unread, held and claimed elements excluded)"); vs_assert(r > 0 || freeRoom == 0, "free room is handed out"); pend[op] = r; if (!r) return; /* nothing changed */ }
			else { int64_t d[8]; for (int i = 0; i < pend[op]; ++i) { d[i] = q[tail++] = vs_i64("x", INT64_MIN, INT64_MAX); } B._as_done(d, (size_t)pend[op]); pend[op] = 0; }
		} else if (op == 2) { if (held) { for (int i = 0; i < held; ++i) vs_assert((i < (int)br.n1 ? br.ptr1[i] : br.ptr2[i - br.n1]) == q[head + i], "held data does not change"); B.release_data(br); head += held; held = 0; }
			else { int n = vs_int("take", 0, T); br = B.acquire_data((size_t)n); vs_assert(br.acquired() == (n > 0 && n <= tail - head), "data is handed out exactly when there is enough of it"); if (!br.acquired()) return; /* nothing changed */ { int m = (int)br.n1 + (br.isTwoArrays() ? (int)br.n2 : 0); vs_assert(m == n, "as many as requested"); held = n = (int)vs_concretize(n); for (int i = 0; i < n; ++i) { const int64_t* p = i < (int)br.n1 ? br.ptr1 + i : br.ptr2 + (i - br.n1); vs_assert(p >= buf && p < buf + T, "inside of the buffer"); vs_assert(*p == q[head + i], "every generated value is handed out once, in order"); } } }
		}
	}
	vs_assert(buf[T] == -7, "nothing written past the buffer"); vs_reach("hist"); if (head > T) vs_reach("wrapped");
}
//@ prop=C21 entry=h_hist reach=hist time=400
//@bounds buffers of 1..3 elements, two generators and a consumer, every sequence of up to 8 (9 thorough) claims, deliveries, acquisitions and releases of every size
extern "C" void h_hist() { hist(vs_pick("total", 1, 3), VS_BOUND(8, 9)); }
typedef threads::Workers<float, int64_t> W; typedef W::par_range_t PR;
//@ prop=C21 entry=h_sched reach=done time=400 paths=4000000
//@bounds a buffer of 2 elements, 2 generator threads (one claim and delivery each) and a consumer thread (one attempt); every schedule with at most 2 preemptions (3 thorough), happens-before race detection
extern "C" void h_sched() {
	vs_set_threads(3); W w; int64_t buf[3] = { -1, -1, -7 }; DB B(buf, 2); int got = 0; int64_t val[2] = { 0, 0 }; int made[3] = { 0, 0, 0 };
	vs_race_check(1); vs_explore_schedules(VS_BOUND(3, 4));
	w.run([&](const PR& p) { int t = (int)p.tid(); if (t) { size_t n = B._as_should_work(1); if (n) { int64_t x = 10 + t; B._as_done(&x, n); made[t] = 1; } } else { BR r = B.acquire_data(1); if (r.acquired()) { val[0] = r.ptr1[0]; got = 1; B.release_data(r); } } }, 3);
	vs_assert(made[1] && made[2], "both generators found room"); int64_t rest[2]; int k = 0; for (;;) { BR r = B.acquire_data(1); if (!r.acquired()) break; vs_assert(k < 2, "no more values than generated"); rest[k++] = *r.ptr1; B.release_data(r); } if (got) rest[k++] = val[0];
	vs_assert(k == 2 && ((rest[0] == 11 && rest[1] == 12) || (rest[0] == 12 && rest[1] == 11)), "every generated value is handed out exactly once"); vs_assert(buf[2] == -7, "nothing written past the buffer"); vs_reach("done");
}
