// Work partitioning, worker pools.
#include "vs.h"
#include <nntl/math.h>
#include <nntl/interfaces.h>
using namespace nntl;
typedef threads::Workers<float, int64_t> W; typedef W::par_range_t PR; typedef W::reduce_data_t RD;
struct Rec { int64_t ofs[8], cnt[8]; int calls[8]; Rec() { for (int i = 0; i < 8; ++i) calls[i] = 0; } void add(const PR& r) { int t = (int)r.tid(); vs_assert(t >= 0 && t < 8, "thread id in range"); calls[t]++; ofs[t] = r.offset(); cnt[t] = r.cnt(); } };
static void cover(Rec& r, int64_t n, int maxThr, int used) {
	int64_t sum = 0; int k = 0, id[8]; for (int t = 0; t < 8; ++t) { vs_assert(r.calls[t] <= 1 && (t < maxThr || !r.calls[t]), "every worker gets at most one range"); if (r.calls[t]) { id[k++] = t; sum += r.cnt[t]; vs_assert(r.cnt[t] >= 1 && r.ofs[t] >= 0 && r.ofs[t] <= n - r.cnt[t], "ranges are not empty and stay inside the work"); } }
	vs_assert(sum == n, "the ranges add up to the whole work"); vs_assert(used < 0 || used == k, "the reported number of threads is the number of ranges"); vs_assert(k == (n < maxThr ? n : maxThr) , "work is spread over as many threads as are useful");
	for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) { int a = id[i], b = id[j]; vs_assert(r.ofs[a] + r.cnt[a] <= r.ofs[b] || r.ofs[b] + r.cnt[b] <= r.ofs[a], "ranges do not overlap"); vs_assert(r.cnt[a] - r.cnt[b] <= 1 && r.cnt[b] - r.cnt[a] <= 1, "ranges are balanced to within one item"); }
	for (int t = 0; t < k; ++t) vs_assert(r.calls[t] == 1, "thread ids are consecutive from the main thread");
}
//@ prop=C06 entry=h_run_part reach=part time=300
//@bounds 2..4 hardware threads, requested thread count 0..5, any work size 2..2^40 (symbolic)
extern "C" void h_run_part() {
	int hw = vs_pick("hw", 2, 4); vs_set_threads(hw); W w; vs_assert(w.cur_workers_count() == hw, "worker count"); int use = vs_pick("use", 0, 5); int64_t n = vs_i64("n", 2, 1ll << 40); Rec r; thread_id_t used = 77; int mt = use > 1 && use <= hw ? use : hw;
	w.run([&r](const PR& p) { r.add(p); }, n, use, &used); cover(r, n, mt, (int)used);
	Rec q; w.run([&q](const PR& p) { q.add(p); }, n, use); cover(q, n, mt, -1); vs_reach("part");
}
//@ prop=C06 entry=h_small_part reach=part
//@bounds work of 0 or 1 items
extern "C" void h_small_part() {
	vs_set_threads(3); W w; int64_t n = vs_i64("n", 0, 1); int calls = 0; int64_t c = -1, o = -1; thread_id_t used = 9; w.run([&](const PR& p) { ++calls; c = p.cnt(); o = p.offset(); vs_assert(p.tid() == 0, "small work stays on the calling thread"); }, n, 0, &used);
	vs_assert(calls == 1 && c == n && o == 0 && used == 1, "small work is one call"); calls = 0;
	double s = w.reduce([&](const PR& p)->RD { ++calls; return W::converter_reduce_data_t<double>::to((double)p.cnt() + .5); }, [](const RD* p, int64_t k)noexcept { return (double)k; }, n); vs_assert(calls == 1 && s == (double)n + .5, "a one-part reduction returns that part"); vs_reach("part");
}
//@ prop=C06 entry=h_red_part reach=part time=300
//@bounds 2..4 hardware threads, requested thread count 0..5, any work size 2..2^40 (symbolic), partial results symbolic
extern "C" void h_red_part() {
	int hw = vs_pick("hw", 2, 4); vs_set_threads(hw); W w; int use = vs_pick("use", 0, 5); int64_t n = vs_i64("n", 2, 1ll << 40); Rec r; int64_t val[8]; for (auto& v : val) v = vs_i64("val", -1000000, 1000000); int mt = use > 1 && use <= hw ? use : hw; int parts = -1; int64_t got[8];
	int64_t res = w.reduce([&](const PR& p)->RD { r.add(p); return W::converter_reduce_data_t<int64_t>::to(val[p.tid()]); }, [&](const RD* p, int64_t k)noexcept { parts = (int)k; int64_t s = 0; for (int i = 0; i < (int)k && i < 8; ++i) { got[i] = W::converter_reduce_data_t<int64_t>::from(p[i]); s += got[i]; } return s; }, n, use);
	if (use == 1) { vs_assert(parts == -1 && res == val[0] && r.calls[0] == 1 && r.ofs[0] == 0 && r.cnt[0] == n, "a single-threaded reduction is one part"); vs_reach("part"); return; }
	cover(r, n, mt, parts); int64_t e = 0; for (int i = 0; i < parts; ++i) { e += val[i]; vs_assert(got[i] == val[i], "the final step sees every part once"); } vs_assert(res == e, "the result is what the final step returns"); vs_reach("part");
}
//@ prop=C06 entry=h_conv reach=conv
//@bounds every value of the types
extern "C" void h_conv() {
	double d = vs_f64_any("d"); float f = vs_f32_any("f"); int64_t i = vs_i64("i", INT64_MIN, INT64_MAX); int j = vs_int("j", INT32_MIN, INT32_MAX); uint64_t a, b; uint32_t x, y; double d2 = W::converter_reduce_data_t<double>::from(W::converter_reduce_data_t<double>::to(d)); float f2 = W::converter_reduce_data_t<float>::from(W::converter_reduce_data_t<float>::to(f)); memcpy(&a, &d, 8); memcpy(&b, &d2, 8); memcpy(&x, &f, 4); memcpy(&y, &f2, 4);
	vs_assert(a == b && x == y && W::converter_reduce_data_t<int64_t>::from(W::converter_reduce_data_t<int64_t>::to(i)) == i && W::converter_reduce_data_t<int>::from(W::converter_reduce_data_t<int>::to(j)) == j, "reduction values survive the transport cell"); vs_reach("conv");
}
//@ prop=C07 entry=h_run_sched reach=done time=300 cost=5 paths=4000000
//@bounds 3 threads (2 workers), one start-up, one parallel run and shut-down; every schedule with at most 2 preemptions (3 thorough) at synchronisation operations and atomic accesses
extern "C" void h_run_sched() {
	vs_set_threads(3); vs_race_check(1); vs_explore_schedules(VS_BOUND(3, 4)); int a[6] = { 0,0,0,0,0,0 };
	{ W w; w.run([&a](const PR& p) { for (int64_t i = p.offset(); i < p.end(); ++i) a[i]++; }, 5); for (int i = 0; i < 6; ++i) vs_assert(a[i] == (i < 5), "when run() returns every item was processed exactly once"); }
	vs_reach("done");
}
//@ prop=C07 entry=h_two_sched reach=done time=300 cost=5 paths=4000000
//@bounds 3 threads, a run over 2 items, a reduction over 5, a run over 3; every schedule with at most 2 preemptions (3 thorough)
extern "C" void h_two_sched() {
	vs_set_threads(3); vs_race_check(1); int a[6] = { 0,0,0,0,0,0 }; int64_t x[5]; for (auto& v : x) v = vs_i64("x", -1000, 1000);
	{ W w; vs_explore_schedules(VS_BOUND(3, 4)); w.run([&a](const PR& p) { for (int64_t i = p.offset(); i < p.end(); ++i) a[i]++; }, 2); vs_assert(a[0] == 1 && a[1] == 1 && !a[2], "first run complete");
	int64_t s = w.reduce([&x](const PR& p)->RD { int64_t s = 0; for (int64_t i = p.offset(); i < p.end(); ++i) s += x[i]; return W::converter_reduce_data_t<int64_t>::to(s); }, [](const RD* p, int64_t k)noexcept { int64_t s = 0; for (int64_t i = 0; i < k; ++i) s += W::converter_reduce_data_t<int64_t>::from(p[i]); return s; }, 5); vs_assert(s == x[0] + x[1] + x[2] + x[3] + x[4], "a reduction sees every item exactly once");
	w.run([&a](const PR& p) { for (int64_t i = p.offset(); i < p.end(); ++i) a[i] += 10; }, 3); vs_assert(a[0] == 11 && a[1] == 11 && a[2] == 10 && !a[3], "second run complete"); vs_explore_schedules(0); }
	vs_reach("done");
}

#include <nntl/interface/threads/bgworkers.h>
typedef threads::BgWorkers<> BW;
//@ prop=C08 entry=h_bg_exec reach=done time=300 cost=5 paths=4000000
//@bounds 2 background threads, two successive broadcasts, no tasks; every schedule with at most 2 preemptions (3 thorough)
extern "C" void h_bg_exec() {
	vs_set_threads(3); vs_race_check(1); int c[3] = { 0,0,0 }; 
	{ BW b(2, threads::PriorityClass::threads_priority_no_change); vs_assert(b.workers_count() == 2 && b.tasks_count() == 0, "worker count"); vs_explore_schedules(VS_BOUND(3, 4));
	b.exec([&c](const thread_id_t t) { c[t]++; }); vs_assert(c[0] == 1 && c[1] == 1 && c[2] == 0, "a broadcast runs once on every worker and is complete on return");
	b.exec([&c](const thread_id_t t) { c[t] += 10; }); vs_assert(c[0] == 11 && c[1] == 11, "so is the next one"); }
	vs_reach("done");
}
//@ prop=C08 entry=h_bg_task reach=done,ran time=300 cost=5 paths=4000000
//@bounds 1 background thread, one task with 2 steps of work, a broadcast meanwhile, removal of the task; every schedule with at most 2 preemptions (3 thorough)
extern "C" void h_bg_task() {
	vs_set_threads(2); vs_race_check(1); int left = 2, run = 0, ex = 0; bool gone = false, late = false;
	{ BW b(1, threads::PriorityClass::threads_priority_no_change); auto f = [&](const thread_id_t)->bool { if (gone) late = true; ++run; if (left > 0) --left; return left > 0; }; vs_explore_schedules(VS_BOUND(3, 4));
	b.add_task(f, 1); vs_assert(b.tasks_count() == 1, "task count");
	auto g = [&](const thread_id_t) { ex++; }; b.exec(g); vs_assert(ex == 1, "a broadcast completes while tasks are pending");
	b.delete_tasks(); vs_assert(b.tasks_count() == 0, "tasks removed"); gone = true; int r = run; b.exec(g); vs_assert(ex == 2, "second broadcast"); vs_assert(run == r && !late, "no task runs after it was removed"); if (run) vs_reach("ran"); }
	vs_assert(!late, "no task runs after it was removed"); vs_reach("done");
}
//@ prop=C08 entry=h_bg_prio reach=done
//@bounds 1 background thread, three tasks with symbolic priorities, one round
extern "C" void h_bg_prio() {
	vs_set_threads(2); int pr[3], order[64], n = 0; for (auto& p : pr) p = vs_pick("prio", 0, 2);
	{ BW b(1, threads::PriorityClass::threads_priority_no_change); b.expect_tasks_count(3).set_task_wait_timeout(::std::chrono::milliseconds(5)); auto f0 = [&](const thread_id_t)->bool { if (n < 64) order[n++] = 0; return false; }; auto f1 = [&](const thread_id_t)->bool { if (n < 64) order[n++] = 1; return false; }; auto f2 = [&](const thread_id_t)->bool { if (n < 64) order[n++] = 2; return false; };
	b.add_task(f0, pr[0]).add_task(f1, pr[1]).add_task(f2, pr[2]); vs_assert(b.tasks_count() == 3, "task count"); n = 0; 
	b.exec([](const thread_id_t) {}); b.exec([](const thread_id_t) {}); b.delete_tasks(); }
	for (int i = 0; i + 1 < n; ++i) if (i % 3 != 2) vs_assert(pr[order[i]] >= pr[order[i + 1]], "tasks are polled by priority"); vs_reach("done");
}
