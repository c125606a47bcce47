// Runs made of several runs: twins (the same plan with other RAM garbage) and
// pairs (two devices driven by two interleaved callers in one process).
#include "nand.h"
#include <ucontext.h>
#include <memory>
#include <cxxabi.h>

void exec_one(const Plan &p, Result &r);

static void first_difference(const std::vector<u64> &a, const std::vector<u64> &b, int &op)
{
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	op = (int)i;
}
static void merge(Result &r, const Result &a)
{
	r.st.add(a.st); r.hash = mix2(r.hash, a.hash);
	for (auto &v : a.viol) if (!r.has(v.kind)) r.viol.push_back(v);
	for (auto &v : a.known) r.known.push_back(v);
}

static void exec_twin(const Plan &p, Result &r)
{
	Plan q = p; q.twin = 0;
	Result a, b; a.stop_kinds = b.stop_kinds = r.stop_kinds; b.variant = 1;
	exec_one(q, a); exec_one(q, b);
	merge(r, a); r.hash = mix2(r.hash, b.hash);
	if (a.trace != b.trace && !r.fatal()) {
		int op; first_difference(a.trace, b.trace, op);
		r.viol.push_back({"twin-differs", op, strf("two devices that differ only in the RAM contents at power-up and in whether error codes are asked for behave differently from operation %d on", op)});
	}
}

// ---------------------------------------------------------------- pairs
namespace __cxxabiv1 { struct __cxa_eh_globals; }
struct Co {
	ucontext_t ctx; std::vector<char> stack; bool done = false; void *eh[2] = {nullptr, nullptr};
	const Plan *p = nullptr; Result *r = nullptr;
};
static Co *g_co[2]; static int g_cur = 0; static Rng *g_sched = nullptr; static u32 g_den = 1; static u64 g_switches = 0, g_order = 0;
static void (*g_yield)() = nullptr;
void sim_yield() { if (g_yield) g_yield(); }

static void switch_to(int k)
{
	int me = g_cur; g_cur = k; g_switches++;
	void **eh = (void **)__cxxabiv1::__cxa_get_globals();	// caught and in-flight exceptions belong to a stack
	memcpy(g_co[me]->eh, eh, sizeof g_co[me]->eh); memcpy(eh, g_co[k]->eh, sizeof g_co[k]->eh);
	swapcontext(&g_co[me]->ctx, &g_co[k]->ctx);
}
static void do_yield()
{
	if (g_co[1 - g_cur]->done || g_sched->below(g_den)) return;
	g_order = mix2(g_order, g_cur);
	switch_to(1 - g_cur);
}
// When the library is built with -fsanitize-coverage=trace-pc (build mode "pp")
// every one of its basic blocks ends up here: callers may also be preempted in
// the middle of the library's own computations.
static bool g_pc_on = false; static u32 g_pc_den = 0, g_pc_left = 0; static u64 g_pc_switches = 0;
extern "C" void __sanitizer_cov_trace_pc()
{
	if (!g_pc_on || --g_pc_left) return;
	g_pc_left = 1 + (u32)g_sched->below(2 * g_pc_den);
	if (g_co[1 - g_cur]->done) return;
	g_order = mix2(g_order, 2 + g_cur); g_pc_switches++;
	switch_to(1 - g_cur);
}
static ucontext_t g_main;
static void co_main()
{
	Co *c = g_co[g_cur];
	exec_one(*c->p, *c->r);
	c->done = true;
	if (!g_co[1 - g_cur]->done) { switch_to(1 - g_cur); }
	setcontext(&g_main);
}

static void exec_pair(const Plan &p, Result &r)
{
	Plan q[2]; q[0] = p; q[0].pairlen = 0;
	gen_plan((int)p.pairsc, p.pairseed, q[1], false);
	if (q[1].ops.size() > p.pairlen) q[1].ops.resize(p.pairlen);
	Result solo[2], both[2];
	for (int i = 0; i < 2; i++) { solo[i].stop_kinds = both[i].stop_kinds = r.stop_kinds; exec_one(q[i], solo[i]); }
	static const u32 dens[4] = { 2, 3, 10, 60 };
	Rng sched(mix2(p.seed, p.pairseed)); g_sched = &sched; g_den = dens[p.pairseed >> 8 & 3]; g_switches = 0; g_order = 0;
	Co co[2]; g_co[0] = &co[0]; g_co[1] = &co[1]; g_cur = 0;
	for (int i = 0; i < 2; i++) {
		co[i].stack.resize(1 << 20); co[i].p = &q[i]; co[i].r = &both[i];
		getcontext(&co[i].ctx); co[i].ctx.uc_stack.ss_sp = co[i].stack.data(); co[i].ctx.uc_stack.ss_size = co[i].stack.size(); co[i].ctx.uc_link = nullptr;
		makecontext(&co[i].ctx, co_main, 0);
	}
	static const u32 pdens[4] = { 0, 7, 60, 900 };
	g_pc_den = pdens[p.pairseed >> 10 & 3]; if (p.scenario >= SC_BCH && !g_pc_den) g_pc_den = 300; g_pc_left = 1 + g_pc_den; g_pc_on = g_pc_den != 0; g_pc_switches = 0;
	u8 *cov = g_cov; g_cov = nullptr;
	g_yield = do_yield;
	void **eh = (void **)__cxxabiv1::__cxa_get_globals(); void *keep[2]; memcpy(keep, eh, sizeof keep);
	volatile bool entered = false;
	getcontext(&g_main);
	if (!entered) { entered = true; setcontext(&co[0].ctx); }
	memcpy(eh, keep, sizeof keep);
	g_yield = nullptr; g_pc_on = false; g_cov = cov;
	for (int i = 0; i < 2; i++) merge(r, both[i]);
	r.st.v[ST_SWITCHES] += g_switches; r.st.v[ST_PC_SWITCHES] += g_pc_switches; r.hash = mix2(r.hash, g_order);
	for (int i = 0; i < 2 && !r.fatal(); i++) if (solo[i].trace != both[i].trace) {
		int op; first_difference(solo[i].trace, both[i].trace, op);
		r.viol.push_back({"pair-differs", op, strf("%s device: operation %d went otherwise than when the device was used alone", i ? "second" : "first", op)});
	}
}

void exec_plan(const Plan &p, Result &r)
{
	if (p.twin) exec_twin(p, r);
	else if (p.pairlen) exec_pair(p, r);
	else exec_one(p, r);
	r.st.v[ST_RUNS] = 1;
}
