// Seeded plan generators (swarm style: every run draws its own geometry,
// workload mix and fault mix).
// Plans do not depend on the code under test: what a chip holds is asked of
// the frozen copy.
#include "handle.h"

static u32 ppc_of(u32 lp, u32 lb)
{
	int max_meta = (1 << lp) - 16 - ref_sh_cookie_size(); int total = META_SIZE; u32 ppc = 1;
	while (ppc < lb) { total = total * 2 + META_SIZE; if (total > max_meta) break; ppc++; }
	return ppc;
}

static u32 query_capacity(u32 lp, u32 lb, u32 nb, u32 gc, int bad = -1)
{
	std::vector<u8> m(ref_sh_map_mem()), b((size_t)1 << lp);
	sh_nand *n = ref_sh_nand_new(nullptr, (int)lp, (int)lb, nb);
	ref_sh_map_init(m.data(), n, b.data(), (u8)gc);
	u32 c = bad < 0 ? ref_sh_map_capacity(m.data()) : ref_sh_map_capacity_bad(m.data(), (u32)bad);
	ref_sh_nand_free(n);
	return c;
}

static u64 fault_arg(Rng &g) { return g.next() >> 8; }

struct MapMix {
	int w[OP_NKINDS];
	int total() const { int t = 0; for (int x : w) t += x; return t; }
	int pick(Rng &g) const { int x = (int)g.below((u32)total()); for (int i = 0; i < OP_NKINDS; i++) { if (x < w[i]) return i; x -= w[i]; } return OP_WRITE; }
};

static void geometry(Rng &g, Plan &p, u32 mincap, u32 maxcap, u32 extra_bad, bool small_only)
{
	static const u32 lps[] = { 9, 9, 9, 9, 9, 8, 8, 10, 10, 11, 9, 12, 13, 11, 8, 9 };
	static const u32 lbs[] = { 2, 3, 3, 3, 2, 4, 4, 1, 5, 3 };
	static const u32 gcs[] = { 4, 4, 4, 1, 2, 3, 8, 1, 16, 0, 64, 255 };
	p.lp = lps[g.below(small_only ? 11 : 16)];
	p.lb = lbs[g.below(10)];
	if (p.lp >= 11 && p.lb > 4) p.lb = 4;
	p.gc = gcs[g.below(12)];
	if (small_only && p.lp > 10) p.lp = 10;
	u32 want = mincap + g.below(maxcap - mincap + 1);
	for (p.nb = 10; p.nb < 60 && query_capacity(p.lp, p.lb, p.nb, p.gc) < want; p.nb++) {}
	p.nb += extra_bad;
	if (p.nb > 63 && !g.chance(20)) p.nb = 63;
	p.imprecise = g.chance(40);
	p.init = g.chance(50) ? 0 : 1 + g.below(3);
	p.badread = g.below(2);
	p.secmode = g.below(6);
}

static void factory_bad(Rng &g, Plan &p, u32 n)
{
	std::vector<u8> b(p.nb, 0);
	for (u32 i = 0; i < n; i++) {
		u32 x = g.chance(30) ? g.below(3) : g.chance(30) ? p.nb - 1 - g.below(3) : g.below(p.nb);
		if (!b[x]) { b[x] = 1; p.bad.push_back(x); }
	}
}

static void add_fault(Op &o, u32 kind, u32 nth, u32 mode, u64 arg) { Fault f; f.kind = (u8)kind; f.nth = nth; f.mode = mode; f.arg = arg; o.faults.push_back(f); }

// Good blocks stay as many, but up to 40 % of the chip is bad.
static void scars(Rng &g, Plan &p)
{
	u32 good = p.nb - (u32)p.bad.size(), old = p.nb, f = 4 + g.below(g.chance(50) ? 37 : 16), cap9;
	p.maxfail = std::min(p.maxfail, 2u); cap9 = 5 - p.maxfail;
	bool ends = g.chance(30);	// the bad blocks gather at one end
	u32 side = g.below(2);
	if (good < 12) good = 12;
	p.bad.clear();
	std::vector<u8> b;
	bool runs = !p.maxfail && g.chance(25);	// long runs of bad blocks, far apart
	for (u32 n = 0, since = 0; n < good; ) {
		if (runs) {
			if (++since > 12 && g.chance(8)) { for (u32 i = 4 + g.below(4); i; i--) b.push_back(1); since = 0; }
			b.push_back(0); n++;
			continue;
		}
		u32 w = 0, run = 0;
		for (u32 i = 1; i <= 8 && i <= b.size(); i++) w += b[b.size() - i];
		for (u32 i = 1; i <= b.size() && b[b.size() - i]; i++) run++;
		bool x = g.chance(ends && (n < good / 2) != side ? 3 : f) && w < cap9 && run < 4;
		b.push_back(x); n += !x;
	}
	// the end of the chip borders on its start
	for (u32 i = 0; i < 8; i++) b.push_back(0);
	p.nb = (u32)b.size();
	for (u32 i = 0; i < p.nb; i++) if (b[i]) p.bad.push_back(i);
	for (auto &x : p.bombs) x.block = (u32)((u64)x.block * p.nb / old);
}

static void gen_map(int sc, Rng &g, Plan &p, bool deep)
{
	bool fails = sc == SC_FAIL || sc == SC_CRASHFAIL || sc == SC_CHAOS || sc == SC_EOL || ((sc == SC_RDERR || sc == SC_FULL || sc == SC_WEAR) && g.chance(50));
	bool cuts = sc == SC_CRASH || sc == SC_CRASHFAIL || sc == SC_CHAOS || (sc == SC_EOL && g.chance(50)) || (sc == SC_STACK && g.chance(25));
	u32 nbad = g.chance(35) ? 1 + g.below(2) : 0;
	p.maxfail = fails ? 1 + g.below(4) : 0;
	bool bursts = (sc == SC_FAIL || sc == SC_CRASHFAIL || sc == SC_CHAOS) && g.chance(12);	// up to six blocks in a row fail together
	if (bursts) { p.maxfail = 5 + g.below(2); nbad = 0; }
	if (sc == SC_BIG) { p.maxfail = 0; nbad = g.chance(50) ? g.below(6) : 0; }
	bool small = sc != SC_PLAIN;
	geometry(g, p, 6, sc == SC_FULL || sc == SC_WEAR || sc == SC_EPOCH ? 24 : 60, nbad + p.maxfail, small);
	if (sc == SC_EOL) { p.nb = std::max(8u, p.nb - g.below(p.maxfail + 1)); p.maxfail = 1000 + g.chance(25); if (g.chance(30)) p.nb += 8 + g.below(16); if (!cuts && g.chance(40)) { p.maxfail = 2000; p.nb += 8; p.gc = std::min(p.gc, 8u); } }
	if (sc == SC_EPOCH) {
		p.lp = g.chance(70) ? 9 : 8; p.lb = 2 + g.below(2); if (p.lp == 8) p.lb = 2; p.gc = 1 + g.below(4);
		for (p.nb = 10; p.nb < 40 && query_capacity(p.lp, p.lb, p.nb, p.gc) < 4; p.nb++) {}
		nbad = g.chance(25) ? 1 : 0; p.nb += nbad;
	}
	if (sc == SC_STACK) {
		p.lp = 9 + g.below(2); p.lb = 2 + g.below(2); p.gc = 4;
		p.nb = 18 + nbad + p.maxfail;
		p.ecc = 1 + g.below(5); p.imprecise = 0;
		static const u32 chs[] = { 128, 256, 512, 512 };
		p.chunk = chs[g.below(4)]; if (p.ecc == 1) p.chunk = 128u << g.below(2); if (p.chunk > (1u << p.lp)) p.chunk = 1u << p.lp;
		if (p.init == 1) p.init = 2;
		if (g.chance(40)) { p.maxfail = 1; p.nb++; fails = true; }
	}
	if (sc == SC_BIG) {
		p.lp = g.chance(60) ? 9 : 8; p.lb = 2 + g.below(g.chance(30) ? 5 : 3);
		p.nb = (p.lb > 4 ? 30u : 100u) << g.below(deep ? 6 : 5); p.nb += g.below(p.nb); p.gc = 1 + g.below(6);
	}
	if (sc == SC_PLAIN && g.chance(4)) { p.nb = 1 + g.below(12); nbad = 0; }	// too small to hold (m)any sectors
	factory_bad(g, p, nbad);
	if (p.scenario == SC_SCARRED) scars(g, p);
	p.tearcp = cuts ? g.chance(15) : 1;
	u32 cap = query_capacity(p.lp, p.lb, p.nb, p.gc);
	if (p.scenario == SC_SCARRED) cap = std::max(2u, query_capacity(p.lp, p.lb, p.nb, p.gc, (int)p.bad.size()));

	// logical working set
	u32 t = g.below(100);
	if (sc == SC_FULL) p.ns = cap + 1 + g.below(4);
	else if (t < 25) p.ns = 1 + g.below(6);
	else if (t < 75) p.ns = 4 + g.below(cap);
	else p.ns = cap + g.below(4);
	if ((cuts || sc == SC_STACK || sc == SC_RDERR || sc == SC_ROT) && p.ns > 40) p.ns = 10 + g.below(30);
	if (bursts) p.ns = std::min(p.ns, cap / 2 + 1);
	if (p.ns < 2) p.ns = 2;
	if (sc == SC_BIG) p.ns = g.chance(50) ? 20 + g.below(200) : std::min(cap / 2, 1500u);
	if (sc == SC_EPOCH) p.ns = std::min(cap, 4 + g.below(12));

	// workload mix
	MapMix m; memset(&m, 0, sizeof m);
	m.w[OP_WRITE] = 60; m.w[OP_TRIM] = 12; m.w[OP_COPY] = 6; m.w[OP_COPYPAGE] = 3; m.w[OP_READ] = 6; m.w[OP_FIND] = 3;
	m.w[OP_GC] = 5; m.w[OP_SYNC] = 8; m.w[OP_CLEAR] = 1; m.w[OP_RESTART] = 2; m.w[OP_CHECK] = 2;
	static const int sub[] = { OP_TRIM, OP_COPY, OP_COPYPAGE, OP_READ, OP_FIND, OP_GC, OP_SYNC, OP_CLEAR, OP_RESTART };
	for (int k : sub) { u32 x = g.below(10); if (x < 3) m.w[k] = 0; else if (x == 9) m.w[k] *= 4; }
	if (g.chance(15)) m.w[OP_TRIM] = 60;
	if (g.chance(12)) m.w[OP_SYNC] = 60;
	if (cuts && m.w[OP_SYNC] < 4) m.w[OP_SYNC] = 4;
	if (cuts) { m.w[OP_CRASH] = g.chance(60) ? 2 : 0; m.w[OP_CHECK] = 1; m.w[OP_READ] = 2; }
	const bool rot = sc == SC_ROT || (sc == SC_STACK && !cuts && g.chance(30));
	if (rot) { m.w[OP_RESTART] = 0; m.w[OP_CLEAR] = 0; }
	if (p.maxfail == 2000) m.w[OP_RESTART] = 0;
	if (sc == SC_GC) m.w[OP_GCALL] = 3;
	if (sc == SC_STACK) m.w[OP_FLIP] = 10;
	if (sc == SC_WEAR) { m.w[OP_RESTART] = g.chance(60) ? 6 : 0; m.w[OP_CHECK] = 0; }

	u32 users = p.nb * ((1u << p.lb) - (1u << (p.lb - ppc_of(p.lp, p.lb))));	// one pass over the chip
	u32 nops;
	switch (sc) {
	case SC_PLAIN: case SC_FAIL: nops = 60 + g.below(g.chance(40) ? 4 * users : users + 60); break;
	case SC_FULL: nops = 2 * users + g.below(3 * users); break;
	case SC_WEAR: nops = users + g.below(6 * users); break;
	case SC_CRASH: case SC_CRASHFAIL: case SC_CHAOS: nops = g.chance(40) ? 10 + g.below(40) : 40 + g.below(users + 60); break;
	case SC_BIG: nops = 60; break;
	default: nops = 60 + g.below(2 * users); break;
	}
	if (nops > 4000) nops = 4000;

	u32 hot = g.chance(40) ? 1 + g.below(std::min(p.ns, 6u)) : 0;
	int hotpct = 50 + (int)g.below(45);
	auto slot = [&]() -> u32 { return hot && g.chance(hotpct) ? g.below(hot) : g.below(p.ns); };
	int cutpm = cuts ? (int)(g.chance(50) ? 10 + g.below(60) : g.below(10)) : 0;
	int shpm = cuts ? (int)(g.chance(75) ? 30 + g.below(250) : 0) : 0;
	int failpm = fails ? (int)(5 + g.below(60)) : 0;
	if (sc == SC_EOL) failpm = (int)(10 + g.below(300));
	int rdpm = sc == SC_RDERR || sc == SC_CHAOS ? (int)(20 + g.below(250)) : 0;
	int nullpm = g.chance(30) ? 200 : 0;
	int verpm = g.chance(60) ? 100 + (int)g.below(500) : 0;

	if (fails && g.chance(40) && p.maxfail != 2000) {
		u32 n = 1 + g.below(std::min(p.maxfail, p.nb));
		for (u32 i = 0; i < n; i++) { Bomb b; b.block = g.below(p.nb); b.ttl = 1 + g.below(g.chance(50) ? (1u << p.lb) + 1 : 3 * (1u << p.lb)); b.mode = g.below(4); p.bombs.push_back(b); }
		if (g.chance(30)) {	// "bad day": adjacent blocks that fail early
			u32 b0 = g.below(p.nb); for (auto &b : p.bombs) { b.block = b0++ % p.nb; }
		}
	}

	auto push = [&](Op o) { p.ops.push_back(o); };
	auto mk = [&](int kind) {
		Op o = {}; o.kind = (u8)kind; o.a = slot(); o.b = g.below(p.ns); o.v = g.next();
		if (g.chance1000(nullpm)) o.flags |= FL_NULLERR;
		if (g.chance1000(verpm)) o.flags |= FL_VERIFY;
		return o;
	};

	// fast-forward so that faults land at every position of the chip
	if (sc == SC_EPOCH) {
		u32 passes = 255 + g.below(12); if (g.chance(20)) passes = 510 + g.below(8);
		u32 total = passes * users * 9 / 10 / 1;
		while (total > 0) { Op f = mk(OP_FILL); f.a = std::min(total, 400u); f.b = 0; f.flags = 0; total -= f.a; push(f); push(mk(g.chance(10) ? OP_RESTART : OP_SYNC)); if (g.chance(5)) push(mk(OP_CRASH)); }
		nops = 3 * users;
		m.w[OP_CRASH] = 2;
	} else if (sc == SC_BIG) {
		u32 total = g.below(users + users / 2);
		if (g.chance(10)) total = 0;
		Op f = mk(OP_FILL); f.flags = 0;
		while (total > 0) { f.a = std::min(total, 1000u); f.v = g.next(); f.b = 0; total -= f.a; push(f); push(mk(OP_SYNC)); if (g.chance(10)) push(mk(OP_RESTART)); if (g.chance(3)) push(mk(OP_CRASH)); }
		m.w[OP_CRASH] = 4; m.w[OP_CHECK] = 0; m.w[OP_RESTART] = 4;
	} else if (g.chance(sc == SC_PLAIN ? 40 : 60)) {
		u32 total = g.below(2 * users);
		while (total > 0) { Op f = mk(OP_FILL); f.a = std::min(total, 300u); f.b = 0; f.flags = 0; total -= f.a; push(f); push(mk(OP_SYNC)); }
	}
	if (sc == SC_FULL || (p.ns >= cap && g.chance(50)))
		for (u32 i = 0; i < p.ns; i++) { Op o = mk(OP_WRITE); o.a = i; push(o); }

	u32 cluster = 0, storm = bursts || (sc == SC_EOL && g.chance(40)) ? 1 + g.below(2) : 0;	// storms: nothing can be programmed for a while
	u32 sweeps = g.chance(sc == SC_FULL ? 60 : 30) ? 1 + g.below(4) : 0, sweep = 0, swleft = 0; int swkind = 0;	// the same change to every sector in turn
	for (u32 i = 0; i < nops; i++) {
		if (sweeps && !swleft && g.chance1000(40)) {
			static const int kinds[] = { OP_TRIM, OP_TRIM, OP_WRITE, OP_COPY, OP_COPYPAGE };
			sweeps--; sweep = 1 + g.below(3); swleft = p.ns; swkind = kinds[g.below(5)];
		}
		Op o = mk(m.pick(g));
		if (swleft && !g.chance(3)) {	// now and then something else comes between
			swleft--; o.kind = (u8)swkind;
			if (swkind == OP_COPY || swkind == OP_COPYPAGE) { o.b = sweep == 1 ? swleft : p.ns - 1 - swleft; if (sweep == 3) o.b = g.below(p.ns); }
			else if (sweep < 3) o.a = sweep == 1 ? swleft : p.ns - 1 - swleft;
		}
		bool mutating = o.kind == OP_WRITE || o.kind == OP_TRIM || o.kind == OP_COPY || o.kind == OP_COPYPAGE || o.kind == OP_SYNC || o.kind == OP_GC || o.kind == OP_RESTART;
		if (o.kind == OP_FLIP) o.a = 1 + g.below(60);
		if (mutating) {
			bool syn = o.kind == OP_SYNC || o.kind == OP_RESTART;
			if (p.maxfail == 2000) { if (g.chance1000(50) && !syn) add_fault(o, F_FAILPROG, g.geo(50, 6), g.below(8), 16 + g.below(45)); }
			else if (fails && (g.chance1000(failpm) || (cluster && g.chance(40)))) {
				u32 nth = g.geo(syn ? 75 : 45, 14);
				add_fault(o, F_FAIL, nth, g.below(4), 0);
				if (g.chance(30)) add_fault(o, F_FAIL, nth + 1 + g.geo(60, 10), g.below(4), 0);
				if (g.chance(12)) add_fault(o, F_FAIL, nth + 2 + g.geo(80, 20), g.below(4), 0);
				if (storm && g.chance(bursts ? 50 : 20)) { u32 n = 2 + g.below(14); storm--; if (g.chance(30)) add_fault(o, F_FAILPROG, nth, g.below(4), 4 + g.below(20)); else for (u32 k = 1; k < n; k++) add_fault(o, F_FAIL, nth + k, g.below(4), 0); }
				if (cuts) {
					if (g.chance(60)) add_fault(o, F_SHADOW, NTH_ALL, 0, fault_arg(g));
					else if (g.chance(50)) add_fault(o, F_CUT, nth + g.geo(70, 12), g.below(4), fault_arg(g));
				}
				cluster = 3;
			} else if (cluster) cluster--;
			if (g.chance1000(cutpm)) add_fault(o, F_CUT, g.geo(syn ? 80 : 50, 16), g.below(4), fault_arg(g));
			if (g.chance1000(shpm)) {
				if (g.chance(25)) add_fault(o, F_SHADOW, NTH_ALL, 0, fault_arg(g));
				else add_fault(o, F_SHADOW, g.geo(syn ? 80 : 50, 16), g.below(4), fault_arg(g));
			}
		}
		if (rdpm && (mutating || o.kind == OP_READ || o.kind == OP_FIND) && g.chance1000(rdpm)) {
			add_fault(o, F_RDERR, g.geo(80, 60), 0, 0);
			if (g.chance(30)) add_fault(o, F_RDERR, g.geo(90, 60), 0, 0);
			if (o.kind == OP_RESTART) o.kind = OP_SYNC;
			if (p.maxfail && mutating && g.chance(30)) add_fault(o, F_FAIL, g.geo(45, 8), g.below(4), 0);
			if (g.chance(6)) { push(o); o = mk(OP_CLEAR); }
			else if (g.chance(70)) { push(o); o.faults.clear(); }	// the retry
		}
		push(o);
	}
	if (rot) {
		u32 n = 1 + g.below(3);
		for (u32 i = 0; i < n; i++) { Op o = mk(OP_ROT); if (p.ecc) o.v = g.next(); o.a = g.below(p.nb << p.lb); o.b = g.chance(40); p.ops.insert(p.ops.begin() + p.ops.size() / 3 + g.below((u32)p.ops.size() * 2 / 3), o); }
	}
}

// A chip much bigger than its data, with the journal anywhere on it.
static void gen_huge(Rng &g, Plan &p, bool deep)
{
	u64 seed = p.seed;
	static const int base[] = { SC_PLAIN, SC_FAIL, SC_CRASH, SC_CRASH, SC_CRASHFAIL, SC_CRASHFAIL };
	bool wide = g.chance1000(4);	// pages with room for the metadata of hundreds
	gen_map(base[wide ? g.below(2) : g.below(6)], g, p, deep);
	p.scenario = SC_HUGE; p.seed = seed; p.huge = 1 + g.below(2);
	if (g.chance(40)) p.lb = 4 + g.below(5);
	if (g.chance(3)) p.lb = 9 + g.below(3);
	if (g.chance(3)) p.lp = 13 + g.below(2);
	if (wide) { p.lp = 15 + g.below(3); p.lb = 7 + g.below(4); }
	u32 lim = 31 - p.lb, x = g.below(100);	// 2^31 pages
	if (x < 25) p.nb = 1u << lim;
	else if (x < 45) p.nb = (1u << lim) - 1 - g.below(100);
	else if (x < 60) p.nb = 65536 - 40 + g.below(80);
	else if (x < 80) { p.nb = 1u << g.range(7, (int)lim); p.nb += g.below(p.nb) & ((1u << lim) - 1); if (p.nb > 1u << lim) p.nb = 1u << lim; }
	else p.nb = 100 + g.below(2000);
	if (p.nb > 1u << lim) p.nb = 1u << lim;
	u32 r = g.below(100), span = 1 + g.below(12);
	if (r < 15) p.headblk = 0;
	else if (r < 45) p.headblk = p.nb - span;
	else if (r < 60) p.headblk = (1u << g.range(5, 31 - (int)p.lb)) - g.below(3);
	else if (r < 75) p.headblk = p.nb / 2 + g.below(5) - 2;
	else p.headblk = 1 + g.below(p.nb - 1);
	if (p.headblk >= p.nb) p.headblk = p.nb - span;
	if (!p.headblk) p.huge = 1;
	p.epoch = g.chance(30) ? 255 - g.below(2) : g.below(256);
	if (p.ns > 40) p.ns = 10 + g.below(30);
	if (p.ops.size() > 400) p.ops.resize(400);
	for (auto &o : p.ops) if (o.kind == OP_FILL) o.a = std::min(o.a, 100u);
	if (wide) { if (p.ops.size() > 60) p.ops.resize(60); Op f = {}; f.kind = OP_FILL; f.v = g.next(); f.a = 200 + g.below(600); p.ops.insert(p.ops.begin() + g.below((u32)p.ops.size()), f); }
	// bad blocks and blocks about to fail lie around the journal, or where a search for it looks
	std::vector<u32> b = p.bad; p.bad.clear();
	auto place = [&]() -> u32 {
		u32 y = g.below(100);
		if (y < 60) return (u32)((p.headblk + (u64)g.below(12)) % p.nb);
		if (y < 70) return g.below(std::min(4u, p.nb));
		u32 lo = 0, hi = p.nb - 1, mid = 0;	// a probe of a binary search for the head
		for (u32 k = g.below(32); k && lo < hi; k--) { mid = lo + (hi - lo) / 2; if (mid < p.headblk) lo = mid + 1; else hi = mid; }
		return lo + (hi - lo) / 2;
	};
	for (size_t i = 0; i < b.size(); i++) { u32 v = place(); if (v != p.headblk && std::find(p.bad.begin(), p.bad.end(), v) == p.bad.end()) p.bad.push_back(v); }
	for (auto &x : p.bombs) x.block = (u32)((p.headblk + (u64)g.below(8)) % p.nb);
}

static void gen_journal(int sc, Rng &g, Plan &p, bool)
{
	bool fails = sc == SC_JFAIL || sc == SC_JCRASHFAIL, cuts = sc == SC_JCRASH || sc == SC_JCRASHFAIL;
	p.maxfail = fails ? 1 + g.below(4) : 0;
	u32 nbad = g.chance(35) ? 1 + g.below(2) : 0;
	bool bursts = fails && g.chance(12);	// as for the map
	if (bursts) { p.maxfail = 5 + g.below(2); nbad = 0; }
	geometry(g, p, 2, 20, nbad + p.maxfail, true);
	p.nb = 5 + g.below(12) + nbad + 3 * p.maxfail;
	if (sc == SC_JPLAIN && g.chance(6)) { p.nb = 4 + g.below(2); nbad = 0; }
	factory_bad(g, p, nbad);
	if (!bursts && g.chance(12)) { scars(g, p); if (p.secmode >= 4) p.secmode = 0; }
	p.tearcp = cuts ? g.chance(30) : 1;
	MapMix m; memset(&m, 0, sizeof m);
	m.w[OP_ENQ] = 40; m.w[OP_ENQNULL] = 6; m.w[OP_REQ] = 10; m.w[OP_DEQ] = 30; m.w[OP_META] = 6; m.w[OP_COOKIE] = 4;
	m.w[OP_JCLEAR] = 1; m.w[OP_JSYNC] = 8; m.w[OP_JRESTART] = 2; m.w[OP_CHECK] = 2; m.w[OP_FILL] = fails ? 0 : 1;
	static const int sub[] = { OP_ENQNULL, OP_REQ, OP_META, OP_COOKIE, OP_JCLEAR, OP_JSYNC, OP_JRESTART, OP_FILL };
	for (int k : sub) { u32 x = g.below(10); if (x < 3) m.w[k] = 0; else if (x == 9) m.w[k] *= 4; }
	if (p.secmode == 4) m.w[OP_FILL] = 3;
	if (g.chance(20)) m.w[OP_DEQ] = 45;
	if (g.chance(20)) m.w[OP_DEQ] = 15;
	if (cuts) m.w[OP_JCRASH] = 2;
	u32 users = p.nb * ((1u << p.lb) - (1u << (p.lb - ppc_of(p.lp, p.lb))));
	u32 nops = 40 + g.below(g.chance(40) ? 8 * users : 2 * users + 40);
	if (nops > 4000) nops = 4000;
	int failpm = fails ? (int)(5 + g.below(60)) : 0, cutpm = cuts ? (int)(10 + g.below(60)) : 0, nullpm = g.chance(30) ? 200 : 0;
	int shpm = cuts ? (int)(g.below(200)) : 0;
	p.ns = 4 + g.below(users);	// target queue length
	if (bursts) p.ns = 4 + g.below(users / 4);
	u32 storm = bursts ? 1 + g.below(2) : 0;
	for (u32 i = 0; i < nops; i++) {
		Op o = {}; o.kind = (u8)m.pick(g); o.a = (u32)(g.next() >> 40); o.b = (u32)(g.next() >> 40); o.v = g.next();
		if (g.chance1000(nullpm)) o.flags |= FL_NULLERR;
		if (o.kind == OP_ENQ || o.kind == OP_ENQNULL || o.kind == OP_REQ || o.kind == OP_JSYNC) {
			if (fails && g.chance1000(failpm)) {
				u32 nth = g.geo(40, 6); add_fault(o, F_FAIL, nth, g.below(4), 0);
				if (g.chance(30)) add_fault(o, F_FAIL, nth + 1 + g.geo(60, 10), g.below(4), 0);
				if (storm && g.chance(50)) { u32 n = 2 + g.below(14); storm--; if (g.chance(30)) add_fault(o, F_FAILPROG, nth, g.below(4), 4 + g.below(20)); else for (u32 k = 1; k < n; k++) add_fault(o, F_FAIL, nth + k, g.below(4), 0); }
			}
			if (cuts && g.chance1000(cutpm)) add_fault(o, F_CUT, g.geo(40, 8), g.below(4), fault_arg(g));
			if (cuts && g.chance1000(shpm)) add_fault(o, F_SHADOW, NTH_ALL, 0, fault_arg(g));
		}
		p.ops.push_back(o);
	}
	if (fails && g.chance(40)) {
		u32 n = 1 + g.below(p.maxfail);
		for (u32 i = 0; i < n; i++) { Bomb b; b.block = g.below(p.nb); b.ttl = 1 + g.below(3 * (1u << p.lb)); b.mode = g.below(4); p.bombs.push_back(b); }
	}
}

static void gen_ecc(int sc, Rng &g, Plan &p, bool)
{
	p.nb = 1; p.lb = 1; p.lp = 8; p.maxfail = 0;
	if (sc == SC_BCH || sc == SC_BCHV) { p.ecc = 2 + g.below(4); p.chunk = (u32)sh_bch_max_chunk(); }
	else if (sc == SC_HAM) { p.ecc = 1; p.chunk = (u32)sh_ham_max_chunk(); }
	else { p.ecc = 0; p.chunk = 512; }
	u32 t = g.below(100);
	if (t < 25) p.chunk = 1 + g.below(40); else if (t < 75) p.chunk = 1 + g.below(p.chunk);
	if (sc == SC_BCHV && g.chance(60)) p.chunk = 1 + g.below(96);
	p.ns = 1 + g.below(4);
	p.secmode = g.below(3);		// shape of the stored data
	u32 n = (sc == SC_BCHV ? 4 : 10) + g.below(sc == SC_BCHV ? 16 : 40);
	for (u32 i = 0; i < p.ns; i++) { Op o = {}; o.kind = OP_PUT; o.a = i; o.v = g.next(); p.ops.push_back(o); }
	for (u32 i = 0; i < n; i++) {
		Op o = {}; u32 x = g.below(100);
		o.kind = x < 45 ? OP_BITS : x < 60 ? OP_GET : x < 70 ? OP_SCRUB : x < 80 ? OP_PUT : x < 86 ? OP_ERASEDCHK : OP_BURST;
		o.a = g.below(p.ns); o.b = 1 + g.below(g.chance(80) ? (p.ecc > 1 ? p.ecc - 1 : p.ecc ? 2 : 3) : 9); o.v = g.next();
		p.ops.push_back(o);
		if ((o.kind == OP_BITS || o.kind == OP_BURST) && g.chance(80)) { Op q = o; q.kind = OP_GET; p.ops.push_back(q); }
	}
}

void gen_plan(int sc, u64 seed, Plan &p, bool deep)
{
	p = Plan(); p.scenario = (u32)sc; p.seed = seed;
	Rng g(mix2(seed, 0xd4a2a + (u64)sc));
	if (sc == SC_TWIN || sc == SC_PAIR || sc == SC_UPGRADE) {
		static const int tw[] = { SC_PLAIN, SC_FAIL, SC_FAIL, SC_CRASH, SC_CRASHFAIL, SC_CRASHFAIL, SC_RDERR, SC_ROT, SC_FULL, SC_JPLAIN, SC_JFAIL, SC_JCRASHFAIL, SC_HUGE, SC_SCARRED };
		static const int pa[] = { SC_PLAIN, SC_PLAIN, SC_FAIL, SC_FAIL, SC_CRASH, SC_CRASHFAIL, SC_RDERR, SC_ROT, SC_GC, SC_JPLAIN, SC_JFAIL, SC_JCRASHFAIL, SC_SCARRED, SC_EOL };
		static const int up[] = { SC_PLAIN, SC_FULL, SC_FAIL, SC_CRASH, SC_CRASH, SC_CRASHFAIL, SC_CRASHFAIL, SC_JPLAIN, SC_JCRASH, SC_JCRASHFAIL, SC_HUGE, SC_SCARRED };
		int base = sc == SC_TWIN ? tw[g.below(14)] : sc == SC_PAIR ? pa[g.below(14)] : up[g.below(12)];
		bool ecc = sc == SC_PAIR && g.chance(8);	// two error-correcting codes computed at the same time
		if (ecc) base = SC_BCH + g.below(3);
		gen_plan(base, g.next() & 0xffffffffffffull, p, deep);
		if (sc == SC_TWIN) p.twin = 1;
		else if (sc == SC_PAIR) { p.pairlen = 4000; p.pairsc = (u32)pa[g.below(14)]; p.pairseed = g.next() & 0xffffffffffffull; if (ecc) p.pairsc = SC_BCH + g.below(3); }
		else {
			p.upgrade = 1;
			for (auto &o : p.ops) { if (o.kind == OP_SYNC && g.chance(25)) o.kind = OP_RESTART; if (o.kind == OP_JSYNC && g.chance(25)) o.kind = OP_JRESTART; }
		}
		return;
	}
	p.killbad = mix2(seed, 0x6b11 + (u64)sc) & 1;
	p.rdbuf = (u32)(mix2(seed, 0x4d0f + (u64)sc) % 3);
	if (sc >= SC_BCH) gen_ecc(sc, g, p, deep);
	else if (sc >= SC_JPLAIN) gen_journal(sc, g, p, deep);
	else if (sc == SC_HUGE) gen_huge(g, p, deep);
	else if (sc == SC_SCARRED) {
		static const int base[] = { SC_PLAIN, SC_FULL, SC_FULL, SC_FAIL, SC_CRASH, SC_CRASHFAIL, SC_GC, SC_WEAR };
		gen_map(g.chance(2) ? SC_BIG : base[g.below(8)], g, p, deep);	// now and then hundreds of bad blocks
	}
	else gen_map(sc, g, p, deep);
}
