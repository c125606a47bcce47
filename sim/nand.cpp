#include "handle.h"

static u32 calc_ppc(u32 lp, u32 lb)
{
	// Documented checkpoint layout: 16-byte header, 4-byte cookie, one
	// metadata slice per user page.  Used only to attribute faults to
	// "checkpoint page" or "user page" in the statistics and to recognise
	// known findings, never as an oracle.
	int max_meta = (1 << lp) - 16 - sh_cookie_size();
	int total = META_SIZE; u32 ppc = 1;
	while (ppc < lb) { total = total * 2 + META_SIZE; if (total > max_meta) break; ppc++; }
	return ppc;
}

void SimNand::grow(u32 nblocks) const
{
	if (!huge) data.resize(((size_t)nblocks << lb) * psize, 0xff);
	st.resize((size_t)nblocks << lb, P_ERASED); tag.resize((size_t)nblocks << lb, T_NONE); attempt.resize((size_t)nblocks << lb, 0);
	Blk z; memset(&z, 0, sizeof z); blk.resize(nblocks, z);
}

u32 SimNand::touch(u32 b) const
{
	u32 s = (u32)bnum.size(); bnum.push_back(b); where[b] = s;
	grow(s + 1); init_block(b);
	return s;
}

// What a page holds when the simulation starts.
u8 SimNand::synth(u32 pg, u8 *d) const
{
	u32 b = pg >> lb;
	if (huge && (b < headblk || (b > headblk && oldpass))) {
		// user pages and checkpoints of an earlier time, none of it needed
		u32 ep = b < headblk ? epoch0 : epoch0 - 1;
		for (u32 k = 0; k < psize; k += 8) { u64 x = mix2(salt + k, pg); memcpy(d + k, &x, 8); }
		if (is_cp(pg)) {
			u32 tail = b << lb;
			d[0] = 'D'; d[1] = 'h'; d[2] = 'a'; d[3] = (u8)ep; memset(d + 8, 0, 8);
			for (int k = 0; k < 4; k++) d[4 + k] = (u8)(tail >> (8 * k));
		}
		return P_DATA;
	}
	u32 m = init == 3 ? (u32)(mix2(salt, b) % 3) : init;
	if (m == 1) {
		for (u32 k = 0; k < psize; k++) d[k] = (u8)(0x55 ^ (mix2(salt, pg) >> (k & 7)));
		// something that looks much like a checkpoint
		u64 h = mix2(salt ^ 0x3a91c, pg);
		if (h % 3 == 0) { memcpy(d, "Dha", 3); d[(h >> 8) % 3] ^= 1 + (h >> 16) % 255; }
		return P_GARB;
	}
	memset(d, 0xff, psize);
	return m == 2 ? P_TORN : P_ERASED;
}

void SimNand::init_block(u32 b) const
{
	std::vector<u8> d(psize);
	for (u32 i = 0; i < ppb; i++) {
		u32 pg = (b << lb) + i;
		if (!huge || !i) st[ix(pg)] = synth(pg, d.data()); else st[ix(pg)] = st[ix(pg - 1)];
		if (st[ix(pg)] != P_ERASED) B(b).next = ppb;
		if (st[ix(pg)] == P_GARB || st[ix(pg)] == P_TORN) tag[ix(pg)] = T_INIT;
		if (huge) continue;
		memcpy(page(pg), d.data(), psize);
		if (!ecc) continue;
		if (st[pg] == P_GARB) const_cast<SimNand *>(this)->encode(pg, d.data());
		if (st[pg] == P_TORN) { u8 *q = &const_cast<SimNand *>(this)->raw[(size_t)pg * rawsz]; for (u32 k = 0; k < rawsz; k++) q[k] = (u8)mix2(salt, (u64)pg * rawsz + k); }
	}
}

u8 *SimNand::page(u32 p) const
{
	if (!huge) return &data[(size_t)p * psize];
	auto i = pages.find(p);
	if (i != pages.end()) return i->second.data();
	auto &v = pages[p]; v.resize(psize);
	if (st[ix(p)] == P_ERASED) memset(v.data(), 0xff, psize); else synth(p, v.data());
	return v.data();
}

void SimNand::forget(u32 p, u8 fill) const
{
	if (huge) pages.erase(p); else memset(page(p), fill, psize);
}

SimNand::SimNand(const Plan &p, Result *r)
{
	lp = p.lp; lb = p.lb; nb = p.nb; psize = 1u << lp; ppb = 1u << lb; npages = nb << lb;
	log2_ppc = calc_ppc(lp, lb);
	imprecise = p.imprecise; tearcp = p.tearcp; killbad = p.killbad; rdbuf = p.rdbuf; maxfail = p.maxfail; salt = mix2(p.seed, 77); res = r;
	huge = p.huge; init = p.init; headblk = p.headblk; epoch0 = p.epoch; oldpass = p.huge > 1 ? p.huge - 1 : 0;
	ecc = p.ecc; chunk = p.chunk;
	if (ecc) {
		nchunks = psize / chunk;
		u32 eb = ecc == 1 ? 3 : (u32)sh_bch_ecc_bytes(ecc - 1);
		// per chunk: data, 4 CRC bytes, ECC over data+CRC
		oob = 4 + eb; rawsz = nchunks * (chunk + oob);
		raw.assign((size_t)npages * rawsz, 0xff);
		flips.assign((size_t)npages * nchunks, 0);
	}
	if (!huge) {
		grow(nb);
		for (u32 b = 0; b < nb; b++) init_block(b);
	}
	for (u32 b : p.bad) if (b < nb) {
		Blk &k = B(b);
		k.bad = k.failed = k.factory = 1;
		for (u32 i = 0; i < ppb; i++) {
			u32 pg = (b << lb) + i; u8 *d = page(pg);
			st[ix(pg)] = p.badread ? P_GARB : P_TORN; tag[ix(pg)] = T_INIT;
			for (u32 k = 0; k < psize; k++) d[k] = (u8)mix2(salt, (u64)pg * 8192 + k);
			if (ecc) encode(pg, d);
		}
	}
	for (auto &x : p.bombs) if (x.block < nb && !B(x.block).bad) { B(x.block).bomb = x.ttl; B(x.block).bombmode = x.mode; }
	cn = sh_nand_new(this, lp, lb, nb); cn_ref = ref_sh_nand_new(this, lp, lb, nb);
}

SimNand::SimNand(const SimNand &o)
	: lp(o.lp), lb(o.lb), nb(o.nb), psize(o.psize), ppb(o.ppb), npages(o.npages), log2_ppc(o.log2_ppc),
	  imprecise(o.imprecise), tearcp(o.tearcp), killbad(o.killbad), rdbuf(o.rdbuf), maxfail(o.maxfail), nfailed(o.nfailed), salt(o.salt), data(o.data), st(o.st), tag(o.tag), attempt(o.attempt), blk(o.blk),
	  huge(o.huge), init(o.init), headblk(o.headblk), epoch0(o.epoch0), oldpass(o.oldpass), where(o.where), bnum(o.bnum), pages(o.pages),
	  session(o.session), ecc(o.ecc), chunk(o.chunk), oob(o.oob), rawsz(o.rawsz), nchunks(o.nchunks),
	  raw(o.raw), flips(o.flips)
{
	res = o.res; opidx = o.opidx;
	cn = sh_nand_new(this, lp, lb, nb); cn_ref = ref_sh_nand_new(this, lp, lb, nb);
}

SimNand::~SimNand() { sh_nand_free(cn); ref_sh_nand_free(cn_ref); }

void SimNand::violate(const char *kind, const std::string &msg)
{
	for (auto &v : res->viol) if (v.kind == kind) return;	// first of each kind
	res->viol.push_back({kind, opidx, msg});
	if (g_trace) fprintf(stderr, "!! op %d: %s: %s\n", opidx, kind, msg.c_str());
}

void SimNand::stop(const char *kind, const std::string &msg) { violate(kind, msg); throw Stop(); }

void SimNand::begin_call(const std::vector<Fault> *f, int op)
{
	armed = f; mutidx = rdidx = 0; if (op >= 0) opidx = op;
	c_read = c_prog = c_erase = c_mark = c_isbad = c_isfree = c_fail = c_rderr = 0;
	budget = 400000; last_ecc_page = PAGE_NONE; last_ecc_tag = 0; erased_since = false;
}

void SimNand::end_call() { armed = nullptr; }
void SimNand::power_cycle() { session++; armed = nullptr; for (auto &b : blk) b.reported = 0; }

void sim_yield();
void SimNand::tick()
{
	sim_yield();
	if (budget-- == 0) stop("hang", "API call issued more than 400000 NAND operations");
}

// The environment never produces more block failures than the design allows
// for: a budget per chip, and never more than 4 (where they fail in bursts: 6)
// bad blocks in a row.
bool SimNand::allow_fail(u32 b) const
{
	if (nfailed >= maxfail) return false;
	if (maxfail >= 1000) {	// end of life: any number, but at least 4 (or 3) of any 8 blocks in a row stay good
		for (u32 o = 0; o < 8; o++) {
			u32 n = 0;
			for (u32 i = 0; i < 8; i++) { u32 x = (b + nb + i - o) % nb; n += x == b || B(x).bad || B(x).failed; }
			if (n > maxfail % 1000 + 4) return false;
		}
		return true;
	}
	u32 run = 1;
	for (u32 i = 1; i <= 8; i++) { const Blk &x = B((b + i) % nb); if (!(x.bad || x.failed)) break; run++; }
	for (u32 i = 1; i <= 8; i++) { const Blk &x = B((b + nb - i) % nb); if (!(x.bad || x.failed)) break; run++; }
	return run <= (maxfail > 4 ? maxfail : 4u);
}

bool SimNand::looks_free(u32 p) const { return st[ix(p)] == P_ERASED; }

int SimNand::is_bad(u32 b)
{
	tick();
	if (b >= nb) stop("proto-range", strf("is_bad(block %u) of %u", b, nb));
	c_isbad++;
	hash = mix2(hash, 0x100000000ull + b);
	return B(b).bad;
}

void SimNand::mark_bad(u32 b)
{
	tick();
	if (b >= nb) stop("proto-range", strf("mark_bad(block %u) of %u", b, nb));
	hash = mix2(hash, 0x200000000ull + b);
	mutation(MUT_MARK, b, nullptr);
	c_mark++; res->st.v[ST_MARKS]++;
	if (!B(b).reported && !B(b).factory) {
		// a block that never reported a failure in this power session
		if (!B(b).failed) violate("retire-good", strf("block %u marked bad although no program or erase on it ever failed", b));
	}
	B(b).bad = 1;
	if (killbad) kill_block(b);
}

void SimNand::kill_block(u32 b) { eff_erase(b, EFF_TORN, T_MARKED, mix2(salt, b)); }

// Power-cut effect actually applied (a torn checkpoint page only if the plan
// allows it; a bad-block mark is atomic).
u32 SimNand::cut_mode(MutKind k, u32 target, u32 mode, bool clone) const
{
	mode &= 3;
	if (k == MUT_MARK) return mode == EFF_FULL ? EFF_FULL : EFF_NONE;
	if (k != MUT_ERASE) {
		if (mode == EFF_MIX) mode = EFF_TORN;
		if (mode == EFF_TORN && is_cp(target) && !tearcp && !clone) mode = EFF_NONE;
		if (mode == EFF_TORN && B(target >> lb).failed) mode = EFF_NONE;
	}
	return mode;
}

void SimNand::apply_cut(MutKind k, u32 target, const u8 *d, u32 mode, u64 arg)
{
	if (k == MUT_ERASE) eff_erase(target, mode, T_CUTERASE, arg);
	else if (k == MUT_MARK) { if (mode == EFF_FULL) { B(target).bad = 1; if (killbad) kill_block(target); } }
	else eff_prog(target, d, mode, T_CUT, arg);
}

// One NAND operation that changes the medium: power cuts, shadow crashes and
// block failures are decided here.
bool SimNand::mutation(MutKind k, u32 target, const u8 *d)
{
	u32 idx = mutidx++;
	total_mut++;
	if (g_trace > 1) fprintf(stderr, "      nand %s %u\n", k == MUT_ERASE ? "erase" : k == MUT_MARK ? "mark" : k == MUT_PROG ? "prog" : "copy->", target);
	if (armed) {
		for (auto &f : *armed) if (f.kind == F_SHADOW && (f.nth == idx || f.nth == NTH_ALL) && hooks) hooks->shadow(*this, k, target, d, f);
		for (auto &f : *armed) if (f.kind == F_CUT && f.nth == idx) {
			u32 mode = cut_mode(k, target, f.mode);
			if (hooks) hooks->on_cut(*this, k, target, mode);
			apply_cut(k, target, d, mode, f.arg);
			armed = nullptr;
			throw PowerCut();
		}
	}
	if (k == MUT_MARK || calm) return false;
	u32 bi = k == MUT_ERASE ? target : target >> lb;
	Blk &b = B(bi);
	// failprog: arg operations long erasing works and programming does not (mode 4..7: nothing works)
	if (armed) for (auto &f : *armed) if ((f.kind == F_FAIL ? f.nth == idx || f.nth == NTH_ALL : f.kind == F_FAILPROG && (k != MUT_ERASE || f.mode > 3) && idx - f.nth < f.arg) && !b.failed && ((f.kind == F_FAILPROG && maxfail >= 2000) || allow_fail(bi))) { b.failed = 1; nfailed++; b.mode = f.mode & 3; }
	if (b.bomb && --b.bomb == 0 && !b.failed && allow_fail(bi)) { b.failed = 1; nfailed++; b.mode = b.bombmode; }
	if (b.failed) {
		b.reported = 1; c_fail++;
		if (hooks) hooks->on_fail(*this, k, target);
		return true;
	}
	return false;
}

void SimNand::set_content(u32 p, const u8 *d)
{
	memcpy(page(p), d, psize);
	if (ecc) encode(p, d);
}

void SimNand::eff_prog(u32 p, const u8 *d, u32 eff, u8 tg, u64 seed)
{
	Blk &b = B(p >> lb); u32 pno = p & (ppb - 1);
	if (eff == EFF_NONE) return;
	if (eff == EFF_FULL) {
		bool allff = true;
		if (imprecise) for (u32 i = 0; i < psize && allff; i++) allff = d[i] == 0xff;
		if (imprecise && allff) return;		// programming all-0xff is a no-op
		set_content(p, d); st[ix(p)] = P_DATA; tag[ix(p)] = T_NONE;
		b.next = std::max(b.next, pno + 1);
		return;
	}
	// torn: unreadable, and not erased any more
	if (ecc) {
		// some cells have reached their programmed value, others not yet
		encode(p, d);
		u8 *r = &raw[(size_t)p * rawsz]; Rng g(seed ^ 0x7031); bool changed = false;
		for (u32 i = 0; i < rawsz; i++) { u8 m = (u8)(g.next() >> 20); u8 n = r[i] | m; if (n != r[i]) changed = true; r[i] = n; }
		std::vector<u8> buf(psize); Stats keep = res->st;
		const bool good = changed ? decode(p, buf.data()) && !memcmp(buf.data(), d, psize) : true;
		res->st = keep;
		if (good) {	// so little was missing that the code makes up for it
			set_content(p, d); st[ix(p)] = P_DATA; tag[ix(p)] = T_NONE; b.next = std::max(b.next, pno + 1);
			return;
		}
	}
	forget(p, 0xA7);
	st[ix(p)] = P_TORN; tag[ix(p)] = tg; b.next = std::max(b.next, pno + 1);
}

void SimNand::eff_erase(u32 b, u32 eff, u8 tg, u64 seed)
{
	if (eff == EFF_NONE) return;
	Rng g(seed ^ 0xe7a5e);
	for (u32 i = 0; i < ppb; i++) {
		u32 p = (b << lb) + i;
		u32 e = eff == EFF_MIX ? (u32)(EFF_NONE + g.below(3)) : eff;
		if (e == EFF_NONE) continue;
		if (e == EFF_FULL) {
			forget(p, 0xff); st[ix(p)] = P_ERASED; tag[ix(p)] = T_NONE; attempt[ix(p)] = 0;
			if (ecc) { memset(&raw[(size_t)p * rawsz], 0xff, rawsz); memset(&flips[(size_t)p * nchunks], 0, nchunks); }
		} else {
			forget(p, 0x3C); st[ix(p)] = P_TORN; tag[ix(p)] = tg;
			if (ecc) { u8 *r = &raw[(size_t)p * rawsz]; for (u32 k = 0; k < rawsz; k++) r[k] = (u8)g.next(); }
		}
	}
	// whatever is left must not be programmed without another erase
	B(b).next = ppb; B(b).torn_erase = 1;
	if (eff == EFF_FULL) { B(b).next = 0; B(b).torn_erase = 0; }
}

int SimNand::erase(u32 b)
{
	tick();
	if (b >= nb) stop("proto-range", strf("erase(block %u) of %u", b, nb));
	hash = mix2(hash, 0x300000000ull + b);
	if (B(b).bad) violate("proto-bad-use", strf("erase of block %u, which is marked bad", b));
	if (B(b).reported) violate("proto-failed-reuse", strf("erase of block %u after it reported a failure in this session", b));
	bool fail = mutation(MUT_ERASE, b, nullptr);
	c_erase++; res->st.v[ST_ERASES]++; erased_since = true;
	B(b).erases++; B(b).retry = 0;
	if (fail) {
		res->st.v[ST_FAIL_ERASE]++;
		switch (B(b).mode & 3) {
		case 0: eff_erase(b, EFF_TORN, T_FAILED, mix2(salt, b)); break;
		case 1: for (u32 i = 0; i < ppb; i++) { u32 p = (b << lb) + i; for (u32 k = 0; k < psize; k++) page(p)[k] = (u8)mix2(salt ^ 5, (u64)p * 8192 + k); st[ix(p)] = P_GARB; tag[ix(p)] = T_FAILED; if (ecc) encode(p, page(p)); } break;
		case 2: break;
		case 3: eff_erase(b, EFF_MIX, T_FAILED, mix2(salt, b)); break;
		}
		B(b).next = ppb; B(b).torn_erase = 1; B(b).erase_failed = 1;
		return EC_BAD_BLOCK;
	}
	eff_erase(b, EFF_FULL, T_NONE, 0);
	return 0;
}

int SimNand::prog(u32 p, const u8 *d, bool from_copy)
{
	tick();
	u32 b = p >> lb, pno = p & (ppb - 1);
	if (p >= npages) stop("proto-range", strf("prog(page %u) of %u", p, npages));
	hash = mix2(mix2(hash, 0x400000000ull + p), hash_bytes(d, psize));
	if (B(b).bad) violate("proto-bad-use", strf("program of page %u in block %u, which is marked bad", p, b));
	else if (B(b).retry) {}	// out of space: there is nowhere else to go
	else if (B(b).reported) violate("proto-failed-reuse", strf("program of page %u in block %u after the block reported a failure in this session", p, b));
	else if (st[ix(p)] != P_ERASED || attempt[ix(p)] == session) violate("proto-reprogram", strf("program of page %u (block %u), which was already programmed since its last erase", p, b));
	else if (pno < B(b).next) violate("proto-order", strf("program of page %u of block %u after page %u of that block", pno, b, B(b).next - 1));
	attempt[ix(p)] = session;
	if (imprecise) { bool allff = true; for (u32 i = 0; i < psize && allff; i++) allff = d[i] == 0xff; if (allff) attempt[ix(p)] = 0; }
	bool fail = mutation(from_copy ? MUT_COPY : MUT_PROG, p, d);
	c_prog++; res->st.v[ST_PROGS]++;
	if (hooks) hooks->on_prog(*this, p);
	if (fail) {
		res->st.v[from_copy ? ST_FAIL_COPY : is_cp(p) ? ST_FAIL_CP : ST_FAIL_PROG]++;
		u32 mode = B(b).mode & 3;
		if (mode < 2 && is_cp(p) && !tearcp) mode = 3;
		if (mode == 1 && is_cp(p) && nogarbcp) mode = 0;
		switch (mode) {
		case 0: eff_prog(p, d, EFF_TORN, T_FAILED, mix2(salt, p)); break;
		case 1: { std::vector<u8> g(psize); for (u32 k = 0; k < psize; k++) g[k] = (u8)mix2(salt ^ 9, (u64)p * 8192 + k); set_content(p, g.data()); st[ix(p)] = P_GARB; tag[ix(p)] = T_FAILED; B(b).next = std::max(B(b).next, pno + 1); break; }
		case 2: eff_prog(p, d, EFF_FULL, T_FAILED, 0); tag[ix(p)] = T_FAILED; break;
		case 3: break;
		}
		return EC_BAD_BLOCK;
	}
	eff_prog(p, d, EFF_FULL, T_NONE, 0);
	return 0;
}

int SimNand::is_free(u32 p)
{
	tick();
	if (p >= npages) stop("proto-range", strf("is_free(page %u) of %u", p, npages));
	c_isfree++;
	hash = mix2(hash, 0x500000000ull + p);
	return looks_free(p);
}

// What a driver leaves in the caller's buffer when a read fails: junk,
// nothing at all, or the data as it is, uncorrected.
void SimNand::unread(u32 p, size_t off, size_t len, u8 *out) const
{
	if (rdbuf == 1) return;
	if (rdbuf == 2 && (!huge || pages.count(p))) memcpy(out, page(p) + off, len);
	else for (size_t i = 0; i < len; i++) out[i] = (u8)mix2(p, i);
}

int SimNand::read(u32 p, size_t off, size_t len, u8 *out)
{
	tick();
	if (p >= npages) stop("proto-range", strf("read(page %u) of %u", p, npages));
	if (off > psize || len > psize || off + len > psize) stop("proto-range", strf("read(page %u, offset %zu, length %zu) with page size %u", p, off, len, psize));
	if (!quiet) { c_read++; res->st.v[ST_READS]++; }
	hash = mix2(hash, 0x600000000ull + p + ((u64)off << 40));
	bool meta = len < psize;
	if (armed) {
		u32 idx = rdidx++;
		for (auto &f : *armed) if (f.kind == F_RDERR && f.nth == idx) {
			c_rderr++; last_ecc_page = p; last_ecc_tag = T_NONE;
			if (hooks) hooks->on_rderr(*this, p, meta);
			unread(p, off, len, out);
			return EC_ECC;
		}
	}
	if (ecc && st[ix(p)] != P_TORN) {
		std::vector<u8> buf(psize);
		if (!decode(p, buf.data())) {
			res->st.v[ST_UNCORR]++;
			last_ecc_page = p; last_ecc_tag = tag[ix(p)];
			if (rdbuf == 2) memcpy(out, buf.data() + off, len); else unread(p, off, len, out);
			return EC_ECC;
		}
		memcpy(out, buf.data() + off, len);
		return 0;
	}
	if (st[ix(p)] == P_TORN) {
		if (ecc) {
			std::vector<u8> buf(psize);
			if (decode(p, buf.data()))
				violate("ecc-undetected", strf("page %u holds an interrupted program/erase but passed ECC and CRC", p));
		}
		last_ecc_page = p; last_ecc_tag = tag[ix(p)];
		unread(p, off, len, out);
		return EC_ECC;
	}
	if (huge && !pages.count(p)) {
		// not kept: an erased page, or one from before the simulation
		std::vector<u8> d(psize, 0xff);
		if (st[ix(p)] != P_ERASED) synth(p, d.data());
		memcpy(out, d.data() + off, len);
		return 0;
	}
	memcpy(out, page(p) + off, len);
	return 0;
}

int SimNand::copy(u32 s, u32 d)
{
	std::vector<u8> buf(psize);
	int e = read(s, 0, psize, buf.data());
	if (e) return e;
	if (d >= npages) stop("proto-range", strf("copy to page %u of %u", d, npages));
	return prog(d, buf.data(), true);
}

// ---------------------------------------------------------------- ECC stack
void SimNand::encode(u32 p, const u8 *d)
{
	u8 *r = &raw[(size_t)p * rawsz];
	for (u32 c = 0; c < nchunks; c++) {
		u8 *q = r + c * (chunk + oob);
		memcpy(q, d + c * chunk, chunk);
		u32 crc = sh_crc(q, chunk, sh_crc_init());
		for (int i = 0; i < 4; i++) q[chunk + i] = (u8)(crc >> (8 * i));
		if (ecc == 1) sh_ham_generate(q, chunk + 4, q + chunk + 4);
		else sh_bch_generate(0, ecc - 1, q, chunk + 4, q + chunk + 4);
		flips[(size_t)p * nchunks + c] = 0;
	}
}

bool SimNand::decode(u32 p, u8 *out)
{
	const u8 *r = &raw[(size_t)p * rawsz];
	u8 buf[8192 + 64];
	for (u32 c = 0; c < nchunks; c++) {
		const u8 *q0 = r + c * (chunk + oob); u8 *q = buf;
		memcpy(q, q0, chunk + oob);
		u8 *e = q + chunk + 4;
		if (ecc == 1) {
			u32 s = sh_ham_syndrome(q, chunk + 4, e);
			if (s) {
				if (sh_ham_repair(q, chunk + 4, s) < 0) return false;
				res->st.v[ST_FLIPPED_READS]++;
			}
		} else if (sh_bch_verify(0, ecc - 1, q, chunk + 4, e) < 0) {
			sh_bch_repair(0, ecc - 1, q, chunk + 4, e);
			if (sh_bch_verify(0, ecc - 1, q, chunk + 4, e) < 0) return false;
			res->st.v[ST_FLIPPED_READS]++;
		}
		u32 crc = sh_crc(q, chunk, sh_crc_init()), want = 0;
		for (int i = 0; i < 4; i++) want |= (u32)q[chunk + i] << (8 * i);
		if (crc != want) return false;
		memcpy(out + c * chunk, q, chunk);
	}
	return true;
}

void SimNand::flip_bits(u64 seed, u32 count)
{
	Rng g(seed);
	u32 t = ecc == 1 ? 1 : ecc - 1;
	u32 eccbits = ecc == 1 ? 24 : (u32)sh_bch_ecc_bits(ecc - 1);
	for (u32 i = 0, tries = 0; i < count && tries < 400; tries++) {
		u32 p = g.below(npages), c = g.below(nchunks);
		if (st[ix(p)] != P_DATA && !(st[ix(p)] == P_ERASED && g.chance(20))) continue;
		u8 &n = flips[(size_t)p * nchunks + c];
		// a burst of up to t flips in one chunk, never more than t in total
		u32 k = 1 + g.below(t);
		u8 *q = &raw[(size_t)p * rawsz + c * (chunk + oob)];
		while (k-- && n < t) {
			u32 bit = g.below((chunk + 4) * 8 + eccbits);
			q[bit >> 3] ^= (u8)(1u << (bit & 7)); n++; i++;
			res->st.v[ST_FLIPS]++;
		}
	}
}

// Damage a page beyond what the code corrects: everywhere, or just a few
// bits too many in one chunk (more than the flips that are there already can
// undo), which is where a decoder is tempted to "correct" the wrong ones.
void SimNand::ruin(u32 p, u64 seed)
{
	Rng g(seed);
	u8 *q = &raw[(size_t)p * rawsz];
	if (g.chance(40)) {
		for (u32 k = 0; k < rawsz; k++) q[k] ^= (u8)mix2(seed, k);
		return;
	}
	u32 t = ecc == 1 ? 1 : ecc - 1, c = g.below(nchunks), n = flips[(size_t)p * nchunks + c] + t + 1;
	if (g.chance(50)) n += g.below(6);
	std::vector<u8> hit(chunk * 8);
	for (q += c * (chunk + oob); n; ) {
		u32 bit = g.below(chunk * 8);
		if (hit[bit]) continue;
		hit[bit] = 1; q[bit >> 3] ^= (u8)(1u << (bit & 7)); n--;
	}
}

// The other device's turn may also come after an operation's effect, before
// its caller has seen the result.
static int after(int rc) { sim_yield(); return rc; }

extern "C" {
int simnand_is_bad(void *c, uint32_t b) { return after(((SimNand *)c)->is_bad(b)); }
void simnand_mark_bad(void *c, uint32_t b) { ((SimNand *)c)->mark_bad(b); sim_yield(); }
int simnand_erase(void *c, uint32_t b) { return after(((SimNand *)c)->erase(b)); }
int simnand_prog(void *c, uint32_t p, const uint8_t *d) { return after(((SimNand *)c)->prog(p, d)); }
int simnand_is_free(void *c, uint32_t p) { return after(((SimNand *)c)->is_free(p)); }
int simnand_read(void *c, uint32_t p, size_t o, size_t l, uint8_t *d) { return after(((SimNand *)c)->read(p, o, l, d)); }
int simnand_copy(void *c, uint32_t s, uint32_t d) { return after(((SimNand *)c)->copy(s, d)); }
}
