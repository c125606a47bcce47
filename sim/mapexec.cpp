// Executes a plan against the map API and compares every outcome with a
// small reference model (an array of sectors, a list of unsynced changes).
#include "handle.h"

namespace {

const u64 V_UNMAPPED = 0, V_UNREADABLE = 1;

u32 slot_sector(u32 mode, u64 seed, u32 i)
{
	u32 s;
	switch (mode % 6) {
	case 0: s = i; break;
	case 1: s = (u32)mix2(seed ^ 0x5ec, i); break;				// scattered
	case 2: { u32 r = 0; for (int k = 0; k < 32; k++) if (i >> k & 1) r |= 1u << (31 - k); s = r; break; }
	case 3: s = 0xfffffffeu - i; break;
	case 4: s = (i & 1) * 0x80000000u + (i >> 1); break;			// two distant runs
	default: s = ((u32)mix2(seed, i >> 3) & ~7u) | (i & 7); break;		// small clusters
	}
	if (s == 0xffffffffu) s = 0x7fffffff;
	return s;
}

void make_content(u8 *d, u32 psize, u64 v)
{
	switch (v % 23) {
	case 0: memset(d, 0xff, psize); return;
	case 1: memset(d, 0, psize); return;
	case 2:	// looks like a checkpoint header
		for (u32 i = 0; i < psize; i++) d[i] = (u8)(mix2(v, i >> 3) >> ((i & 7) * 8));
		d[0] = 'D'; d[1] = 'h'; d[2] = 'a'; d[3] = (u8)(v >> 8); memset(d + 4, (int)(v >> 16 & 1) * 0xff, 16);
		return;
	case 3: memset(d, 0xff, psize); d[v / 23 % psize] = (u8)(v >> 20); return;
	}
	for (u32 i = 0; i + 8 <= psize; i += 8) { u64 x = mix2(v, i); memcpy(d + i, &x, 8); }
}

struct Delta { int slot; u64 val; bool paged; };	// slot -1: everything unmapped; paged: takes up a page of the journal
typedef std::vector<u64> State;

void apply_delta(State &s, const Delta &d)
{
	if (d.slot < 0) std::fill(s.begin(), s.end(), V_UNMAPPED);
	else s[d.slot] = d.val;
}
u32 count_mapped(const State &s) { u32 n = 0; for (u64 v : s) n += v != V_UNMAPPED; return n; }

typedef FwRam Ram;	// lost at every power cut

struct MapSim : NandHooks {
	const Plan &p; Result &r;
	SimNand nand;
	Ram *ram = nullptr;
	State base, cur; std::vector<Delta> deltas;
	bool has_pending = false; Delta pending = {0, 0, false};
	// changes of calls that failed with a read error while recovering from a
	// bad block: a checkpoint may hold them until the recovery is done
	struct Alt { size_t after; Delta d; }; std::vector<Alt> alts;
	std::vector<u32> sector;
	std::vector<std::vector<u64>> ever;	// values ever written, per slot (sorted small)
	u64 allzero_ff;				// content id of an all-0xff page
	bool crashed_ever = false, rderr_ever = false, rotted = false, failed_ever = false, crashfail_seen = false;
	bool wear_exact = true;
	u32 boots = 0, resume_idx = 0;
	u32 last_prog_page = PAGE_NONE;
	u32 gcr;
	bool just_synced = false, was_synced = false;	// nothing happened since the last sync that could need another
	u32 wraps = 0; bool wrapped_seen_top = false;
	BadMet met;
	bool abandoned = false, synced = false;
	u64 shadow_seed = 0;
	u32 shadow_budget = 400;

	MapSim(const Plan &pl, Result &res) : p(pl), r(res), nand(pl, &res)
	{
		sector.resize(p.ns); for (u32 i = 0; i < p.ns; i++) sector[i] = slot_sector(p.secmode, p.seed, i);
		// sectors must be distinct
		for (u32 i = 0; i < p.ns; i++) for (u32 j = 0; j < i; j++) if (sector[i] == sector[j]) { sector[i] = (sector[i] * 2654435761u + 12345) & 0x7fffffff; j = (u32)-1; }
		base.assign(p.ns, V_UNMAPPED); cur = base; ever.resize(p.ns);
		std::vector<u8> ff(nand.psize, 0xff); allzero_ff = cid(ff.data());
		nand.hooks = this; gcr = p.gc ? p.gc : 1; met.last = (u32)p.bad.size();
	}
	~MapSim() { delete ram; }

	u64 cid(const u8 *d) const { u64 h = hash_bytes(d, nand.psize); return h < 2 ? h + 2 : h; }
	void V(const char *kind, const std::string &m) { nand.violate(kind, m); }

	// ---------------- hooks
	void on_prog(SimNand &n, u32 page) override
	{
		if (&n != &nand) return;
		if (last_prog_page != PAGE_NONE && page < last_prog_page) { wraps++; r.st.v[ST_EPOCH_WRAPS]++; met.pass(nand); }
		last_prog_page = page;
	}
	void on_cut(SimNand &n, MutKind k, u32 target, u32 mode) override
	{
		static const int es[4] = { ST_CUT_NONE, ST_CUT_FULL, ST_CUT_TORN, ST_CUT_MIX };
		r.st.v[es[mode & 3]]++;
		r.st.v[k == MUT_ERASE ? ST_CUT_ON_ERASE : k == MUT_MARK ? ST_CUT_ON_MARK : n.is_cp(target) ? ST_CUT_ON_CP : ST_CUT_ON_PROG]++;
		if (fw::map_in_recovery(ram->m)) r.st.v[ST_CUT_IN_RECOVERY]++;
	}
	void on_fail(SimNand &n, MutKind, u32) override
	{
		failed_ever = true;
		if (&n != &nand || !ram) return;
		if (fw::map_in_recovery(ram->m)) r.st.v[ST_FAIL_IN_RECOVERY]++;
		else r.st.v[ST_RECOVERIES]++;
		if (fw::map_root(ram->m) == PAGE_NONE) r.st.v[ST_TRIM_EMPTY_FAIL]++;
	}
	void on_rderr(SimNand &, u32, bool meta) override
	{
		rderr_ever = true;
		r.st.v[ST_RDERR]++; if (meta) r.st.v[ST_RDERR_META]++;
		if (ram && fw::map_in_recovery(ram->m)) r.st.v[ST_RDERR_IN_RECOVERY]++;
	}
	void shadow(SimNand &n, MutKind k, u32 target, const u8 *data, const Fault &f) override;

	// ---------------- observation
	// Reads every slot through the public API, without faults.
	void observe(Ram &rm, SimNand &n, State &o, const char *what, bool allow_err)
	{
		std::vector<u8> buf(n.psize);
		const std::vector<Fault> *keep = n.armed; n.armed = nullptr; bool q = n.quiet; n.quiet = true;
		o.assign(p.ns, V_UNMAPPED);
		r.st.v[ST_SWEEPS]++;
		for (u32 i = 0; i < p.ns; i++) {
			u32 loc = PAGE_NONE; int err = 0;
			n.budget = 200000; n.last_ecc_page = PAGE_NONE; n.last_ecc_tag = 0;
			u32 m0 = n.c_prog + n.c_erase + n.c_mark;
			int rc = fw::map_find(rm.m, sector[i], &loc, &err);
			u64 v;
			memset(buf.data(), (int)(0x11 + i), n.psize);
			int err2 = 0;
			int rc2 = fw::map_read(rm.m, sector[i], buf.data(), &err2);
			r.st.v[ST_READS_CHECKED]++;
			if (n.c_prog + n.c_erase + n.c_mark != m0) V("ro-mutates", strf("%s: find/read of sector %u modified the chip", what, sector[i]));
			if (rc < 0 && err == EC_NOT_FOUND) {
				v = V_UNMAPPED;
				if (rc2 < 0) v = V_UNREADABLE;
				else if (cid(buf.data()) != allzero_ff) { V("data-wrong", strf("%s: unmapped sector %u does not read as 0xff", what, sector[i])); }
			} else if (rc < 0 || rc2 < 0) {
				v = V_UNREADABLE;
				if (n.last_ecc_tag == T_MARKED && !rotted) V("retire-lost", strf("%s: sector %u is only kept in block %u, which was marked bad", what, sector[i], n.last_ecc_page >> n.lb));
				if (!allow_err) V(crashed_ever ? "post-op-error" : "op-error", strf("%s: reading sector %u failed (find: %s, read: %s)", what, sector[i], rc < 0 ? sh_strerror(err) : "ok", rc2 < 0 ? sh_strerror(err2) : "ok"));
			} else {
				v = cid(buf.data());
				if (loc >= n.npages) V("find-wrong", strf("%s: find(%u) returned page %u of %u", what, sector[i], loc, n.npages));
				else {
					std::vector<u8> raw(n.psize);
					if (n.read(loc, 0, n.psize, raw.data()) || memcmp(raw.data(), buf.data(), n.psize)) V("find-wrong", strf("%s: page %u returned by find(%u) does not hold the sector's data", what, loc, sector[i]));
					// a retired block holds nothing that is still needed
					if (&n == &nand && !crashed_ever && n.B(loc >> n.lb).bad && !fw::map_in_recovery(rm.m)) V("retire-live", strf("%s: sector %u is still kept in block %u, which was marked bad", what, sector[i], loc >> n.lb));
				}
			}
			o[i] = v;
		}
		n.armed = keep; n.quiet = q;
	}

	// Compare the whole observable state with the model.
	void check_full(const char *what)
	{
		State o; observe(*ram, nand, o, what, rotted);
		for (u32 i = 0; i < p.ns; i++) if (o[i] != cur[i]) {
			if (o[i] == V_UNREADABLE && rotted) continue;
			if (o[i] == V_UNREADABLE) { data_bad(what, i, o[i]); continue; }
			data_bad(what, i, o[i]);
		}
		check_size(what);
		check_ghosts(what);
	}
	const char *vname(u32 slot, u64 v, char *b) const
	{
		if (v == V_UNMAPPED) return "unmapped";
		if (v == V_UNREADABLE) return "unreadable";
		if (v == cur[slot]) return "the current data";
		if (v == base[slot]) return "the last synced data";
		for (u64 e : ever[slot]) if (e == v) return "older data of this sector";
		for (u32 j = 0; j < p.ns; j++) for (u64 e : ever[j]) if (e == v) { sprintf(b, "data of sector %u", sector[j]); return b; }
		return "data never written";
	}
	void data_bad(const char *what, u32 i, u64 v)
	{
		char b[64], c[64];
		V(rotted ? "rot-wrong" : crashed_ever ? "post-data-wrong" : "data-wrong", strf("%s: sector %u (slot %u) gives %s, expected %s", what, sector[i], i, vname(i, v, b), vname(i, cur[i], c)));
	}
	void check_size(const char *what)
	{
		u32 want = count_mapped(cur), got = fw::map_size(ram->m);
		if (want != got) V(crashed_ever ? "post-size-wrong" : "size-wrong", strf("%s: map size %u, but %u sectors are mapped", what, got, want));
	}
	void check_ghosts(const char *what)
	{
		if (rotted) return;
		Rng g(mix2(p.seed, nand.opidx));
		bool q = nand.quiet; nand.quiet = true; const std::vector<Fault> *keep = nand.armed; nand.armed = nullptr;
		for (int k = 0; k < 6; k++) {
			u32 s = k < 3 ? (u32)g.next() : sector[g.below(p.ns)] ^ (1u << g.below(32));
			if (s == 0xffffffffu || std::find(sector.begin(), sector.end(), s) != sector.end()) continue;
			u32 loc; int err = 0; int rc = fw::map_find(ram->m, s, &loc, &err);
			if (rc == 0) V(crashed_ever ? "post-data-wrong" : "data-wrong", strf("%s: sector %u was never written but is mapped", what, s));
			else if (err != EC_NOT_FOUND) V(crashed_ever ? "post-op-error" : "op-error", strf("%s: find of unwritten sector %u failed: %s", what, s, sh_strerror(err)));
		}
		nand.armed = keep; nand.quiet = q;
	}

	// ---------------- boot
	u32 resume_read_bound() const
	{
		u32 l = 1; while ((1u << l) < nand.nb) l++;
		return 8 * 3 * (l + 2) + 2 * nand.ppb + 32;
	}
	// Power up: fresh RAM with arbitrary contents, init, resume.  Returns rc.
	// Which firmware the device boots with (upgrade runs).
	bool old_firmware(u32 k) const { return p.upgrade && (mix2(p.seed ^ 0xf1, k) & 1); }
	int boot(SimNand &n, Ram *&out, int &err, bool check_cost)
	{
		out = new Ram(n.psize, mix2(p.seed + r.variant, 1000 + resume_idx), true, old_firmware(resume_idx)); resume_idx++;
		out->map_init(n, (u8)p.gc);
		n.begin_call(nullptr, -1);
		r.st.v[ST_RESUMES]++;
		bool noerr = (resume_idx % 5 == 3) != (r.variant != 0); err = EC_UNSET;
		int rc = fw::map_resume(out->m, noerr ? nullptr : &err);
		if (rc < 0 && !noerr && err == EC_UNSET) V("err-unset", "resume failed without setting the error code");
		if (n.c_prog + n.c_erase + n.c_mark) V("resume-mutates", "resume programmed, erased or marked the chip");
		if (n.c_read > r.st.v[ST_MAX_RESUME_READS]) r.st.v[ST_MAX_RESUME_READS] = n.c_read;
		if (check_cost) {
			u32 bound = resume_read_bound();
			if (n.c_read > bound || n.c_isfree > 2 * bound || n.c_isbad > 2 * bound)
				V("cost-resume", strf("resume used %u reads, %u is_free, %u is_bad on %u blocks (bound %u)", n.c_read, n.c_isfree, n.c_isbad, n.nb, bound));
		}
		return rc;
	}
	void reboot_twice(SimNand &n, Ram *&out, int &rc)
	{
		int err = EC_UNSET;
		rc = boot(n, out, err, true);
		u32 root = fw::map_root(out->m), size = fw::map_size(out->m), cap = fw::map_capacity(out->m), js = fw::map_jsize(out->m);
		if (rc < 0 && size) V("resume-empty", strf("resume failed but the map has %u sectors", size));
		if (resume_idx % 3 == 0) {
			Ram *b = nullptr; int rc2 = boot(n, b, err, false);
			if (rc2 != rc || fw::map_root(b->m) != root || fw::map_size(b->m) != size || fw::map_capacity(b->m) != cap || fw::map_jsize(b->m) != js)
				V("resume-differs", "two resumes of the same chip disagree");
			delete b;
		}
	}

	// After a power cut: what is on the chip must be the synced state plus
	// a prefix of the later changes, whole.
	// Number of changes of the longest prefix that matches, or -1.
	int prefix_len(const State &o, bool with_pending)
	{
		State s = base; u32 mism = 0; int best = -1;
		for (u32 i = 0; i < p.ns; i++) mism += s[i] != o[i];
		if (!mism) best = 0;
		auto step = [&](const Delta &d) {
			if (d.slot < 0) { mism = 0; for (u32 i = 0; i < p.ns; i++) { s[i] = V_UNMAPPED; mism += o[i] != V_UNMAPPED; } }
			else { mism -= s[d.slot] != o[d.slot]; s[d.slot] = d.val; mism += s[d.slot] != o[d.slot]; }
		};
		int k = 0;
		for (auto &d : deltas) { step(d); k++; if (!mism) best = k; }
		if (with_pending) { step(pending); if (!mism) best = k + 1; }
		for (auto &a : alts) {
			s = base; for (size_t i = 0; i < a.after; i++) apply_delta(s, deltas[i]);
			apply_delta(s, a.d); if (s == o) best = std::max(best, (int)a.after);
		}
		return best;
	}
	void judge_crash(const State &o, const char *what, u32 mapsize)
	{
		int got = prefix_len(o, has_pending);
		if (got < 0) {
			std::string lost, garb; char b[64];
			std::vector<u8> touched(p.ns, 0);
			for (u32 i = 0; i < p.ns; i++) {
				if (o[i] == base[i]) continue;
				bool ok = false, any = false;
				auto consider = [&](const Delta &d) { if (d.slot < 0 || d.slot == (int)i) { any = true; if ((d.slot < 0 ? V_UNMAPPED : d.val) == o[i]) ok = true; } };
				for (auto &d : deltas) consider(d);
				if (has_pending) consider(pending);
				if (ok) continue;
				(void)any;
				const char *nm = vname(i, o[i], b);
				if (o[i] != V_UNMAPPED && o[i] != V_UNREADABLE && std::find(ever[i].begin(), ever[i].end(), o[i]) == ever[i].end()) { if (garb.empty()) garb = strf("sector %u (slot %u) gives %s", sector[i], i, nm); }
				else if (lost.empty()) lost = strf("sector %u (slot %u) gives %s, last sync left it %s and no later change explains it", sector[i], i, nm, base[i] == V_UNMAPPED ? "unmapped" : "mapped");
			}
			if (!garb.empty()) V("crash-garbage", std::string(what) + ": " + garb);
			if (!lost.empty()) V("crash-lost-sync", std::string(what) + ": " + lost);
			if (garb.empty() && lost.empty()) V("crash-mixed", std::string(what) + ": the recovered state is not the synced state plus a prefix of the later changes");
			return;
		}
		u32 lost = 0; for (size_t i = (size_t)got; i < deltas.size(); i++) lost += deltas[i].paged;
		if (lost > r.st.v[ST_MAX_LOST]) r.st.v[ST_MAX_LOST] = lost;
		if (lost > (1u << nand.log2_ppc) - 2)
			V("crash-rollback-far", strf("%s: the last %u acknowledged writes are gone, but every %u pages there is a checkpoint", what, lost, 1u << nand.log2_ppc));
		if (mapsize != count_mapped(o))
			V("crash-size", strf("%s: map size %u after resume, but %u sectors are mapped", what, mapsize, count_mapped(o)));
	}
	// The unreadable page behind the latest ECC error is a checkpoint page
	// that never became valid: which known finding does that match?
	static const char *uncommitted_cp(const SimNand &n)
	{
		if (n.last_ecc_page == PAGE_NONE || !n.is_cp(n.last_ecc_page)) return nullptr;
		if (n.last_ecc_tag == T_CUT) return known_enabled("KF-TORN-CP") ? "KF-TORN-CP" : nullptr;
		// only a device with no space left erases the block its last checkpoint names as the tail
		if (n.maxfail >= 1000 && (n.last_ecc_tag == T_CUTERASE || (n.last_ecc_tag == T_MARKED && n.B(n.last_ecc_page >> n.lb).erase_failed))) return known_enabled("KF-TORN-ERASE") ? "KF-TORN-ERASE" : nullptr;
		if (n.last_ecc_tag == T_FAILED && !n.B(n.last_ecc_page >> n.lb).bad) return known_enabled("KF-FAILED-CP") ? "KF-FAILED-CP" : nullptr;
		return nullptr;
	}
	static const char *ucp_text(const SimNand &n) { return n.last_ecc_tag == T_CUTERASE ? "in the tail's block, whose erase a power cut interrupted" : n.last_ecc_tag == T_MARKED ? "in the tail's block, whose erase failed before the power cut" : n.last_ecc_tag == T_CUT ? "whose program a power cut interrupted" : "whose program failed in a block that a power cut kept from being marked bad"; }
	void known(const char *id, const std::string &msg)
	{
		r.st.v[ST_KNOWN]++;
		for (auto &k : r.known) if (k.kind == id) return;
		r.known.push_back({id, nand.opidx, msg});
	}

	// A real power cut happened (RAM gone): come back up.
	void come_back(const char *what, bool exact)
	{
		bool had = ram; u32 cap0 = ram ? fw::map_capacity(ram->m) : 0;
		delete ram; ram = nullptr;
		nand.power_cycle();
		if (!exact) crashed_ever = true, wear_exact = just_synced = false, met.forget();
		int rc; reboot_twice(nand, ram, rc);
		boots++;
		State o; observe(*ram, nand, o, what, true);
		if (exact) {
			for (u32 i = 0; i < p.ns; i++) if (o[i] != cur[i]) { char b[64]; V("restart-lost", strf("after sync and restart: sector %u (slot %u) gives %s", sector[i], i, vname(i, o[i], b))); break; }
			if (fw::map_size(ram->m) != count_mapped(cur)) V("restart-size", strf("after sync and restart: size %u, %u sectors mapped", fw::map_size(ram->m), count_mapped(cur)));
			if (rc < 0 && count_mapped(cur)) V("restart-lost", "after sync and restart: resume failed");
			u32 cap1 = fw::map_capacity(ram->m);
			if (had && cap0 != cap1 && rc == 0) V("restart-capacity", strf("after sync and restart the capacity is %u, it was %u", cap1, cap0));
		} else {
			judge_crash(o, what, fw::map_size(ram->m));
			bool same = o == cur; r.st.v[same ? ST_CRASH_NOLOSS : ST_CRASH_ROLLBACK]++;
		}
		bool unreadable = false; for (u64 v : o) unreadable |= v == V_UNREADABLE;
		base = cur = o; deltas.clear(); alts.clear(); has_pending = false;
		if (unreadable) { abandoned = true; r.st.v[ST_ABANDONED]++; }
	}

	// ---------------- ops
	int errslot = 0; bool nullerr = false, rec0 = false;
	int *E() { errslot = EC_UNSET; return nullerr ? nullptr : &errslot; }

	// Classify a failed call. Returns true if the failure is acceptable.
	bool failed_call(const char *what, bool expect_ecc, const Delta *change = nullptr)
	{
		if (!nullerr && errslot == EC_UNSET) { V("err-unset", strf("%s failed without setting the error code", what)); return false; }
		if (expect_ecc && (nullerr || errslot == EC_ECC)) {
			r.st.v[ST_OP_ERRORS_EXPECTED]++;
			if (change && (nand.c_fail || rec0)) alts.push_back({deltas.size(), *change});
			return true;
		}
		// out of good blocks
		if (p.scenario == SC_EOL && nand.nfailed && (nullerr || errslot == EC_TOO_BAD || errslot == EC_JFULL || errslot == EC_MAP_FULL)) {
			r.st.v[ST_OP_ERRORS_EXPECTED]++;
			for (auto &b : nand.blk) if (b.reported && !b.bad) b.retry = 1;
			if (change) alts.push_back({deltas.size(), *change});
			return true;
		}
		// the tail has got into a storm's eight bad blocks in a row
		if (p.maxfail >= 2000 && (nullerr || errslot == EC_ECC) && nand.last_ecc_page != PAGE_NONE && nand.B(nand.last_ecc_page >> nand.lb).bad && row_of_bad() >= 8) {
			r.st.v[ST_OP_ERRORS_EXPECTED]++;
			if (change) alts.push_back({deltas.size(), *change});
			return true;
		}
		// known finding: metadata of an interrupted checkpoint group
		if (crashed_ever && (nullerr || errslot == EC_ECC) && uncommitted_cp(nand)) {
			known(uncommitted_cp(nand), strf("%s fails with an ECC error reading checkpoint page %u, %s", what, nand.last_ecc_page, ucp_text(nand)));
			abandoned = true; r.st.v[ST_ABANDONED]++; return false;
		}
		if (nand.last_ecc_tag == T_MARKED) V("retire-lost", strf("%s needs page %u in a block that was marked bad", what, nand.last_ecc_page));
		V(crashed_ever ? "post-op-error" : "op-error", strf("%s failed: %s%s", what, nullerr ? "(error code not asked for)" : sh_strerror(errslot),
			nand.last_ecc_page != PAGE_NONE ? strf(" (unreadable page %u, tag %d)", nand.last_ecc_page, nand.last_ecc_tag).c_str() : ""));
		return false;
	}
	void after_call(const Op &op, int rc)
	{
		u32 nreads = nand.c_read;
		if (op.kind == OP_SYNC || op.kind == OP_RESTART) {
			if (rc == 0 && was_synced && (nand.c_prog || nand.c_erase || nand.c_mark)) V("cost-op", strf("a sync with nothing to write programmed %u pages and erased %u blocks", nand.c_prog, nand.c_erase));
			just_synced = rc == 0;
		}
		if (op.kind != OP_SYNC && nreads > r.st.v[ST_MAX_READS_OP]) r.st.v[ST_MAX_READS_OP] = nreads;
		if (!nand.c_rderr && p.scenario != SC_EOL) {
			// user pages a call may write, and checkpoints and erases that go with them
			u32 G = 1u << nand.log2_ppc, up = gcr + 3;
			if (op.kind == OP_GC) up = 1; else if (op.kind == OP_SYNC || op.kind == OP_RESTART) up = G - 1;
			// each failing block is emptied, and the recovery padded
			u32 k = nand.c_fail + (rec0 ? 1 : 0);
			up += k * (2 * nand.ppb + 2 * G + gcr + 3);
			u32 pb = up + (up + G - 2) / (G - 1) + k, eb = pb / nand.ppb + 1 + k, rb = op.kind == OP_SYNC || op.kind == OP_RESTART ? ~0u : 40 * (up + 1), qb = 3 * up + 8;
			// the bad blocks are met again in each pass over the chip
			u32 nbad = k + nand.nfailed + (u32)p.bad.size();
			qb += 4 * nbad * (1 + eb / (nand.nb > nbad ? nand.nb - nbad : 1));
			if (rb == ~0u) qb = ~0u;	// a sync may pass any number of obsolete pages
			if (op.kind == OP_READ || op.kind == OP_FIND) { rb = 40; pb = eb = 0; }
			if (nreads > rb || nand.c_prog > pb || nand.c_erase > eb || nand.c_isbad > qb || nand.c_isfree > qb)
				V("cost-op", strf("%s with %u failing blocks used %u reads, %u programs, %u erases, %u is_bad, %u is_free (bounds %u/%u/%u/%u)", op_names[op.kind], k, nreads, nand.c_prog, nand.c_erase, nand.c_isbad, nand.c_isfree, rb, pb, eb, qb));
		}
		// a block that failed must have been retired by the time the call returns
		if (nand.c_fail && rc == 0 && !rotted)
			for (u32 b = 0; b < nand.blk.size(); b++) if (nand.blk[b].reported && !nand.blk[b].bad) { V("retire-missed", strf("block %u failed during %s but was not marked bad", nand.block_of(b), op_names[op.kind])); break; }
		check_size(op_names[op.kind]);
		check_capacity(op_names[op.kind]);
		if (wear_exact && !nand.huge && !rotted && !rderr_ever && nand.c_erase) check_wear();
		cover(mix2(mix2(op.kind, (u64)(rc < 0) * 16 + errslot), mix2(mix2(fw::map_root(ram->m) == PAGE_NONE ? 9999 : fw::map_root(ram->m) % nand.ppb, fw::map_in_recovery(ram->m) * 2 + fw::map_is_clean(ram->m)),
			mix2(std::min<u32>(nand.c_prog, 7) * 8 + std::min<u32>(nand.c_erase, 3) * 64 + std::min<u32>(nand.c_fail, 3) * 2 + nand.c_rderr, nand.log2_ppc * 8 + p.lb))));
	}
	// Erase counts of good blocks differ by at most one.
	void check_wear()
	{
		u32 lo = ~0u, hi = 0, bl = 0, bh = 0;
		for (u32 b = 0; b < nand.nb; b++) {
			if (nand.blk[b].bad || nand.blk[b].failed) continue;
			if (nand.blk[b].erases < lo) { lo = nand.blk[b].erases; bl = b; }
			if (nand.blk[b].erases > hi) { hi = nand.blk[b].erases; bh = b; }
		}
		if (lo != ~0u && hi > lo + 1) V("wear", strf("block %u was erased %u times, block %u %u times", bh, hi, bl, lo));
	}
	std::vector<u32> capfresh;
	u32 cap_fresh(u32 k)	// capacity of an empty chip that is k blocks smaller
	{
		while (capfresh.size() <= k) {
			u32 i = (u32)capfresh.size(); u32 n = nand.nb > i ? nand.nb - i : 0;
			sh_nand *t = sh_nand_new(nullptr, (int)p.lp, (int)p.lb, n);
			Ram x(nand.psize, 1, true, false); sh_map_init(x.h.mem, t, x.buf, (u8)p.gc);
			capfresh.push_back(n ? sh_map_capacity(x.h.mem) : 0); sh_nand_free(t);
		}
		return capfresh[k];
	}
	std::vector<u32> capbad;
	u32 cap_bad(u32 k)	// capacity once k bad blocks were met
	{
		while (capbad.size() <= k) {
			u32 i = (u32)capbad.size();
			sh_nand *t = ref_sh_nand_new(nullptr, (int)p.lp, (int)p.lb, nand.nb);
			Ram x(nand.psize, 1, true, true); ref_sh_map_init(x.h.mem, t, x.buf, (u8)p.gc);
			capbad.push_back(i + 1 < nand.nb ? ref_sh_map_capacity_bad(x.h.mem, i) : 0); ref_sh_nand_free(t);
		}
		return capbad[k];
	}
	void check_capacity(const char *what)
	{
		if (nand.huge) {	// in proportion to the chip: all but a 64th (the guess), the spare blocks and the collector's share
			u32 bad = 0; for (auto &b : nand.blk) bad += b.bad || b.failed;
			u64 upb = nand.ppb - (nand.ppb >> nand.log2_ppc), all = upb * nand.nb, least = all - all / 64 - (u64)(2 + bad) * upb, c = fw::map_capacity(ram->m), gc = gcr, spare = 12ull * nand.ppb;
			least = least * gc / (gc + 1); least = least > spare ? least - spare : 0;
			if (c > all * gc / (gc + 1) || c < least) V("capacity-drift", strf("after %s: capacity %u of %llu user pages, expected %llu..%llu", what, (u32)c, (unsigned long long)all, (unsigned long long)least, (unsigned long long)(all * gc / (gc + 1))));
			return;
		}
		u32 k = 0; for (auto &b : nand.blk) k += b.bad || b.failed;
		u32 c = fw::map_capacity(ram->m), guess = std::max(k, nand.nb >> 6);
		if (p.scenario != SC_EOL && c > cap_bad(met.sure)) V("capacity-drift", strf("after %s: capacity %u, but the %u bad blocks that every pass over the chip meets leave room for %u", what, c, met.sure, cap_bad(met.sure)));
		if (c < cap_bad(guess)) V("capacity-drift", strf("after %s: capacity %u, but with %u bad blocks there is room for %u", what, c, guess, cap_bad(guess)));
		if (nand.nb >= 64) return;	// the initial guess reserves blocks there
		if (c > cap_fresh(0) || c < cap_fresh(k))
			V("capacity-drift", strf("after %s: capacity %u, but a chip with %u..%u usable blocks holds %u..%u", what, c, nand.nb - k, nand.nb, cap_fresh(k), cap_fresh(0)));
	}

	void commit(Delta d)
	{
		// a write, a copy, or a trim that leaves something mapped programs a page
		d.paged = d.slot >= 0 && (d.val != V_UNMAPPED || (cur[d.slot] != V_UNMAPPED && count_mapped(cur) > 1));
		apply_delta(cur, d); deltas.push_back(d);
		if (deltas.size() > 12000) { V("internal", "too many unsynced changes in a plan"); throw Stop(); }
	}
	void remember(u32 slot, u64 v)
	{
		auto &e = ever[slot];
		if (e.size() < 40 && std::find(e.begin(), e.end(), v) == e.end()) e.push_back(v);
		else if (e.size() >= 40) e[nand.opidx % 40] = v;
	}
	template <class F> int guarded(const Op &op, bool &crashed, F f)
	{
		crashed = false; int rc = 0;
		nullerr = !!(op.flags & FL_NULLERR) != !!r.variant;
		was_synced = just_synced;
		if (op.kind != OP_READ && op.kind != OP_FIND) just_synced = false;
		// a storm may leave eight bad blocks in a row: collection must not get there within the call
		bool unarmed = op.faults.empty() || (p.maxfail >= 2000 && fw::map_jsize(ram->m) < nand.ppb + 2 * (p.gc + 1) + 8);
		nand.begin_call(unarmed ? nullptr : &op.faults, -1);
		rec0 = fw::map_in_recovery(ram->m);
		try { rc = f(); }
		catch (PowerCut &) { crashed = true; }
		nand.end_call();
		r.st.v[ST_OPS]++;
		return rc;
	}

	// write/copy of `val` into slot
	void do_store(const Op &op, u32 slot, u64 val, int (*fn)(MapSim *, const Op &, u8 *), u8 *data)
	{
		bool crashed, fresh = cur[slot] == V_UNMAPPED;
		u32 cap0 = fw::map_capacity(ram->m), size0 = fw::map_size(ram->m);
		has_pending = true; pending = {(int)slot, val, false}; remember(slot, val);
		int rc = guarded(op, crashed, [&] { return fn(this, op, data); });
		if (crashed) { come_back("power cut", false); return; }
		has_pending = false;
		u32 cap1 = fw::map_capacity(ram->m);
		if (rc == 0) {
			commit(pending); if (op.kind == OP_WRITE) r.st.v[ST_WRITES]++; else r.st.v[ST_COPIES]++;
			if (fresh && size0 >= std::max(cap0, cap1)) V("over-capacity", strf("a new sector was accepted with %u sectors mapped and capacity %u", size0, std::max(cap0, cap1)));
		} else if (errslot == EC_MAP_FULL || (nullerr && !(p.scenario == SC_EOL && nand.nfailed) && nand.last_ecc_page == PAGE_NONE && fresh && size0 >= std::min(cap0, cap1))) {
			r.st.v[ST_MAPFULL]++;
			if (!fresh || size0 < std::min(cap0, cap1)) V("spurious-full", strf("MAP_FULL for %s sector with %u sectors mapped and capacity %u", fresh ? "a new" : "an already mapped", size0, std::min(cap0, cap1)));
		} else {
			// the page to copy may be retired during the call
			bool gone = op.kind == OP_COPYPAGE && nand.last_ecc_tag == T_MARKED; rderr_ever |= gone;
			if (!failed_call(op_names[op.kind], nand.c_rderr || rotted || gone, &pending)) return;
		}
		after_call(op, rc);
		if (!abandoned && (op.flags & FL_VERIFY)) verify_slot(slot);
	}
	void verify_slot(u32 i)
	{
		std::vector<u8> b(nand.psize, 0x5a); nand.begin_call(nullptr, -1);
		int e = EC_UNSET; int rc = fw::map_read(ram->m, sector[i], b.data(), &e);
		r.st.v[ST_READS_CHECKED]++;
		if (rc < 0) { if (!rotted) { nullerr = false; errslot = e; failed_call("read back", false); } return; }
		u64 want = cur[i] == V_UNMAPPED ? allzero_ff : cur[i];
		if (cid(b.data()) != want) data_bad("read back", i, cid(b.data()));
	}

	void do_op(const Op &op)
	{
		u32 slot = op.a % p.ns;
		bool crashed; int rc;
		std::vector<u8> buf(nand.psize);
		switch (op.kind) {
		case OP_WRITE: {
			make_content(buf.data(), nand.psize, op.v);
			do_store(op, slot, cid(buf.data()), [](MapSim *s, const Op &o, u8 *d) { return fw::map_write(s->ram->m, s->sector[o.a % s->p.ns], d, s->E()); }, buf.data());
			break; }
		case OP_COPY: {
			u32 src = op.b % p.ns;
			if (cur[src] != V_UNMAPPED) {
				do_store(op, slot, cur[src], [](MapSim *s, const Op &o, u8 *) { return fw::map_copy_sector(s->ram->m, s->sector[o.b % s->p.ns], s->sector[o.a % s->p.ns], s->E()); }, nullptr);
				break;
			}
			has_pending = true; pending = {(int)slot, V_UNMAPPED, false};
			rc = guarded(op, crashed, [&] { return fw::map_copy_sector(ram->m, sector[src], sector[slot], E()); });
			if (crashed) { come_back("power cut", false); break; }
			has_pending = false;
			if (rc == 0) { commit(pending); r.st.v[ST_COPIES]++; }
			else if (!failed_call("copy of an unmapped sector", nand.c_rderr || rotted, &pending)) break;
			after_call(op, rc);
			break; }
		case OP_COPYPAGE: {
			// copy a flash page found through the API
			u32 pg = PAGE_NONE; int e = 0;
			// collection inside the call may recycle the page if it can
			// go round the spare blocks in one call
			if (gcr + 2 >= 4 * nand.ppb || p.scenario == SC_EOL) break;
			nand.begin_call(nullptr, -1);
			if (fw::map_find(ram->m, sector[op.b % p.ns], &pg, &e) < 0 || pg >= nand.npages) break;
			tmp_page = pg;
			do_store(op, slot, cur[op.b % p.ns], [](MapSim *s, const Op &o, u8 *) { return fw::map_copy_page(s->ram->m, s->tmp_page, s->sector[o.a % s->p.ns], s->E()); }, nullptr);
			break; }
		case OP_TRIM:
			has_pending = true; pending = {(int)slot, V_UNMAPPED, false};
			rc = guarded(op, crashed, [&] { return fw::map_trim(ram->m, sector[slot], E()); });
			if (crashed) { come_back("power cut", false); break; }
			has_pending = false;
			if (rc == 0) { commit(pending); r.st.v[ST_TRIMS]++; }
			else if (!failed_call("trim", nand.c_rderr || rotted, &pending)) break;
			after_call(op, rc);
			break;
		case OP_READ: case OP_FIND: {
			memset(buf.data(), 0x33, nand.psize); u32 loc = PAGE_NONE;
			rc = guarded(op, crashed, [&] { return op.kind == OP_READ ? fw::map_read(ram->m, sector[slot], buf.data(), E()) : fw::map_find(ram->m, sector[slot], &loc, E()); });
			if (crashed) { come_back("power cut", false); break; }
			if (nand.c_prog + nand.c_erase + nand.c_mark) V("ro-mutates", strf("%s modified the chip", op_names[op.kind]));
			r.st.v[ST_READS_CHECKED]++;
			if (op.kind == OP_FIND && rc < 0 && (errslot == EC_NOT_FOUND || (nullerr && cur[slot] == V_UNMAPPED))) {
				if (cur[slot] != V_UNMAPPED) data_bad("find", slot, V_UNMAPPED);
			} else if (rc < 0) { if (!failed_call(op_names[op.kind], nand.c_rderr || rotted)) break; }
			else if (op.kind == OP_READ) {
				u64 want = cur[slot] == V_UNMAPPED ? allzero_ff : cur[slot];
				if (cid(buf.data()) != want) data_bad("read", slot, cid(buf.data()));
			} else {
				if (cur[slot] == V_UNMAPPED) data_bad("find", slot, 2);
				else if (loc >= nand.npages) V("find-wrong", strf("find(%u) returned page %u of %u", sector[slot], loc, nand.npages));
				else {
					const std::vector<Fault> *k = nand.armed; nand.armed = nullptr;
					if (nand.read(loc, 0, nand.psize, buf.data()) ? !rotted : cid(buf.data()) != cur[slot]) V("find-wrong", strf("page %u returned by find(%u) does not hold the sector's data", loc, sector[slot]));
					nand.armed = k;
				}
			}
			after_call(op, rc);
			break; }
		case OP_GC:
			rc = guarded(op, crashed, [&] { return fw::map_gc(ram->m, E()); });
			r.st.v[ST_GCSTEPS]++;
			if (crashed) { come_back("power cut", false); break; }
			if (rc < 0 && !failed_call("gc", nand.c_rderr || rotted)) break;
			after_call(op, rc);
			break;
		case OP_GCALL: {
			// as many steps as there are pages in the journal must reclaim all garbage
			u32 js = fw::map_jsize(ram->m), live = count_mapped(cur);
			Op g = op; g.faults.clear(); g.kind = OP_GC;
			bool bad = false;
			for (u32 i = 0; i < js && !bad && !abandoned; i++) { rc = guarded(g, crashed, [&] { return fw::map_gc(ram->m, E()); }); r.st.v[ST_GCSTEPS]++; if (rc < 0) { failed_call("gc", rotted); bad = true; } }
			if (bad || abandoned) break;
			rc = guarded(g, crashed, [&] { return fw::map_sync(ram->m, E()); });
			if (rc < 0) { failed_call("sync", rotted); break; }
			base = cur; deltas.clear(); alts.clear();
			u32 js2 = fw::map_jsize(ram->m), slack = (1u << nand.log2_ppc) * 2, badb = 0;
			for (auto &b : nand.blk) badb += b.bad || b.failed;
			slack += badb * nand.ppb;
			if (js2 > live + slack && live) V("gc-no-progress", strf("after %u gc steps and a sync the journal still uses %u pages for %u sectors", js, js2, live));
			break; }
		case OP_SYNC:
			rc = guarded(op, crashed, [&] { return fw::map_sync(ram->m, E()); });
			if (crashed) { come_back("power cut during sync", false); break; }
			r.st.v[ST_SYNCS]++;
			synced = rc == 0;
			if (rc < 0) { if (!failed_call("sync", nand.c_rderr || rotted)) break; }
			else { base = cur; deltas.clear(); alts.clear(); }
			after_call(op, rc);
			break;
		case OP_CLEAR:
			nand.begin_call(nullptr, -1);
			fw::map_clear(ram->m); just_synced = false;
			r.st.v[ST_CLEARS]++; r.st.v[ST_OPS]++;
			if (nand.c_prog + nand.c_erase + nand.c_mark) {}
			commit({-1, V_UNMAPPED, false});
			check_size("clear");
			break;
		case OP_RESTART: {
			Op s = op; s.kind = OP_SYNC;
			synced = false; do_op(s);
			if (abandoned || !synced) break;
			r.st.v[ST_RESTARTS]++;
			come_back("restart", true);
			break; }
		case OP_CRASH:
			r.st.v[ST_CUT_IDLE]++;
			come_back("power cut between calls", false);
			break;
		case OP_CHECK: check_full("state check"); break;
		case OP_ROT: {
			// one programmed page becomes uncorrectable
			u32 pg = op.a % nand.npages;
			for (u32 k = 0; k < nand.npages; k++, pg = (pg + 1) % nand.npages) if (nand.st[pg] == P_DATA && !(op.b && !nand.is_cp(pg))) break;
			if (nand.st[pg] == P_DATA) { nand.st[pg] = P_TORN; nand.tag[pg] = T_ROT; rotted = true; r.st.v[ST_ROT]++; if (nand.ecc) nand.ruin(pg, op.v); }
			break; }
		case OP_FILL: {
			// a burst of writes
			Rng g(op.v); u32 hot = op.b ? std::min(op.b, p.ns) : p.ns;
			Op w = {}; w.kind = OP_WRITE; w.flags = op.flags;
			for (u32 i = 0; i < op.a && !abandoned && !fatal(); i++) {
				w.a = g.below(hot); w.v = g.next();
				if (cur[w.a] == V_UNMAPPED && fw::map_size(ram->m) >= fw::map_capacity(ram->m)) continue;
				do_op(w);
			}
			break; }
		case OP_FLIP: if (nand.ecc) nand.flip_bits(op.v, op.a); break;
		default: break;
		}
	}
	u32 tmp_page = 0;

	// A journal that has come a long way: the frozen firmware starts in the
	// middle of the chip and leaves a synced state behind.
	void teleport()
	{
		Rng g(mix2(p.seed, 0x7e1e));
		nand.calm = true;
		Ram t(nand.psize, mix2(p.seed, 5), true, true); t.map_init(nand, (u8)p.gc); fw::map_clear(t.m);
		ref_sh_map_teleport(t.h.mem, p.headblk << nand.lb, p.epoch);
		u32 n = 1 + g.below(3 * p.ns); std::vector<u8> d(nand.psize); int err = 0, rc = 0;
		for (u32 i = 0; i <= n && rc == 0; i++) {
			nand.begin_call(nullptr, -1);
			if (i == n) { rc = fw::map_sync(t.m, &err); break; }
			u32 s = g.below(p.ns); u64 v = g.next();
			if (i && g.chance(10)) { rc = fw::map_trim(t.m, sector[s], &err); cur[s] = V_UNMAPPED; continue; }
			make_content(d.data(), nand.psize, v);
			cur[s] = cid(d.data()); remember(s, cur[s]);
			rc = fw::map_write(t.m, sector[s], d.data(), &err);
		}
		if (rc < 0) V("internal", strf("the frozen firmware failed during setup: %s", sh_strerror(err)));
		base = cur; nand.calm = false; nand.power_cycle();
		for (auto &b : nand.blk) b.erases = 0;
		last_prog_page = PAGE_NONE;
	}

	void run()
	{
		try {
			if (nand.huge && p.headblk) {
				teleport();
				come_back("restart with the journal deep inside the chip", true);
				for (size_t i = 0; i < p.ops.size() && !abandoned; i++) {
					nand.opidx = (int)i;
					if (g_trace) trace_op(p.ops[i]);
					do_op(p.ops[i]);
					note();
					if (fatal()) break;
				}
				nand.opidx = (int)p.ops.size();
				if (!abandoned && !fatal()) finish();
				throw Stop();
			}
			int err = EC_UNSET; int rc = boot(nand, ram, err, true);
			boots++;
			if (rc == 0) V("resume-empty", "resume of a chip that never held a map succeeded");
			if (fw::map_size(ram->m)) V("resume-empty", strf("a chip that never held a map resumed with %u sectors", fw::map_size(ram->m)));
			check_capacity("first resume");
			for (size_t i = 0; i < p.ops.size() && !abandoned; i++) {
				nand.opidx = (int)i;
								if (g_trace) trace_op(p.ops[i]);
				do_op(p.ops[i]);
				note();
				if (fatal()) break;
				// nothing can be found beyond eight bad blocks in a row: the device
				// is dead, but what it holds can still be read
				if (p.maxfail >= 2000 && !abandoned && row_of_bad() >= 8) { check_full("after the device stopped working"); abandoned = true; }
			}
			nand.opidx = (int)p.ops.size();
			if (!abandoned && !fatal()) finish();
		} catch (Stop &) {}
		note();
		r.st.v[ST_NANDOPS] += nand.total_mut;
		if (wraps > r.st.v[ST_MAX_EPOCHS]) r.st.v[ST_MAX_EPOCHS] = wraps;
		u64 h = nand.hash; for (u64 v : cur) h = mix2(h, v);
		for (auto &v : r.viol) h = mix2(h, hash_bytes((const u8 *)v.msg.data(), v.msg.size()));
		r.hash = mix2(h, shadow_seed);
	}
	void note() { u64 h = nand.hash; for (u64 v : cur) h = mix2(h, v); if (ram) h = mix2(h, mix2(fw::map_size(ram->m), mix2(fw::map_capacity(ram->m), fw::map_jsize(ram->m)))); r.trace.push_back(mix2(h, abandoned)); }
	bool fatal() const { return r.fatal(); }
	u32 row_of_bad() const { u32 m = 0, c = 0; for (u32 i = 0; i < 2 * nand.nb; i++) { auto &b = nand.B(i % nand.nb); c = b.bad || b.failed ? c + 1 : 0; m = std::max(m, c); } return m; }
	void trace_op(const Op &o)
	{
		fprintf(stderr, "  op %d %s a=%u b=%u%s  [size %u jsize %u root %d clean %d recov %d]\n", nand.opidx, op_names[o.kind], o.a, o.b, o.faults.empty() ? "" : " +faults",
			fw::map_size(ram->m), fw::map_jsize(ram->m), (int)fw::map_root(ram->m), fw::map_is_clean(ram->m), fw::map_in_recovery(ram->m));
	}
	// No faults any more: the map must hold exactly the model's state, take
	// writes, sync, and survive a restart.
	void finish()
	{
		check_full("final check");
		if (abandoned || fatal() || rotted) return;
		if (p.scenario == SC_BIG && p.ns > 2000) return;
		Op w = {}; w.kind = OP_WRITE; w.flags = FL_VERIFY;
		u32 n = std::min<u32>(p.ns, 12);
		Rng g(mix2(p.seed, 4242));
		for (u32 i = 0; i < n && !abandoned && !fatal(); i++) { w.a = g.below(p.ns); w.v = g.next(); if (cur[w.a] == V_UNMAPPED && fw::map_size(ram->m) >= fw::map_capacity(ram->m)) continue; do_op(w); }
		if (abandoned || fatal()) return;
		Op s = {}; s.kind = OP_RESTART; do_op(s);
		if (abandoned || fatal()) return;
		check_full("after final sync and restart");
	}
};

// Evaluate a power cut at this exact NAND operation on a copy of the chip,
// without disturbing the run.
void MapSim::shadow(SimNand &n, MutKind k, u32 target, const u8 *data, const Fault &f)
{
	if (&n != &nand || !shadow_budget) return;
	shadow_budget--;
	u32 mode = f.mode; u64 arg = f.arg;
	if (f.nth == NTH_ALL) { mode = (u32)(mix2(arg, n.total_mut) & 3); arg = mix2(arg, n.total_mut); }
	mode = n.cut_mode(k, target, mode, true);	// the clone is thrown away: checkpoints may tear
	bool inrec = fw::map_in_recovery(ram->m);
	r.st.v[ST_SHADOW]++; if (inrec) r.st.v[ST_SHADOW_IN_RECOVERY]++;
	static const int es[4] = { ST_CUT_NONE, ST_CUT_FULL, ST_CUT_TORN, ST_CUT_MIX };
	r.st.v[es[mode & 3]]++;
	r.st.v[k == MUT_ERASE ? ST_CUT_ON_ERASE : k == MUT_MARK ? ST_CUT_ON_MARK : n.is_cp(target) ? ST_CUT_ON_CP : ST_CUT_ON_PROG]++;
	SimNand c(n);
	c.apply_cut(k, target, data, mode, arg);
	c.power_cycle();
	bool keep_crashed = crashed_ever; crashed_ever = true;
	Ram *rm = nullptr; int rc;
	size_t nk = r.known.size(), nv = r.viol.size();
	reboot_twice(c, rm, rc);
	State o; observe(*rm, c, o, "power cut", true);
	judge_crash(o, strf("power cut at NAND operation %u of the call (%s %u, %s)", n.mutidx - 1, k == MUT_ERASE ? "erase" : k == MUT_MARK ? "mark_bad" : "program", target,
		mode == EFF_NONE ? "nothing done" : mode == EFF_FULL ? "completed" : "torn").c_str(), fw::map_size(rm->m));
	bool clean = r.known.size() == nk && r.viol.size() == nv;
	for (u64 v : o) if (v == V_UNREADABLE) clean = false;
	if (clean && (arg >> 7) % 3 == 0) {
		// keep using the device: writes, sync, another power cut
		r.st.v[ST_SHADOW_CONT]++;
		Rng g(arg ^ 0xc0); std::vector<u8> d(c.psize); State e = o;
		int cnt = 1 + (int)g.below(6); bool ok = true; int err = 0;
		for (int i = 0; i < cnt && ok; i++) {
			u32 s = g.below(p.ns);
			bool fresh = e[s] == V_UNMAPPED;
			c.begin_call(nullptr, -1); err = EC_UNSET;
			if (g.chance(20)) { if (fw::map_trim(rm->m, sector[s], &err) < 0) ok = false; else e[s] = V_UNMAPPED; }
			else {
				make_content(d.data(), c.psize, g.next()); u64 id = cid(d.data());
				if (fw::map_write(rm->m, sector[s], d.data(), &err) < 0) { if (err == EC_MAP_FULL && fresh) continue; ok = false; }
				else e[s] = id;
			}
		}
		if (ok) { c.begin_call(nullptr, -1); err = EC_UNSET; if (fw::map_sync(rm->m, &err) < 0) ok = false; }
		if (!ok && p.scenario == SC_EOL && nand.nfailed && (err == EC_TOO_BAD || err == EC_JFULL || err == EC_MAP_FULL)) {}
		else if (!ok) {
			if (err == EC_ECC && uncommitted_cp(c))
				known(uncommitted_cp(c), strf("after a power cut, an operation fails with an ECC error reading checkpoint page %u, %s", c.last_ecc_page, ucp_text(c)));
			else V("post-op-error", strf("after a power cut at %s %u: write/trim/sync failed: %s (page %u, tag %d)", k == MUT_ERASE ? "erase" : k == MUT_MARK ? "mark_bad" : "program", target, sh_strerror(err), c.last_ecc_page, c.last_ecc_tag));
		} else {
			c.power_cycle(); delete rm; rm = nullptr; int e2; (void)e2;
			reboot_twice(c, rm, rc);
			State o2; observe(*rm, c, o2, "second power cut", true);
			for (u32 i = 0; i < p.ns; i++) if (o2[i] != e[i]) { char b[64]; V("crash2-lost-sync", strf("power cut, writes, sync, second power cut: sector %u (slot %u) gives %s", sector[i], i, vname(i, o2[i], b))); break; }
			if (fw::map_size(rm->m) != count_mapped(e)) V("crash-size", strf("after sync and a second power cut: size %u, %u sectors mapped", fw::map_size(rm->m), count_mapped(e)));
		}
	}
	delete rm;
	shadow_seed = mix2(shadow_seed, c.hash); for (u64 v : o) shadow_seed = mix2(shadow_seed, v);
	crashed_ever = keep_crashed;
}

} // namespace

void exec_map(const Plan &p, Result &r)
{
	MapSim s(p, r);
	s.run();
}
