// Executes a plan against the journal API and compares every outcome with a
// reference queue of (id, metadata, data) entries.
#include "handle.h"

namespace {

typedef FwRam JRam;

struct Ent { u32 id, page; };
struct Snap { std::vector<Ent> q; u32 cookie = 0; u32 root = PAGE_NONE; bool initial = true; };
struct Seen { std::vector<Ent> q; u32 cookie = 0, root = PAGE_NONE; bool resumed = false; std::string bad; bool kf = false; };

struct JSim : NandHooks {
	const Plan &p; Result &r; SimNand nand; JRam *ram = nullptr;
	std::vector<Ent> q;		// the queue, oldest first
	std::vector<u64> dhash;		// per id: content of its data page
	std::vector<u8> freed;		// per id: removed while the journal was clean
	u32 next_id = 1;
	Snap clean; Snap inflight; bool has_inflight = false;
	u32 cookie = 0; bool cookie_known = false;
	u32 resume_idx = 0, upb, limit; bool reuse_cut = false, fillmode, tight, cleared = false, abandoned = false, rec_push = false, crashed = false;
	u32 last_prog_page = PAGE_NONE, wraps = 0; u64 shadow_h = 0; u32 shadow_budget = 400;
	u32 nfail_seen = 0;
	BadMet met; std::vector<u32> capbad;

	JSim(const Plan &pl, Result &res) : p(pl), r(res), nand(pl, &res)
	{
		nand.hooks = this; met.last = (u32)p.bad.size(); nand.nogarbcp = p.scenario == SC_JCRASHFAIL || p.secmode == 4; dhash.push_back(0);
		upb = nand.ppb - (nand.ppb >> nand.log2_ppc);
		// Every failure costs its block, the block its entries move to and the
		// capacity the journal stops offering.
		int blocks = (int)p.nb - (int)p.bad.size() - 3 * (int)p.maxfail - 3; if (blocks < 1) blocks = 1;
		limit = (u32)blocks * upb;
		tight = p.secmode == 4;		// fills the journal to the brim, whatever happens
		fillmode = tight || (p.scenario == SC_JPLAIN && p.secmode == 5);
	}
	~JSim() { delete ram; }
	void V(const char *k, const std::string &m) { nand.violate(k, m); }
	void known(const char *id, const std::string &msg)
	{
		r.st.v[ST_KNOWN]++; for (auto &k : r.known) if (k.kind == id) return;
		r.known.push_back({id, nand.opidx, msg});
	}

	// ---- hooks
	void on_prog(SimNand &n, u32 page) override
	{
		if (&n != &nand) return;
		if (last_prog_page != PAGE_NONE && page < last_prog_page) { wraps++; r.st.v[ST_EPOCH_WRAPS]++; met.pass(nand); }
		last_prog_page = page;
	}
	void count_cut(SimNand &n, MutKind k, u32 target, u32 mode)
	{
		static const int es[4] = { ST_CUT_NONE, ST_CUT_FULL, ST_CUT_TORN, ST_CUT_MIX };
		r.st.v[es[mode & 3]]++;
		r.st.v[k == MUT_ERASE ? ST_CUT_ON_ERASE : k == MUT_MARK ? ST_CUT_ON_MARK : n.is_cp(target) ? ST_CUT_ON_CP : ST_CUT_ON_PROG]++;
	}
	void on_cut(SimNand &n, MutKind k, u32 t, u32 m) override { count_cut(n, k, t, m); if (fw::jnl_in_recovery(ram->m)) r.st.v[ST_CUT_IN_RECOVERY]++; }
	void on_fail(SimNand &n, MutKind, u32) override
	{
		if (&n != &nand || !ram) return;
		nfail_seen++;
		r.st.v[fw::jnl_in_recovery(ram->m) ? ST_FAIL_IN_RECOVERY : ST_RECOVERIES]++;
	}
	void on_rderr(SimNand &, u32, bool) override {}
	void shadow(SimNand &n, MutKind k, u32 target, const u8 *data, const Fault &f) override
	{
		if (&n != &nand || !shadow_budget) return;
		shadow_budget--;
		u32 mode = f.mode; u64 arg = f.arg;
		if (f.nth == NTH_ALL) { mode = (u32)(mix2(arg, n.total_mut) & 3); arg = mix2(arg, n.total_mut); }
		mode = n.cut_mode(k, target, mode, true);
		r.st.v[ST_SHADOW]++; if (fw::jnl_in_recovery(ram->m)) r.st.v[ST_SHADOW_IN_RECOVERY]++;
		count_cut(n, k, target, mode);
		SimNand c(n); c.apply_cut(k, target, data, mode, arg); c.power_cycle();
		Seen s; look(c, s);
		judge(s, strf("power cut at %s %u (%s)", k == MUT_ERASE ? "erase" : k == MUT_MARK ? "mark_bad" : "program", target, mode == EFF_NONE ? "nothing done" : mode == EFF_FULL ? "completed" : "torn"), loose(), false);
		shadow_h = mix2(mix2(shadow_h, c.hash), s.q.size() + s.root);
	}
	bool loose() const { return rec_push || fw::jnl_in_recovery(ram->m); }

	// ---- content
	void fill_meta(u32 id, u8 *m)
	{
		Rng g(mix2(p.seed ^ 0x3e7a, id));
		int style = (int)g.below(4);
		for (int i = 0; i < META_SIZE; i++) m[i] = style == 0 ? 0xff : style == 1 ? 0 : (u8)g.next();
		for (int i = 0; i < 4; i++) m[i] = (u8)(id >> (8 * i));
	}
	void fill_data(u64 v, u8 *d)
	{
		u32 n = nand.psize;
		switch (v % 19) {
		case 0: memset(d, 0xff, n); return;
		case 1: memset(d, 0, n); return;
		case 2: memcpy(d, "Dha", 3); for (u32 i = 3; i < n; i++) d[i] = (u8)mix2(v, i); return;
		}
		for (u32 i = 0; i + 8 <= n; i += 8) { u64 x = mix2(v, i); memcpy(d + i, &x, 8); }
	}
	static u32 id_of(const u8 *m) { return m[0] | m[1] << 8 | m[2] << 16 | (u32)m[3] << 24; }
	u32 get_cookie(JRam &a) { const u8 *c = fw::jnl_cookie(a.m); u32 v = 0; for (int i = 0; i < 4 && i < sh_cookie_size(); i++) v |= (u32)c[i] << (8 * i); return v; }
	int find_id(u32 id) const { for (size_t i = 0; i < q.size(); i++) if (q[i].id == id) return (int)i; return -1; }

	// Does the page hold entry `id`, metadata and data?  "" if so.
	std::string verify_page(JRam &a, SimNand &n, u32 page, u32 id)
	{
		std::vector<u8> m(META_SIZE), w(META_SIZE), d(n.psize); int e = EC_UNSET;
		if (page >= n.npages) return strf("page %u does not exist", page);
		if (fw::jnl_read_meta(a.m, page, m.data(), &e) < 0) return strf("metadata of page %u unreadable (%s)", page, sh_strerror(e));
		fill_meta(id, w.data());
		if (id_of(m.data()) != id) return strf("page %u has the metadata of entry %u", page, id_of(m.data()));
		if (m != w) return strf("metadata of page %u is damaged", page);
		if (n.read(page, 0, n.psize, d.data())) return strf("data of page %u unreadable", page);
		if (hash_bytes(d.data(), n.psize) != dhash[id]) return strf("data of page %u is wrong", page);
		return "";
	}

	static bool uncommitted_cp(const SimNand &n, const char *&id)
	{
		if (n.last_ecc_page == PAGE_NONE || !n.is_cp(n.last_ecc_page)) return false;
		id = n.last_ecc_tag == T_CUT ? "KF-TORN-CP" : n.last_ecc_tag == T_FAILED && !n.blk[n.last_ecc_page >> n.lb].bad ? "KF-FAILED-CP" : nullptr;
		return id && known_enabled(id);
	}
	// Next entry at the tail: skips filler.  Returns false if there is none.
	bool next_entry(JRam &a, SimNand &n, u32 &page, u32 &id, std::string &bad)
	{
		std::vector<u8> m(META_SIZE);
		for (u32 k = 0; k <= n.npages + 8; k++) {
			page = fw::jnl_peek(a.m);
			if (page == PAGE_NONE) return false;
			if (page >= n.npages) { bad = strf("peek returned page %u of %u", page, n.npages); return false; }
			int e = EC_UNSET; n.last_ecc_page = PAGE_NONE; const char *kf;
			if (fw::jnl_read_meta(a.m, page, m.data(), &e) < 0) {
				if (e == EC_ECC && crashed && uncommitted_cp(n, kf)) { known(kf, strf("metadata of page %u at the tail is unreadable: checkpoint page %u was never completed", page, n.last_ecc_page)); fw::jnl_dequeue(a.m); continue; }
				if (e == EC_ECC && crashed && tight && n.blk[page >> n.lb].torn_erase) { reuse_cut = true; fw::jnl_dequeue(a.m); continue; }
				bad = strf("metadata of the page at the tail (%u) is unreadable: %s", page, sh_strerror(e)); return false;
			}
			id = id_of(m.data());
			if (id != 0xffffffffu) return true;
			fw::jnl_dequeue(a.m);
		}
		bad = "the queue never ends"; return false;
	}

	// ---- power up
	int boot(SimNand &n, JRam *&a)
	{
		a = new JRam(n.psize, mix2(p.seed + r.variant, 77 + resume_idx), false, p.upgrade && (mix2(p.seed ^ 0xf1, resume_idx) & 1)); resume_idx++;
		a->jnl_init(n);
		n.begin_call(nullptr, -1); r.st.v[ST_RESUMES]++;
		int e = EC_UNSET; int rc = fw::jnl_resume(a->m, (resume_idx % 5 == 2) != (r.variant != 0) ? nullptr : &e);
		if (n.c_prog + n.c_erase + n.c_mark) V("j-resume", "resume changed the chip");
		if (rc < 0 && (fw::jnl_peek(a->m) != PAGE_NONE || fw::jnl_root(a->m) != PAGE_NONE)) V("j-resume", "resume failed but the journal is not empty");
		return rc;
	}
	// What a resumed journal contains (walked on a second instance).
	void look(SimNand &n, Seen &s)
	{
		JRam *a = nullptr; bool kc = crashed; crashed = true;
		s.resumed = boot(n, a) == 0;
		s.root = fw::jnl_root(a->m); s.cookie = get_cookie(*a);
		u32 pg, id; std::string bad;
		while (next_entry(*a, n, pg, id, bad)) {
			// a block of entries that were removed while the journal was clean
			// may have been half erased for reuse
			if (tight && n.blk[pg >> n.lb].torn_erase) { reuse_cut = true; fw::jnl_dequeue(a->m); continue; }
			if (id >= next_id) { bad = strf("page %u holds metadata that was never written", pg); break; }
			std::string b = verify_page(*a, n, pg, id);
			if (!b.empty()) { bad = b; break; }
			s.q.push_back({id, pg}); fw::jnl_dequeue(a->m);
			if (s.q.size() > n.npages) { bad = "the queue never ends"; break; }
		}
		s.bad = bad; crashed = kc;
		delete a;
	}
	static std::string ids(const std::vector<Ent> &v)
	{
		std::string o; size_t n = 0; for (auto &e : v) { if (n++ > 24) { o += " ..."; break; } o += strf("%s%u", o.empty() ? "" : " ", e.id); } return o.empty() ? "empty" : o;
	}
	// Is `s` an acceptable view of snapshot `c`?  Entries removed since then may
	// or may not be back.
	std::string matches(const Seen &s, const Snap &c, bool exact, bool flight)
	{
		if (c.initial && !s.resumed) return s.q.empty() ? "" : "entries on a chip that was never checkpointed";
		if (!s.resumed) return "resume failed";
		size_t k = 0;
		for (auto &e : c.q) {
			if (k < s.q.size() && s.q[k].id == e.id) { k++; continue; }
			bool need = e.id >= freed.size() || !freed[e.id];
			if (need) return strf("entry %u is missing or out of place (queue: %s, expected: %s)", e.id, ids(s.q).c_str(), ids(c.q).c_str());
		}
		if (k < s.q.size()) return strf("unexpected entry %u (queue: %s, expected: %s)", s.q[k].id, ids(s.q).c_str(), ids(c.q).c_str());
		return "";
	}
	bool judge(const Seen &s, const std::string &what, bool lse, bool exact)
	{
		if (!s.bad.empty()) { V(exact ? "j-restart" : "j-lost", what + ": " + s.bad); return false; }
		if (lse) {	// in the middle of a recovery: entries may show up twice
			for (auto &e : clean.q) {
				if (e.id < freed.size() && freed[e.id]) continue;
				if (s.root != clean.root && find_id(e.id) < 0) continue;	// a later checkpoint without it
				bool ok = false; for (auto &x : s.q) ok |= x.id == e.id;
				if (!ok) { V("j-lost", strf("%s, during recovery: committed entry %u is gone (queue: %s)", what.c_str(), e.id, ids(s.q).c_str())); return false; }
			}
			return true;
		}
		std::string m = matches(s, clean, exact, false);
		if (m.empty()) {
			if (s.resumed && !clean.initial) {
				if (s.cookie != clean.cookie) V("j-cookie", strf("%s: cookie %08x, the last checkpoint had %08x", what.c_str(), s.cookie, clean.cookie));
				if (s.root != clean.root) V("j-root", strf("%s: root page %u, the last checkpoint had %u", what.c_str(), s.root, clean.root));
			}
			// the same content may also be the in-flight state
			if (r.viol.empty() || !has_inflight) return r.viol.empty();
			if (!matches(s, inflight, false, true).empty() || s.cookie != inflight.cookie) return false;
			r.viol.erase(std::remove_if(r.viol.begin(), r.viol.end(), [&](const Violation &v) { return v.op == nand.opidx && (v.kind == "j-cookie" || v.kind == "j-root"); }), r.viol.end());
			return true;
		}
		if (!exact && has_inflight && matches(s, inflight, false, true).empty()) {
			if (s.cookie != inflight.cookie) { V("j-cookie", strf("%s: cookie %08x, expected %08x", what.c_str(), s.cookie, inflight.cookie)); return false; }
			return true;
		}
		V(exact ? "j-restart" : "j-lost", what + ": " + m);
		return false;
	}
	void come_back(const char *what, bool exact)
	{
		bool lse = !exact && loose();
		delete ram; ram = nullptr; nand.power_cycle();
		if (!exact) crashed = true, met.forget();
		Seen s; look(nand, s);
		bool half = reuse_cut; reuse_cut = false;
		bool ok = judge(s, what, lse, exact);
		if (half) abandoned = true;
		if (!exact) r.st.v[s.q.size() == q.size() ? ST_CRASH_NOLOSS : ST_CRASH_ROLLBACK]++;
		if (!ok) { abandoned = true; boot(nand, ram); return; }
		std::vector<u8> dup(next_id, 0); for (auto &e : s.q) { if (dup[e.id]) abandoned = true; dup[e.id] = 1; }
		if (abandoned) r.st.v[ST_ABANDONED]++;
		boot(nand, ram);
		if (fw::jnl_root(ram->m) != s.root || get_cookie(*ram) != s.cookie) V("j-resume", "two resumes of the same chip disagree");
		q = s.q; cookie = s.cookie; cookie_known = s.resumed; has_inflight = false; rec_push = false; cleared = false; freed.clear();
		clean.q = q; clean.cookie = s.cookie; clean.root = s.root; clean.initial = !s.resumed;
	}

	// ---- pushes
	int errv = 0; bool nullerr = false, rec_full = false;
	int *E() { errv = EC_UNSET; return &errv; }	// recovery needs the error code
	u32 cur_id = 0;	// entry being pushed, 0 for filler
	int push_raw(u32 copy_from, const u8 *d, const u8 *m, u32 id, bool rec)
	{
		has_inflight = true; inflight.q = q; inflight.cookie = get_cookie(*ram); inflight.initial = false; inflight.root = PAGE_NONE;
		if (id && !rec) inflight.q.push_back({id, PAGE_NONE});
		rec_push = rec;
		bool was = fw::jnl_in_recovery(ram->m);
		// a caller who doesn't ask for the error code tells the two by the recovery flag
		bool blind = nullerr && !rec && !was;
		int rc = copy_from != PAGE_NONE ? fw::jnl_copy(ram->m, copy_from, m, blind ? nullptr : E()) : fw::jnl_enqueue(ram->m, d, m, blind ? nullptr : E());
		if (blind && rc < 0) errv = fw::jnl_in_recovery(ram->m) ? EC_RECOVER : EC_JFULL;
		// a page of the refused call may have reached the chip nevertheless
		rec_push = false; has_inflight = rc < 0 && errv == EC_JFULL && nand.c_fail;
		if (rc < 0) {
			if (errv == EC_UNSET) V("j-error", "a failed call did not set the error code");
			if (errv == EC_RECOVER && !fw::jnl_in_recovery(ram->m)) V("j-recover", "E_RECOVER was returned, but the journal is not in recovery");
			return -1;
		}
		u32 root = fw::jnl_root(ram->m);
		if (id) {
			if (rec) { int i = find_id(id); if (i >= 0) q[i].page = root; }
			else q.push_back({id, root});
			std::string b = verify_page(*ram, nand, root, id);
			if (!b.empty()) V("j-root", strf("after %s the root does not hold the new entry: %s", copy_from != PAGE_NONE ? "copy" : "enqueue", b.c_str()));
		}
		if (!fw::jnl_in_recovery(ram->m) && fw::jnl_is_clean(ram->m)) { clean.q = q; clean.cookie = get_cookie(*ram); clean.root = root; clean.initial = false; cleared = false; }
		return 0;
	}
	// Assisted recovery, the way journal.h describes it.
	bool recover()
	{
		std::vector<u8> m(META_SIZE); u32 steps = 0, max = (p.maxfail + 3) * nand.ppb * 2 + 32;
		const std::vector<Ent> before = q;
		while (fw::jnl_in_recovery(ram->m)) {
			if (++steps > max) { V("j-recover", strf("recovery does not finish within %u steps", max)); return false; }
			u32 pg = fw::jnl_next_recoverable(ram->m); int rc;
			if (pg == PAGE_NONE) rc = push_raw(PAGE_NONE, nullptr, nullptr, 0, true);
			else {
				if (pg >= nand.npages || nand.is_cp(pg)) { V("j-recover", strf("next_recoverable returned page %u", pg)); return false; }
				int e = EC_UNSET; nand.last_ecc_page = PAGE_NONE;
				if (fw::jnl_read_meta(ram->m, pg, m.data(), &e) < 0) {
					const char *kf;
					if (e == EC_ECC && crashed && uncommitted_cp(nand, kf)) { known(kf, strf("metadata of recoverable page %u is unreadable: checkpoint page %u was never completed", pg, nand.last_ecc_page)); continue; }
					V("j-recover", strf("metadata of recoverable page %u is unreadable: %s", pg, sh_strerror(e))); return false;
				}
				u32 id = id_of(m.data());
				if (id == 0xffffffffu || find_id(id) < 0) continue;	// filler or already removed
				rc = push_raw(pg, nullptr, m.data(), id, true);
			}
			if (rc < 0 && errv == EC_RECOVER) q = before;	// another block failed: start over, from the old pages
			if (rc < 0 && errv == EC_JFULL && tight) { r.st.v[ST_JFULL]++; rec_full = true; return false; }
			if (rc < 0 && errv != EC_RECOVER) { V("j-recover", strf("recovery failed: %s", sh_strerror(errv))); return false; }
		}
		for (auto &e : q) if (nand.blk[e.page >> nand.lb].reported) { V("j-recover", strf("after recovery entry %u is still in failed block %u", e.id, e.page >> nand.lb)); break; }
		for (u32 b = 0; b < nand.nb; b++) if (nand.blk[b].reported && !nand.blk[b].bad) { V("retire-missed", strf("block %u failed but was not marked bad", b)); break; }
		return true;
	}
	// 0 ok, 1 journal full, -1 violation
	int push(u32 copy_from, const u8 *d, const u8 *m, u32 id)
	{
		for (int i = 0; i < 12; i++) {
			if (!push_raw(copy_from, d, m, id, false)) { r.st.v[ST_JENQ]++; return 0; }
			if (errv == EC_RECOVER) {
				if (!recover()) return rec_full ? (rec_full = false, 1) : -1;
				if (copy_from != PAGE_NONE) { copy_from = q.empty() ? PAGE_NONE : q[0].page; }
				continue;
			}
			if (errv == EC_JFULL) {
				r.st.v[ST_JFULL]++;
				u32 bad = 0; for (auto &b : nand.blk) bad += b.bad || b.failed;
				if (!(tight && (bad || p.maxfail)) && fw::jnl_size(ram->m) + (bad + 2) * upb < nand.nb * upb) { V("j-full", strf("journal full with %u of %u user pages in use", fw::jnl_size(ram->m), nand.nb * upb)); return -1; }
				return 1;
			}
			V("j-error", strf("enqueue failed: %s", sh_strerror(errv))); return -1;
		}
		V("j-error", "enqueue keeps asking for recovery"); return -1;
	}
	bool do_enq(u64 v)
	{
		if (!fillmode && fw::jnl_size(ram->m) + 2 >= limit) { drain(1 + (u32)(v % 97) * (u32)q.size() / 97); if (abandoned || !do_sync()) return false; if (fw::jnl_size(ram->m) + 2 >= limit) { drain((u32)q.size()); if (!do_sync()) return false; } }
		std::vector<u8> d(nand.psize), m(META_SIZE); u32 id = next_id++;
		fill_data(v, d.data()); fill_meta(id, m.data()); dhash.push_back(hash_bytes(d.data(), nand.psize));
		int rc = push(PAGE_NONE, d.data(), m.data(), id);
		if (rc == 1) { full(); return false; }
		return rc == 0;
	}
	void full()
	{
		if (!fillmode) { V("j-full", strf("journal full with %u entries, limit %u", (u32)q.size(), limit)); return; }
		if (tight) {
			// everything is still there, now and after a power cut; a
			// journal that is clean can be used again after removing entries
			// (if the last free block failed, metadata not yet written and moved
			// pages have nowhere to go: then only what a restart finds counts)
			u32 nf = nand.c_fail;
			nand.begin_call(nullptr, -1); (void)nf; check_all();
			if (r.fatal()) return;
			if (fw::jnl_in_recovery(ram->m) || !fw::jnl_is_clean(ram->m)) { r.st.v[ST_CUT_IDLE]++; come_back("power cut on a full journal", false); }
			if (!abandoned && !r.fatal()) drain(1 + next_id * 7 % (u32)(q.size() + 1));
			return;
		}
		drain((u32)q.size()); if (!abandoned && !r.fatal()) check_empty();
		abandoned = true;
	}
	bool do_sync()
	{
		u32 n = 0, max = (1u << nand.log2_ppc) * (2 * p.maxfail + 3);
		while (!fw::jnl_is_clean(ram->m)) {
			if (++n > max) { V("j-error", strf("no checkpoint after %u pages", n)); return false; }
			int rc = push(PAGE_NONE, nullptr, nullptr, 0);
			if (rc == 1) { full(); return false; }
			if (rc < 0) return false;
		}
		r.st.v[ST_SYNCS]++;
		if (cleared) { clean.q = q; cleared = false; }	// clear takes effect with the checkpoint
		return true;
	}
	// Front of the queue must be the oldest entry.
	bool front(u32 &pg)
	{
		u32 id; std::string bad;
		if (!next_entry(*ram, nand, pg, id, bad)) {
			if (!bad.empty()) { V("j-fifo", bad); return false; }
			if (!q.empty()) V("j-fifo", strf("the journal is empty, %u entries expected, oldest %u", (u32)q.size(), q[0].id));
			return false;
		}
		if (q.empty()) { V("j-fifo", strf("entry %u at the tail of an empty journal", id)); return false; }
		if (id != q[0].id) { V("j-fifo", strf("entry %u at the tail, expected %u", id, q[0].id)); return false; }
		std::string b = verify_page(*ram, nand, pg, id);
		if (!b.empty()) { V(b.find("meta") != std::string::npos ? "j-meta" : "j-data", b); return false; }
		return true;
	}
	void pop()
	{
		// nothing on the chip needs what a clean journal gives up: its space is free at once
		bool gone = fw::jnl_is_clean(ram->m) && !fw::jnl_in_recovery(ram->m); u32 js = fw::jnl_size(ram->m);
		if (gone) { if (freed.size() <= q[0].id) freed.resize(q[0].id + 1); freed[q[0].id] = 1; }
		q.erase(q.begin()); fw::jnl_dequeue(ram->m); r.st.v[ST_JDEQ]++;
		if (gone && fw::jnl_size(ram->m) >= js) V("j-size", strf("an entry was removed from a clean journal, but its size is %u, it was %u", fw::jnl_size(ram->m), js));
	}
	void drain(u32 n)
	{
		u32 pg;
		while (n-- && !q.empty() && !abandoned && !r.fatal()) { if (!front(pg)) { abandoned = true; return; } pop(); }
	}
	// removing from an empty journal does nothing
	void check_empty()
	{
		u32 pg; front(pg); if (r.fatal()) return;
		u32 js = fw::jnl_size(ram->m), root = fw::jnl_root(ram->m); fw::jnl_dequeue(ram->m);
		if (fw::jnl_peek(ram->m) != PAGE_NONE || fw::jnl_size(ram->m) != js || fw::jnl_root(ram->m) != root) V("j-fifo", strf("dequeue on an empty journal changed it (size %u, was %u)", fw::jnl_size(ram->m), js));
	}
	u32 cap_bad(u32 k)	// capacity once k bad blocks were met
	{
		while (capbad.size() <= k) {
			u32 i = (u32)capbad.size();
			sh_nand *t = ref_sh_nand_new(nullptr, (int)p.lp, (int)p.lb, nand.nb);
			JRam x(nand.psize, 1, false, true); ref_sh_jnl_init(x.h.mem, t, x.buf);
			capbad.push_back(i + 1 < nand.nb ? ref_sh_jnl_capacity_bad(x.h.mem, i) : 0); ref_sh_nand_free(t);
		}
		return capbad[k];
	}
	void check_capacity()
	{
		u32 k = 0; for (auto &b : nand.blk) k += b.bad || b.failed;
		u32 c = fw::jnl_capacity(ram->m), guess = std::max(k, nand.nb >> 6);
		if (!(tight && k) && c > cap_bad(met.sure)) V("j-size", strf("capacity %u, but the %u bad blocks that every pass over the chip meets leave room for %u", c, met.sure, cap_bad(met.sure)));
		if (c < cap_bad(guess)) V("j-size", strf("capacity %u, but with %u bad blocks there is room for %u", c, guess, cap_bad(guess)));
	}
	void check_all()
	{
		for (auto &e : q) {
 std::string b = verify_page(*ram, nand, e.page, e.id); r.st.v[ST_READS_CHECKED]++; if (!b.empty()) { V(b.find("meta") != std::string::npos ? "j-meta" : "j-data", strf("entry %u: %s", e.id, b.c_str())); return; } }
		u32 js = fw::jnl_size(ram->m);
		if (js < q.size() || js > nand.npages) V("j-size", strf("journal size %u with %u entries on %u pages", js, (u32)q.size(), nand.npages));
	}
	void step(const Op &o)
	{
		switch (o.kind) {
		case OP_ENQ: do_enq(o.v); break;
		case OP_ENQNULL: if (!fillmode && fw::jnl_size(ram->m) + 2 >= limit) { drain((u32)q.size() / 2 + 1); if (abandoned || !do_sync() || fw::jnl_size(ram->m) + 2 >= limit) break; }
			if (push(PAGE_NONE, nullptr, nullptr, 0) == 1) full(); break;
		case OP_REQ: {	// move the oldest entry to the front, with new metadata
			u32 pg; if (q.empty()) break;
			if (!fillmode && fw::jnl_size(ram->m) + 2 >= limit) { drain((u32)q.size() / 2 + 1); if (abandoned || !do_sync() || q.empty() || fw::jnl_size(ram->m) + 2 >= limit) break; }
			if (!front(pg)) break;
			std::vector<u8> m(META_SIZE); u32 id = next_id++; fill_meta(id, m.data()); dhash.push_back(dhash[q[0].id]);
			int rc = push(pg, nullptr, m.data(), id);
			if (rc == 1) { full(); break; }
			if (rc < 0 || !front(pg)) break;
			pop();
			break; }
		case OP_DEQ: if (q.empty()) { check_empty(); break; }
			if (tight && !(o.a & 7)) drain((o.a >> 3) % 4 ? 1 + (o.a >> 5) % (2 * upb) : (u32)q.size()); else if (q.size() > p.ns) drain(2); else drain(1); break;
		case OP_META: if (!q.empty()) { auto &e = q[o.a % q.size()]; std::string b = verify_page(*ram, nand, e.page, e.id); r.st.v[ST_READS_CHECKED]++; if (!b.empty()) V("j-meta", strf("entry %u: %s", e.id, b.c_str())); } break;
		case OP_COOKIE: {
			if (cookie_known && get_cookie(*ram) != cookie) V("j-cookie", strf("cookie reads %08x, %08x was set", get_cookie(*ram), cookie));
			u8 *c = fw::jnl_cookie(ram->m); cookie = (u32)o.v; cookie_known = true; for (int i = 0; i < 4; i++) c[i] = (u8)(cookie >> (8 * i)); break; }
		case OP_JCLEAR: fw::jnl_clear(ram->m); q.clear(); cleared = true; r.st.v[ST_CLEARS]++; { u32 pg = fw::jnl_peek(ram->m); if (pg != PAGE_NONE) V("j-fifo", "the journal is not empty after clear"); } break;
		case OP_JSYNC: do_sync(); break;
		case OP_FILL: { Rng g(o.v); u32 n = 1 + o.a % 120; if (tight && (o.b & 1)) { u32 good = 0; for (auto &b : nand.blk) good += !b.bad; n = good * upb > fw::jnl_size(ram->m) + o.a % (3 * upb) ? good * upb - fw::jnl_size(ram->m) - o.a % (3 * upb) : 1; } for (u32 i = 0; i < n && !abandoned && !r.fatal(); i++) { if (!do_enq(g.next())) break; if (!fillmode) while (q.size() > p.ns) drain(1); } break; }
		case OP_JRESTART: if (do_sync() && !abandoned) { r.st.v[ST_RESTARTS]++; come_back("restart after a checkpoint", true); } break;
		case OP_JCRASH: r.st.v[ST_CUT_IDLE]++; come_back("power cut between calls", false); break;
		case OP_CHECK: check_all(); break;
		}
	}
	void run()
	{
		try {
			int rc = boot(nand, ram);
			if (rc == 0) V("j-resume", "resume of a chip that never held a journal succeeded");
			clean.initial = true;
			for (size_t i = 0; i < p.ops.size() && !abandoned && !r.fatal(); i++) {
				nand.opidx = (int)i; const Op &o = p.ops[i];
				if (g_trace) fprintf(stderr, "  op %d %s a=%u b=%u [entries %u jsize %u/%u root %d clean %d]\n", (int)i, op_names[o.kind], o.a, o.b, (u32)q.size(), fw::jnl_size(ram->m), limit, (int)fw::jnl_root(ram->m), fw::jnl_is_clean(ram->m));
				nullerr = !!(o.flags & FL_NULLERR) != !!r.variant;
				nand.begin_call(o.faults.empty() ? nullptr : &o.faults, -1);
				try { step(o); r.st.v[ST_OPS]++; nand.end_call(); }
				catch (PowerCut &) { nand.end_call(); come_back("power cut", false); }
				{ u64 h = nand.hash; for (auto &e : q) h = mix2(h, e.id); r.trace.push_back(mix2(h, abandoned)); }
				if (!abandoned && !r.fatal()) {
					if (!fw::jnl_in_recovery(ram->m) && fw::jnl_size(ram->m) < q.size()) V("j-size", strf("journal size %u with %u entries", fw::jnl_size(ram->m), (u32)q.size()));
					check_capacity();
					u32 rt = fw::jnl_root(ram->m);
					cover(mix2(mix2(o.kind, rt == PAGE_NONE ? 999 : rt % nand.ppb), mix2(fw::jnl_is_clean(ram->m) + 2 * std::min<u32>(nand.c_erase, 3) + 8 * std::min<u32>(nand.c_fail, 3), nand.log2_ppc * 8 + p.lb)));
				}
			}
			nand.opidx = (int)p.ops.size();
			if (!abandoned && !r.fatal()) { nand.begin_call(nullptr, -1); check_all(); drain((u32)q.size()); if (!abandoned && !r.fatal()) check_empty(); }
		} catch (Stop &) {} catch (PowerCut &) {}
		r.trace.push_back(nand.hash);
		r.st.v[ST_NANDOPS] += nand.total_mut;
		if (wraps > r.st.v[ST_MAX_EPOCHS]) r.st.v[ST_MAX_EPOCHS] = wraps;
		u64 h = nand.hash; for (auto &e : q) h = mix2(h, e.id); for (auto &v : r.viol) h = mix2(h, hash_bytes((const u8 *)v.msg.data(), v.msg.size()));
		r.hash = mix2(h, shadow_h);
	}
};

} // namespace

void exec_journal(const Plan &p, Result &r) { JSim s(p, r); s.run(); }
