// Simulated NAND chip: the only "hardware" dhara sees.
#pragma once
#include "common.h"
#include <deque>
#include <unordered_map>

enum PState : u8 { P_ERASED, P_DATA, P_TORN, P_GARB };
enum Tag : u8 { T_NONE, T_CUT, T_FAILED, T_INIT, T_ROT, T_CUTERASE, T_MARKED };
enum MutKind { MUT_PROG, MUT_ERASE, MUT_MARK, MUT_COPY };

struct SimNand;
struct NandHooks {
	virtual void shadow(SimNand &n, MutKind k, u32 target, const u8 *data, const Fault &f) = 0;
	virtual void on_cut(SimNand &n, MutKind k, u32 target, u32 mode) = 0;
	virtual void on_fail(SimNand &n, MutKind k, u32 target) = 0;
	virtual void on_prog(SimNand &n, u32 page) = 0;
	virtual void on_rderr(SimNand &n, u32 page, bool meta) = 0;
};

struct SimNand {
	struct Blk { u32 next; u8 bad, failed, mode, factory, reported, torn_erase, retry; u32 bomb; u32 bombmode; u32 erases; u8 erase_failed; };

	sh_nand *cn = nullptr, *cn_ref = nullptr;	// driver handle for either firmware
	u32 lp, lb, nb, psize, ppb, npages, log2_ppc;
	bool imprecise, tearcp, killbad, nogarbcp = false;
	u32 rdbuf = 0;
	u32 maxfail, nfailed = 0;
	u64 salt;
	// storage; a huge chip only stores the blocks that were touched
	mutable std::vector<u8> data, st, tag;
	mutable std::vector<u32> attempt;
	mutable std::deque<Blk> blk;
	bool huge = false;
	u32 init = 0, headblk = 0, epoch0 = 0, oldpass = 0;	// what an untouched block holds
	mutable std::unordered_map<u32, u32> where;
	mutable std::vector<u32> bnum;
	u32 slot(u32 b) const { if (!huge) return b; auto i = where.find(b); return i != where.end() ? i->second : touch(b); }
	u32 touch(u32 b) const;
	u32 block_of(u32 slot) const { return huge ? bnum[slot] : slot; }
	Blk &B(u32 b) const { return blk[slot(b)]; }
	size_t ix(u32 p) const { return huge ? ((size_t)slot(p >> lb) << lb) | (p & (ppb - 1)) : p; }
	mutable std::unordered_map<u32, std::vector<u8>> pages;	// huge chips: contents of pages written since
	u8 *page(u32 p) const, synth(u32 p, u8 *d) const;
	void forget(u32 p, u8 fill) const;
	void init_block(u32 b) const, grow(u32 nblocks) const;
	u32 session = 1;

	// ECC stack (raw media with spare bytes, real ecc/ code)
	u32 ecc = 0, chunk = 0, oob = 0, rawsz = 0, nchunks = 0;
	std::vector<u8> raw;
	std::vector<u8> flips;	// per page*chunk: number of flipped bits since programming

	// fault injection for the current API call
	const std::vector<Fault> *armed = nullptr;
	u32 mutidx = 0, rdidx = 0;
	NandHooks *hooks = nullptr;
	Result *res = nullptr;
	int opidx = 0;
	u64 hash = 0;
	bool calm = false;	// nothing fails
	bool quiet = false;	// sweeps: not counted in the op cost

	// counters
	u32 c_read = 0, c_prog = 0, c_erase = 0, c_mark = 0, c_isbad = 0, c_isfree = 0, c_fail = 0, c_rderr = 0;
	u64 budget = 0;
	u64 total_mut = 0;
	bool erased_since = false;
	// last page whose read failed with an ECC error
	u32 last_ecc_page = PAGE_NONE; u8 last_ecc_tag = 0;

	SimNand(const Plan &p, Result *r);
	SimNand(const SimNand &o);
	SimNand &operator=(const SimNand &) = delete;
	~SimNand();

	void begin_call(const std::vector<Fault> *f, int op);
	void end_call();
	void power_cycle();
	void violate(const char *kind, const std::string &msg);
	[[noreturn]] void stop(const char *kind, const std::string &msg);
	void tick();

	bool looks_free(u32 p) const;
	bool is_cp(u32 p) const { return ((p + 1) & ((1u << log2_ppc) - 1)) == 0; }

	int is_bad(u32 b); void mark_bad(u32 b); int erase(u32 b); int prog(u32 p, const u8 *d, bool from_copy = false);
	int is_free(u32 p); int read(u32 p, size_t off, size_t len, u8 *out); int copy(u32 s, u32 d); void unread(u32 p, size_t off, size_t len, u8 *out) const;

	void eff_prog(u32 p, const u8 *d, u32 eff, u8 tag, u64 seed);
	void eff_erase(u32 b, u32 eff, u8 tag, u64 seed);
	void set_content(u32 p, const u8 *d);
	bool fetch(u32 p, u8 *out);	// whole page through ECC; false: uncorrectable
	void encode(u32 p, const u8 *d);
	bool decode(u32 p, u8 *out);
	void flip_bits(u64 seed, u32 count);
	void ruin(u32 p, u64 seed);
	u32 cut_mode(MutKind k, u32 target, u32 mode, bool clone = false) const;
	void apply_cut(MutKind k, u32 target, const u8 *d, u32 mode, u64 arg);
	bool mutation(MutKind k, u32 target, const u8 *d);	// true: must fail
	bool allow_fail(u32 b) const;
	void kill_block(u32 b);
};

static inline std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static inline std::string strf(const char *f, ...)
{
	char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
