// Shared types of the dhara deterministic simulator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include "shim.h"

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

static inline u64 mix64(u64 x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
static inline u64 mix2(u64 a, u64 b) { return mix64(a ^ mix64(b)); }

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31); }
	u32 below(u32 n) { return n ? (u32)((next() >> 32) * (u64)n >> 32) : 0; }
	int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
	bool chance(int pct) { return (int)below(100) < pct; }
	bool chance1000(int pm) { return (int)below(1000) < pm; }
	// small numbers most likely
	u32 geo(int pct_continue, u32 max) { u32 n = 0; while (n < max && chance(pct_continue)) n++; return n; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((u32)v.size())]; }
};

static inline u64 hash_bytes(const u8 *p, size_t n, u64 h = 0x1234567)
{
	while (n >= 8) { u64 w; memcpy(&w, p, 8); h = (h ^ w) * 0x9fb21c651e98df25ull; h ^= h >> 32; p += 8; n -= 8; }
	while (n--) { h = (h ^ *p++) * 0x100000001b3ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}

// ---------------------------------------------------------------- plan
enum FaultKind { F_CUT, F_SHADOW, F_FAIL, F_RDERR, F_FAILPROG, F_NKINDS };
extern const char *const fault_names[];

// Power-cut effects on the NAND operation in progress
enum Eff { EFF_NONE, EFF_FULL, EFF_TORN, EFF_MIX, EFF_NMODES };

struct Fault { u8 kind; u32 nth; u32 mode; u64 arg; };

enum OpKind {
	// map ops
	OP_WRITE, OP_TRIM, OP_COPY, OP_COPYPAGE, OP_READ, OP_FIND, OP_GC, OP_SYNC,
	OP_CLEAR, OP_RESTART, OP_CRASH, OP_CHECK, OP_ROT, OP_FLIP, OP_GCALL,
	// journal ops
	OP_ENQ, OP_ENQNULL, OP_REQ, OP_DEQ, OP_META, OP_COOKIE, OP_JCLEAR,
	OP_FILL, OP_JSYNC, OP_JRESTART, OP_JCRASH,
	// ecc ops
	OP_PUT, OP_BITS, OP_GET, OP_SCRUB, OP_ERASEDCHK, OP_BURST,
	OP_NKINDS
};
extern const char *const op_names[];

enum { FL_NULLERR = 1, FL_VERIFY = 2 };
static const u32 NTH_ALL = 0xffffffffu;	// fault applies to every operation of the call

struct Op { u8 kind; u8 flags; u32 a, b; u64 v; std::vector<Fault> faults; };

struct Bomb { u32 block; u32 ttl; u32 mode; };	// block fails at its ttl-th prog/erase

enum Scenario {
	SC_PLAIN, SC_FAIL, SC_CRASH, SC_CRASHFAIL, SC_RDERR, SC_ROT, SC_FULL, SC_BIG,
	SC_EPOCH, SC_STACK, SC_GC, SC_WEAR, SC_CHAOS, SC_EOL, SC_HUGE, SC_SCARRED,
	SC_JPLAIN, SC_JFAIL, SC_JCRASH, SC_JCRASHFAIL,
	SC_BCH, SC_HAM, SC_CRC, SC_BCHV,
	SC_TWIN, SC_PAIR, SC_UPGRADE, SC_N	// built on one of the others
};
extern const char *const sc_names[];

struct Plan {
	u32 scenario = 0;
	u64 seed = 0;
	u32 lp = 9, lb = 3, nb = 20, gc = 4;
	u32 imprecise = 0;	// is_free() is an all-0xff content test
	u32 init = 0;		// initial flash: 0 erased, 1 readable garbage, 2 unreadable, 3 mixed
	u32 badread = 0;	// factory-bad blocks: 0 unreadable, 1 garbage
	u32 ecc = 0;		// 0 ideal media; 1 hamming; 2..5 bch 1..4 bit: real ecc/ code in the driver
	u32 chunk = 0;		// ecc chunk size
	u32 ns = 32;		// logical sectors in play
	u32 secmode = 0;	// how slots map to 32-bit sector numbers
	u32 maxfail = 4;	// never more than this many block failures
	u32 killbad = 0;	// nothing can be read from a block any more once it is marked bad
	u32 rdbuf = 0;		// a failed read leaves in the buffer: 0 junk, 1 what was there, 2 the data uncorrected
	u32 tearcp = 0;		// power cuts may tear checkpoint pages
	u32 huge = 0, headblk = 0, epoch = 0;	// only touched blocks are stored; the journal starts in block headblk (2: an older pass lies ahead of it)
	u32 twin = 0;		// run twice, with other garbage in RAM
	u32 pairlen = 0, pairsc = 0; u64 pairseed = 0;	// second device used at the same time: first pairlen operations of that plan
	u32 upgrade = 0;	// restarts alternate between released and current firmware
	std::vector<u32> bad;
	std::vector<Bomb> bombs;
	std::vector<Op> ops;
	std::string text() const;
	bool parse(const std::string &s, std::string &err);
};

// ---------------------------------------------------------------- results
struct Violation { std::string kind; int op; std::string msg; };

enum StatId {
	ST_RUNS, ST_OPS, ST_NANDOPS, ST_READS, ST_PROGS, ST_ERASES, ST_MARKS,
	ST_CUT_NONE, ST_CUT_FULL, ST_CUT_TORN, ST_CUT_MIX, ST_CUT_IDLE,
	ST_CUT_ON_PROG, ST_CUT_ON_CP, ST_CUT_ON_ERASE, ST_CUT_ON_MARK, ST_CUT_IN_RECOVERY,
	ST_SHADOW, ST_SHADOW_CONT, ST_SHADOW_IN_RECOVERY,
	ST_FAIL_PROG, ST_FAIL_CP, ST_FAIL_ERASE, ST_FAIL_COPY, ST_FAIL_IN_RECOVERY,
	ST_RDERR, ST_RDERR_META, ST_RDERR_IN_RECOVERY, ST_ROT, ST_FLIPS, ST_FLIPPED_READS, ST_UNCORR,
	ST_RECOVERIES, ST_RESUMES, ST_RESTARTS, ST_SYNCS, ST_MAPFULL, ST_GCSTEPS,
	ST_EPOCH_WRAPS, ST_MAX_EPOCHS, ST_WRITES, ST_TRIMS, ST_COPIES, ST_CLEARS, ST_READS_CHECKED, ST_SWEEPS,
	ST_CRASH_ROLLBACK, ST_CRASH_NOLOSS, ST_OP_ERRORS_EXPECTED, ST_MAX_READS_OP, ST_MAX_RESUME_READS,
	ST_ECC_CASES, ST_ECC_FIXED, ST_ECC_DETECTED, ST_JENQ, ST_JDEQ, ST_JFULL, ST_KNOWN, ST_TRIM_EMPTY_FAIL,
	ST_ABANDONED, ST_MAX_LOST, ST_SWITCHES, ST_PC_SWITCHES,
	ST_N
};
extern const char *const stat_names[];
static inline bool stat_is_max(int i) { return i == ST_MAX_READS_OP || i == ST_MAX_RESUME_READS || i == ST_MAX_EPOCHS || i == ST_MAX_LOST; }

struct Stats {
	u64 v[ST_N];
	Stats() { memset(v, 0, sizeof v); }
	void add(const Stats &o) { for (int i = 0; i < ST_N; i++) { if (stat_is_max(i)) { if (o.v[i] > v[i]) v[i] = o.v[i]; } else v[i] += o.v[i]; } }
};

struct Result {
	std::vector<Violation> viol;
	std::vector<Violation> known;	// matched a listed known finding
	u64 hash = 0;
	u32 variant = 0;		// which of two twins this is
	std::vector<u64> trace;		// behaviour after each operation
	Stats st;
	const std::vector<std::string> *stop_kinds = nullptr;	// end the run at one of these
	bool fatal() const { if (viol.size() >= 12) return true; for (auto &v : viol) { if (!stop_kinds) return true; for (auto &k : *stop_kinds) if (v.kind == k) return true; } return false; }
	bool has(const std::string &kind) const { for (auto &v : viol) if (v.kind == kind) return true; return false; }
};

// coverage bitmap of abstract states (owned by the driver)
extern u8 *g_cov; extern u32 g_covbits;
static inline void cover(u64 h) { if (g_cov) { u32 b = (u32)(mix64(h) & (g_covbits - 1)); g_cov[b >> 3] |= (u8)(1u << (b & 7)); } }

// known findings enabled (by id)
extern std::vector<std::string> g_known;
bool known_enabled(const char *id);
extern int g_trace;

struct PowerCut {};
struct Stop {};

void exec_map(const Plan &p, Result &r);
void exec_journal(const Plan &p, Result &r);
void exec_ecc(const Plan &p, Result &r);
void exec_plan(const Plan &p, Result &r);
void gen_plan(int scenario, u64 seed, Plan &p, bool deep);
