// A map or journal instance of either firmware: the sources under test, or
// the frozen released ones in sim/ref (same shim, symbols prefixed ref_).
#pragma once
#include "nand.h"
extern "C" {
#define DUAL(ret, name, args) ret name args; ret ref_##name args;
DUAL(size_t, sh_map_mem, (void)) DUAL(size_t, sh_jnl_mem, (void))
sh_nand *ref_sh_nand_new(void *ctx, int log2_page, int log2_ppb, unsigned nb); void ref_sh_nand_free(sh_nand *n);
int ref_sh_meta_size(void); int ref_sh_cookie_size(void);
void ref_sh_bch_generate(int variant, int bits, const uint8_t *c, size_t n, uint8_t *ecc);
int ref_sh_bch_ecc_bytes(int bits);
void ref_sh_ham_generate(const uint8_t *c, size_t n, uint8_t *ecc);
uint32_t ref_sh_crc(const uint8_t *c, size_t n, uint32_t carry);
}
struct Handle { bool ref; void *mem; };
#define FW(pre, ret, name, args, call) \
	extern "C" ret ref_sh_##pre##_##name args; \
	namespace fw { inline ret pre##_##name args { Handle *h_ = (Handle *)m; m = h_->mem; return h_->ref ? ref_sh_##pre##_##name call : sh_##pre##_##name call; } }
#define VP void *m
FW(map, int, resume, (VP, int *err), (m, err))
FW(map, void, clear, (VP), (m))
FW(map, uint32_t, capacity, (VP), (m))
FW(map, uint32_t, size, (VP), (m))
FW(map, int, find, (VP, uint32_t s, uint32_t *loc, int *err), (m, s, loc, err))
FW(map, int, read, (VP, uint32_t s, uint8_t *d, int *err), (m, s, d, err))
FW(map, int, write, (VP, uint32_t s, const uint8_t *d, int *err), (m, s, d, err))
FW(map, int, copy_page, (VP, uint32_t p, uint32_t s, int *err), (m, p, s, err))
FW(map, int, copy_sector, (VP, uint32_t a, uint32_t b, int *err), (m, a, b, err))
FW(map, int, trim, (VP, uint32_t s, int *err), (m, s, err))
FW(map, int, sync, (VP, int *err), (m, err))
FW(map, int, gc, (VP, int *err), (m, err))
FW(map, int, in_recovery, (VP), (m))
FW(map, int, is_clean, (VP), (m))
FW(map, uint32_t, jsize, (VP), (m))
FW(map, uint32_t, root, (VP), (m))
FW(jnl, int, resume, (VP, int *err), (m, err))
FW(jnl, uint32_t, capacity, (VP), (m))
FW(jnl, uint32_t, size, (VP), (m))
FW(jnl, uint8_t *, cookie, (VP), (m))
FW(jnl, uint32_t, root, (VP), (m))
FW(jnl, int, read_meta, (VP, uint32_t p, uint8_t *buf, int *err), (m, p, buf, err))
FW(jnl, uint32_t, peek, (VP), (m))
FW(jnl, void, dequeue, (VP), (m))
FW(jnl, void, clear, (VP), (m))
FW(jnl, int, enqueue, (VP, const uint8_t *d, const uint8_t *meta, int *err), (m, d, meta, err))
FW(jnl, int, copy, (VP, uint32_t p, const uint8_t *meta, int *err), (m, p, meta, err))
FW(jnl, int, is_clean, (VP), (m))
FW(jnl, int, in_recovery, (VP), (m))
FW(jnl, uint32_t, next_recoverable, (VP), (m))
// Bad blocks the head has certainly met in one whole pass over the chip.
struct BadMet {
	u32 last = 0, sure = 0;		// bad ones when the present pass began; met in the last one
	void pass(const SimNand &n) { if (last != ~0u) sure = last; last = 0; for (auto &b : n.blk) last += b.bad; }
	void forget() { last = ~0u; sure = 0; }
};
extern "C" void ref_sh_map_teleport(void *m, uint32_t page, uint32_t epoch);
extern "C" uint32_t ref_sh_map_capacity_bad(void *m, uint32_t bad);
extern "C" uint32_t ref_sh_jnl_capacity_bad(void *m, uint32_t bad);
extern "C" void ref_sh_map_init(void *m, sh_nand *n, uint8_t *buf, uint8_t gc);
extern "C" void ref_sh_jnl_init(void *j, sh_nand *n, uint8_t *buf);

// Freshly powered RAM: the state structure and page buffer of one instance,
// filled with arbitrary bytes.
struct FwRam {
	Handle h; void *m; u8 *buf; size_t len;
	FwRam(u32 psize, u64 poison, bool map, bool ref)
	{
		h.ref = ref; m = &h;
		len = map ? (ref ? ref_sh_map_mem() : sh_map_mem()) : (ref ? ref_sh_jnl_mem() : sh_jnl_mem());
		h.mem = malloc(len); buf = (u8 *)malloc(psize);
		Rng g(poison);
		for (size_t i = 0; i < len; i++) ((u8 *)h.mem)[i] = (u8)g.next();
		for (u32 i = 0; i < psize; i++) buf[i] = (u8)g.next();
	}
	~FwRam() { free(h.mem); free(buf); }
	FwRam(const FwRam &) = delete;
	void map_init(SimNand &n, u8 gc) { if (h.ref) ref_sh_map_init(h.mem, n.cn_ref, buf, gc); else sh_map_init(h.mem, n.cn, buf, gc); }
	void jnl_init(SimNand &n) { if (h.ref) ref_sh_jnl_init(h.mem, n.cn_ref, buf); else sh_jnl_init(h.mem, n.cn, buf); }
};
