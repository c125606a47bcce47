#include <stdlib.h>
#include <string.h>
#include "shim.h"
#include "dhara/map.h"
#include "dhara/journal.h"
#include "dhara/nand.h"
#include "dhara/error.h"
#include "ecc/bch.h"
#include "ecc/hamming.h"
#include "ecc/crc32.h"

struct sh_nand {
	struct dhara_nand n;
	void *ctx;
};

sh_nand *sh_nand_new(void *ctx, int log2_page, int log2_ppb, unsigned nb)
{
	sh_nand *s = calloc(1, sizeof(*s));
	s->n.log2_page_size = log2_page;
	s->n.log2_ppb = log2_ppb;
	s->n.num_blocks = nb;
	s->ctx = ctx;
	return s;
}

void sh_nand_free(sh_nand *n) { free(n); }

static void *ctx_of(const struct dhara_nand *n)
{
	return ((const sh_nand *)n)->ctx;
}

static dhara_error_t to_dhara(int ec)
{
	switch (ec) {
	case EC_NONE: return DHARA_E_NONE;
	case EC_BAD_BLOCK: return DHARA_E_BAD_BLOCK;
	default: return DHARA_E_ECC;
	}
}

#define UNSET ((dhara_error_t)77)

static int to_ec(dhara_error_t e)
{
	switch ((int)e) {
	case DHARA_E_NONE: return EC_NONE;
	case DHARA_E_BAD_BLOCK: return EC_BAD_BLOCK;
	case DHARA_E_ECC: return EC_ECC;
	case DHARA_E_TOO_BAD: return EC_TOO_BAD;
	case DHARA_E_RECOVER: return EC_RECOVER;
	case DHARA_E_JOURNAL_FULL: return EC_JFULL;
	case DHARA_E_NOT_FOUND: return EC_NOT_FOUND;
	case DHARA_E_MAP_FULL: return EC_MAP_FULL;
	case DHARA_E_CORRUPT_MAP: return EC_CORRUPT;
	case 77: return EC_UNSET;
	}
	return EC_OTHER;
}

static int fin(int ec, dhara_error_t *err)
{
	if (!ec)
		return 0;
	dhara_set_error(err, to_dhara(ec));
	return -1;
}

int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{ return simnand_is_bad(ctx_of(n), b); }
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{ simnand_mark_bad(ctx_of(n), b); }
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{ return fin(simnand_erase(ctx_of(n), b), err); }
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err)
{ return fin(simnand_prog(ctx_of(n), p, data), err); }
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{ return simnand_is_free(ctx_of(n), p); }
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *data, dhara_error_t *err)
{ return fin(simnand_read(ctx_of(n), p, off, len, data), err); }
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t src, dhara_page_t dst, dhara_error_t *err)
{ return fin(simnand_copy(ctx_of(n), src, dst), err); }

/* ---- map ---- */
#define M(x) ((struct dhara_map *)(x))
#define WRAP(expr) \
	dhara_error_t e = UNSET, *ep = err ? &e : NULL; \
	int rc = (expr); \
	if (err) *err = to_ec(e); \
	return rc

size_t sh_map_mem(void) { return sizeof(struct dhara_map); }
void sh_map_init(void *m, sh_nand *n, uint8_t *buf, uint8_t gc)
{ dhara_map_init(M(m), &n->n, buf, gc); }
int sh_map_resume(void *m, int *err) { WRAP(dhara_map_resume(M(m), ep)); }
void sh_map_clear(void *m) { dhara_map_clear(M(m)); }
uint32_t sh_map_capacity(void *m) { return dhara_map_capacity(M(m)); }
uint32_t sh_map_size(void *m) { return dhara_map_size(M(m)); }
int sh_map_find(void *m, uint32_t s, uint32_t *loc, int *err) { WRAP(dhara_map_find(M(m), s, loc, ep)); }
int sh_map_read(void *m, uint32_t s, uint8_t *d, int *err) { WRAP(dhara_map_read(M(m), s, d, ep)); }
int sh_map_write(void *m, uint32_t s, const uint8_t *d, int *err) { WRAP(dhara_map_write(M(m), s, d, ep)); }
int sh_map_copy_page(void *m, uint32_t p, uint32_t s, int *err) { WRAP(dhara_map_copy_page(M(m), p, s, ep)); }
int sh_map_copy_sector(void *m, uint32_t a, uint32_t b, int *err) { WRAP(dhara_map_copy_sector(M(m), a, b, ep)); }
int sh_map_trim(void *m, uint32_t s, int *err) { WRAP(dhara_map_trim(M(m), s, ep)); }
int sh_map_sync(void *m, int *err) { WRAP(dhara_map_sync(M(m), ep)); }
int sh_map_gc(void *m, int *err) { WRAP(dhara_map_gc(M(m), ep)); }
int sh_map_in_recovery(void *m) { return !!dhara_journal_in_recovery(&M(m)->journal); }
int sh_map_is_clean(void *m) { return !!dhara_journal_is_clean(&M(m)->journal); }
uint32_t sh_map_jsize(void *m) { return dhara_journal_size(&M(m)->journal); }
uint32_t sh_map_root(void *m) { return dhara_journal_root(&M(m)->journal); }

#ifdef NO_VARIANT
/* Frozen build only: continue as if the journal had been filled and emptied
 * up to this page. */
void sh_map_teleport(void *m, uint32_t page, uint32_t epoch)
{
	struct dhara_journal *j = &M(m)->journal;

	j->head = j->tail = j->tail_sync = page;
	j->epoch = epoch;
	j->bb_current = j->bb_last = 0;
}

/* Frozen build only: the capacity of a chip on which so many bad blocks were
 * met.
 */
uint32_t sh_map_capacity_bad(void *m, uint32_t bad)
{
	M(m)->journal.bb_last = bad;
	M(m)->journal.bb_current = 0;
	return dhara_map_capacity(M(m));
}

uint32_t sh_jnl_capacity_bad(void *m, uint32_t bad)
{
	M(m)->journal.bb_last = bad;
	M(m)->journal.bb_current = 0;
	return dhara_journal_capacity(&M(m)->journal);
}
#endif

/* ---- journal ---- */
#define J(x) ((struct dhara_journal *)(x))
size_t sh_jnl_mem(void) { return sizeof(struct dhara_journal); }
void sh_jnl_init(void *j, sh_nand *n, uint8_t *buf) { dhara_journal_init(J(j), &n->n, buf); }
int sh_jnl_resume(void *j, int *err) { WRAP(dhara_journal_resume(J(j), ep)); }
uint32_t sh_jnl_capacity(void *j) { return dhara_journal_capacity(J(j)); }
uint32_t sh_jnl_size(void *j) { return dhara_journal_size(J(j)); }
uint8_t *sh_jnl_cookie(void *j) { return dhara_journal_cookie(J(j)); }
uint32_t sh_jnl_root(void *j) { return dhara_journal_root(J(j)); }
int sh_jnl_read_meta(void *j, uint32_t p, uint8_t *buf, int *err) { WRAP(dhara_journal_read_meta(J(j), p, buf, ep)); }
uint32_t sh_jnl_peek(void *j) { return dhara_journal_peek(J(j)); }
void sh_jnl_dequeue(void *j) { dhara_journal_dequeue(J(j)); }
void sh_jnl_clear(void *j) { dhara_journal_clear(J(j)); }
int sh_jnl_enqueue(void *j, const uint8_t *d, const uint8_t *meta, int *err) { WRAP(dhara_journal_enqueue(J(j), d, meta, ep)); }
int sh_jnl_copy(void *j, uint32_t p, const uint8_t *meta, int *err) { WRAP(dhara_journal_copy(J(j), p, meta, ep)); }
int sh_jnl_is_clean(void *j) { return !!dhara_journal_is_clean(J(j)); }
int sh_jnl_in_recovery(void *j) { return !!dhara_journal_in_recovery(J(j)); }
uint32_t sh_jnl_next_recoverable(void *j) { return dhara_journal_next_recoverable(J(j)); }
int sh_meta_size(void) { return DHARA_META_SIZE; }
int sh_cookie_size(void) { return DHARA_COOKIE_SIZE; }
int sh_max_retries(void) { return DHARA_MAX_RETRIES; }

/* ---- ecc ---- */
#ifdef NO_VARIANT
#define nt_bch_1bit bch_1bit
#define nt_bch_2bit bch_2bit
#define nt_bch_3bit bch_3bit
#define nt_bch_4bit bch_4bit
#define nt_bch_generate bch_generate
#define nt_bch_verify bch_verify
#define nt_bch_repair bch_repair
#endif
extern const struct bch_def nt_bch_1bit, nt_bch_2bit, nt_bch_3bit, nt_bch_4bit;
void nt_bch_generate(const struct bch_def *, const uint8_t *, size_t, uint8_t *);
int nt_bch_verify(const struct bch_def *, const uint8_t *, size_t, const uint8_t *);
void nt_bch_repair(const struct bch_def *, uint8_t *, size_t, uint8_t *);

static const struct bch_def *def(int variant, int bits)
{
	static const struct bch_def *const d[2][4] = {
		{ &bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit },
		{ &nt_bch_1bit, &nt_bch_2bit, &nt_bch_3bit, &nt_bch_4bit }
	};
	return d[variant][bits - 1];
}

int sh_bch_ecc_bytes(int bits) { return def(0, bits)->ecc_bytes; }
int sh_bch_ecc_bits(int bits) { return def(0, bits)->degree; }
void sh_bch_generate(int variant, int bits, const uint8_t *c, size_t n, uint8_t *ecc)
{
	(variant ? nt_bch_generate : bch_generate)(def(variant, bits), c, n, ecc);
}
int sh_bch_verify(int variant, int bits, const uint8_t *c, size_t n, const uint8_t *ecc)
{
	return (variant ? nt_bch_verify : bch_verify)(def(variant, bits), c, n, ecc);
}
void sh_bch_repair(int variant, int bits, uint8_t *c, size_t n, uint8_t *ecc)
{
	(variant ? nt_bch_repair : bch_repair)(def(variant, bits), c, n, ecc);
}
int sh_bch_max_chunk(void) { return BCH_MAX_CHUNK_SIZE; }
void sh_ham_generate(const uint8_t *c, size_t n, uint8_t *ecc) { hamming_generate(c, n, ecc); }
uint32_t sh_ham_syndrome(const uint8_t *c, size_t n, const uint8_t *ecc) { return hamming_syndrome(c, n, ecc); }
int sh_ham_repair(uint8_t *c, size_t n, uint32_t syn) { return hamming_repair(c, n, syn); }
int sh_ham_max_chunk(void) { return HAMMING_MAX_CHUNK_SIZE; }
uint32_t sh_crc(const uint8_t *c, size_t n, uint32_t carry) { return crc32_nand(c, n, carry); }
uint32_t sh_crc_init(void) { return CRC32_INIT; }

const char *sh_strerror(int ec)
{
	static const char *const n[] = { "none", "bad-block", "ecc",
		"too-bad", "recover", "journal-full", "not-found", "map-full",
		"corrupt-map", "unset", "other" };
	return n[ec];
}
