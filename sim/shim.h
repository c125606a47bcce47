/* C shim between the simulator (C++) and the dhara sources (C).
 *
 * Only this file and shim.c see dhara's headers, and they use nothing but the
 * documented API (map.h, journal.h, nand.h, error.h, ecc/ *.h).
 */
#ifndef SHIM_H_
#define SHIM_H_
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

/* Error classes (independent of the numeric values used by dhara) */
enum {
	EC_NONE = 0, EC_BAD_BLOCK, EC_ECC, EC_TOO_BAD, EC_RECOVER,
	EC_JFULL, EC_NOT_FOUND, EC_MAP_FULL, EC_CORRUPT, EC_UNSET, EC_OTHER
};
#define PAGE_NONE 0xffffffffu
#define META_SIZE sh_meta_size()

/* ---- NAND ---- */
typedef struct sh_nand sh_nand;
sh_nand *sh_nand_new(void *ctx, int log2_page, int log2_ppb, unsigned nb);
void sh_nand_free(sh_nand *n);

/* implemented by the simulator; return EC_* (0 = ok) */
int simnand_is_bad(void *ctx, uint32_t b);
void simnand_mark_bad(void *ctx, uint32_t b);
int simnand_erase(void *ctx, uint32_t b);
int simnand_prog(void *ctx, uint32_t p, const uint8_t *data);
int simnand_is_free(void *ctx, uint32_t p);
int simnand_read(void *ctx, uint32_t p, size_t off, size_t len, uint8_t *data);
int simnand_copy(void *ctx, uint32_t src, uint32_t dst);

/* ---- map ---- (err may be NULL; otherwise receives EC_*) */
size_t sh_map_mem(void);
void sh_map_init(void *m, sh_nand *n, uint8_t *buf, uint8_t gc);
int sh_map_resume(void *m, int *err);
void sh_map_clear(void *m);
uint32_t sh_map_capacity(void *m);
uint32_t sh_map_size(void *m);
int sh_map_find(void *m, uint32_t s, uint32_t *loc, int *err);
int sh_map_read(void *m, uint32_t s, uint8_t *d, int *err);
int sh_map_write(void *m, uint32_t s, const uint8_t *d, int *err);
int sh_map_copy_page(void *m, uint32_t p, uint32_t s, int *err);
int sh_map_copy_sector(void *m, uint32_t a, uint32_t b, int *err);
int sh_map_trim(void *m, uint32_t s, int *err);
int sh_map_sync(void *m, int *err);
int sh_map_gc(void *m, int *err);
int sh_map_in_recovery(void *m);
int sh_map_is_clean(void *m);
uint32_t sh_map_jsize(void *m);
uint32_t sh_map_root(void *m);

/* ---- journal ---- */
size_t sh_jnl_mem(void);
void sh_jnl_init(void *j, sh_nand *n, uint8_t *buf);
int sh_jnl_resume(void *j, int *err);
uint32_t sh_jnl_capacity(void *j);
uint32_t sh_jnl_size(void *j);
uint8_t *sh_jnl_cookie(void *j);
uint32_t sh_jnl_root(void *j);
int sh_jnl_read_meta(void *j, uint32_t p, uint8_t *buf, int *err);
uint32_t sh_jnl_peek(void *j);
void sh_jnl_dequeue(void *j);
void sh_jnl_clear(void *j);
int sh_jnl_enqueue(void *j, const uint8_t *d, const uint8_t *meta, int *err);
int sh_jnl_copy(void *j, uint32_t p, const uint8_t *meta, int *err);
int sh_jnl_is_clean(void *j);
int sh_jnl_in_recovery(void *j);
uint32_t sh_jnl_next_recoverable(void *j);
int sh_meta_size(void);
int sh_cookie_size(void);
int sh_max_retries(void);

/* ---- ecc ---- variant 0: table build, 1: GF13_NO_TABLES build */
int sh_bch_ecc_bytes(int bits);
int sh_bch_ecc_bits(int bits);
void sh_bch_generate(int variant, int bits, const uint8_t *c, size_t n, uint8_t *ecc);
int sh_bch_verify(int variant, int bits, const uint8_t *c, size_t n, const uint8_t *ecc);
void sh_bch_repair(int variant, int bits, uint8_t *c, size_t n, uint8_t *ecc);
int sh_bch_max_chunk(void);
void sh_ham_generate(const uint8_t *c, size_t n, uint8_t *ecc);
uint32_t sh_ham_syndrome(const uint8_t *c, size_t n, const uint8_t *ecc);
int sh_ham_repair(uint8_t *c, size_t n, uint32_t syn);
int sh_ham_max_chunk(void);
uint32_t sh_crc(const uint8_t *c, size_t n, uint32_t carry);
uint32_t sh_crc_init(void);
const char *sh_strerror(int ec);

#ifdef __cplusplus
}
#endif
#endif
