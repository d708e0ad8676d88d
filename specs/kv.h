/* Specification vocabulary.  The same text is interpreted by the verifier (kvc)
 * and, for replay of counterexamples, compiled natively against rt.c. */
#ifndef KV_H
#define KV_H
#include <stddef.h>
#include <stdint.h>

int kv_on(const char *props);
int kv_param(int k);
void kv_assume(int c);
void kv_assert(int c, const char *label, const char *props);
void kv_requires_(int c, const char *label, const char *props);
void kv_ensures_(int c, const char *label, const char *props);
void kv_assigns(const void *p, size_t n);
void kv_assigns_any(void);
void kv_assigns_col(const void *p, size_t n);
void kv_flat(const void *p);
int kv_replacing(void);
uint8_t kv_u8(const char *l);
uint16_t kv_u16(const char *l);
uint32_t kv_u32(const char *l);
uint64_t kv_u64(const char *l);
int kv_int(const char *l);
long kv_long(const char *l);
int kv_bool(const char *l);
void kv_havoc(void *p, size_t n);
int kv_forall(size_t n, int (*pred)(size_t i, void *ctx), void *ctx);
void *kv_old_(const void *p);
void kv_symptr(void *cell, const void *base, size_t n, int nullable, const char *label);
void kv_cover(const char *label);
void kv_hint(int c);
void kv_stop(void);
void kv_unreachable(const char *label);
uint64_t kv_uf(const char *name, ...);
int kv_concrete(void);
int kv_verifying(void);
size_t kv_size_left(const void *p);
uint64_t kv_index(const void *p, int k);
void kv_snap(void);

#define KV_OLD(lv) (*(__typeof__(&(lv)))kv_old_(&(lv)))
/* contract clauses: P is the list of properties the clause belongs to ("*" = all) */
#define REQ(P, c, l) do { if (kv_on(P)) kv_requires_((c), l, P); } while (0)
#define ENS(P, c, l) do { if (kv_on(P)) kv_ensures_((c), l, P); } while (0)
/* postcondition that defines the new value of an assigned object: checked when the contract is enforced,
 * written when it replaces a call (the same as assuming it about the havoced object) */
#define DEF(P, lv, e, l) do { if (kv_on(P)) { __typeof__(lv) v_ = (e); \
	if (kv_replacing()) (lv) = v_; else kv_ensures_((lv) == v_, l, P); } } while (0)
#define IMP(a, b) (!(a) | (b))
#endif
