/* U01: UTF-8 decoding and the unicode sequences (string.c, unicode.c) */
#include "keyd.h"
#include "kv.h"
#include "string.c"
#include "unicode.c"

#define ASRT(P, c, l) do { if (kv_on(P)) kv_assert(c, l, P); } while (0)

uint8_t kvg_b[8];
uint32_t kvg_cp;

/* every well formed character is decoded to its code point and length, whatever follows it */
void kvt_decode(void)
{
	uint32_t code = kv_u32("code"), cp = kvg_cp;
	int r, n;
	kv_assume((cp != 0) & (cp <= 0x10FFFF));
	kvg_b[7] = 0;
	if (cp < 0x80) {
		n = 1;
		kvg_b[0] = cp;
	} else if (cp < 0x800) {
		n = 2;
		kvg_b[0] = 0xC0 + (cp >> 6);
		kvg_b[1] = 0x80 + (cp & 0x3F);
	} else if (cp < 0x10000) {
		n = 3;
		kvg_b[0] = 0xE0 + (cp >> 12);
		kvg_b[1] = 0x80 + ((cp >> 6) & 0x3F);
		kvg_b[2] = 0x80 + (cp & 0x3F);
	} else {
		n = 4;
		kvg_b[0] = 0xF0 + (cp >> 18);
		kvg_b[1] = 0x80 + ((cp >> 12) & 0x3F);
		kvg_b[2] = 0x80 + ((cp >> 6) & 0x3F);
		kvg_b[3] = 0x80 + (cp & 0x3F);
	}
	r = utf8_read_char((const char *)kvg_b, &code);
	ASRT("U01 D04", r == n, "its length");
	ASRT("U01 D04", code == cp, "its code point");
	kv_cover("end");
}

static int kvs_nonul(size_t i, void *c) { return (i >= *(size_t *)c) | (kvg_b[i] != 0); }
/* whatever the bytes are, decoding stays within the string and makes progress */
void kvt_any(void)
{
	uint32_t code = kv_u32("code");
	size_t nul = kv_u64("nul"), k = kv_u64("k");
	int r;
	kv_assume((nul < sizeof kvg_b) & (kvg_b[nul & 7] == 0));
	kv_assume(kv_forall(8, kvs_nonul, &nul));
	r = utf8_read_char((const char *)kvg_b, &code);
	ASRT("U01 D04", (r == 0) == (nul == 0), "only the end ends");
	ASRT("U01 D04", (r >= 0) & ((size_t)r <= nul), "within the string");
	ASRT("U01 D04", IMP((r == 1) & (kvg_b[0] < 0x80), code == kvg_b[0]), "a plain character stands for itself");
	ASRT("U01 D04", IMP((r != 0) & (code < 0x80) & (r == 1), kvg_b[0] < 0x80), "a malformed byte stands for no character");
	kv_cover("end");
}

#define NTAB (sizeof(unicode_table) / sizeof(unicode_table[0]))
size_t kvg_k;	/* any index */
static int kvinv_unicode_lookup_index_i(size_t *v64__i) { return (*v64__i <= NTAB) & ((kvg_k >= *v64__i) | (unicode_table[kvg_k < NTAB ? kvg_k : 0] != kvg_cp)); }
void kvt_lookup(void)
{
	int r;
	kv_assume(kvg_k < NTAB);
	r = unicode_lookup_index(kvg_cp);
	ASRT("U01", (r >= -1) & (r < (int)NTAB), "an index or none");
	ASRT("U01", IMP(r >= 0, unicode_table[r >= 0 ? r : 0] == kvg_cp), "the index of the character");
	ASRT("U01", IMP(r == -1, unicode_table[kvg_k] != kvg_cp), "none only if there is none");
	kv_cover("end");
}

/* different characters have different sequences, none the beginning of another */
static int kvs_digit(uint8_t c)
{
	switch (c) {
	case KEYD_0: return 0; case KEYD_1: return 1; case KEYD_2: return 2; case KEYD_3: return 3; case KEYD_4: return 4;
	case KEYD_5: return 5; case KEYD_6: return 6; case KEYD_7: return 7; case KEYD_8: return 8; case KEYD_9: return 9;
	case KEYD_A: return 10; case KEYD_B: return 11; case KEYD_C: return 12; case KEYD_D: return 13; case KEYD_E: return 14;
	case KEYD_F: return 15; case KEYD_G: return 16; case KEYD_H: return 17; case KEYD_I: return 18; case KEYD_J: return 19;
	case KEYD_K: return 20; case KEYD_L: return 21; case KEYD_M: return 22; case KEYD_N: return 23; case KEYD_O: return 24;
	case KEYD_P: return 25; case KEYD_Q: return 26; case KEYD_R: return 27; case KEYD_S: return 28; case KEYD_T: return 29;
	case KEYD_U: return 30; case KEYD_V: return 31; case KEYD_W: return 32; case KEYD_X: return 33; case KEYD_Y: return 34;
	case KEYD_Z: return 35;
	}
	return -1;
}
uint8_t kvg_codes[4];
void kvt_sequence(void)
{
	int idx = kv_int("idx");
	int a, b, c;
	kv_assume((idx >= 0) & (idx < (int)NTAB));
	ASRT("U01", NTAB <= 36 * 36 * 36, "three digits are enough");
	unicode_get_sequence(idx, kvg_codes);
	a = kvs_digit(kvg_codes[1]), b = kvs_digit(kvg_codes[2]), c = kvs_digit(kvg_codes[3]);
	ASRT("U01", kvg_codes[0] == KEYD_CANCEL, "the compose key comes first");
	ASRT("U01", (a >= 0) & (b >= 0) & (c >= 0), "three digits follow");
	ASRT("U01", (a * 36 + b) * 36 + c == idx, "which are the index in base 36");
	kv_cover("end");
}
