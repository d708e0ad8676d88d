#include "keyd.h"
#include "kvn.h"
#include "string.c"
#include "unicode.c"
#define NT (sizeof unicode_table / sizeof unicode_table[0])
static int digit(uint8_t c)
{
	static const uint8_t d[] = { KEYD_0, KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5, KEYD_6, KEYD_7, KEYD_8, KEYD_9, KEYD_A, KEYD_B, KEYD_C, KEYD_D, KEYD_E, KEYD_F, KEYD_G, KEYD_H,
		KEYD_I, KEYD_J, KEYD_K, KEYD_L, KEYD_M, KEYD_N, KEYD_O, KEYD_P, KEYD_Q, KEYD_R, KEYD_S, KEYD_T, KEYD_U, KEYD_V, KEYD_W, KEYD_X, KEYD_Y, KEYD_Z };
	int i;
	for (i = 0; i < 36; i++)
		if (d[i] == c) return i;
	return -100000;
}
static void once(void)
{
	int k = below(4), n, r, i;
	uint32_t cp = below(5) == 0 ? 1 + below(127) : below(3) == 0 ? 128 + below(0x1000) : below(2) ? 1 + below(0xffff) : 1 + below(0x10ffff), code = 0xdead;
	unsigned char b[8];
	uint8_t sq[4];
	if (k == 0) {
		for (i = 0; i < 8; i++) b[i] = below(2) ? rnd() : "\xc0\x80\xe0\xf0\xbf\xff\xf8\xc3"[below(8)];
		n = below(6);
		b[n] = 0;
		for (i = 0; i < n; i++) { if (!b[i]) b[i] = 0xe5; note("%02x ", b[i]); }
		{ char *h = strdup((char *)b); r = utf8_read_char(h, &code); free(h); }
		if ((r == 0) != (n == 0) || r < 0 || r > n) violates("U01", "decoding does not stay within the text");
		if (r == 1 && b[0] < 0x80 && code != b[0]) violates("U01", "a plain character is decoded wrongly");
		if (r == 1 && b[0] >= 0x80 && code < 0x80) violates("U01", "a malformed byte stands for a character");
		return;
	}
	note("character %x", cp);
	if (cp < 0x80) n = 1, b[0] = cp;
	else if (cp < 0x800) n = 2, b[0] = 0xc0 | cp >> 6, b[1] = 0x80 | (cp & 63);
	else if (cp < 0x10000) n = 3, b[0] = 0xe0 | cp >> 12, b[1] = 0x80 | ((cp >> 6) & 63), b[2] = 0x80 | (cp & 63);
	else n = 4, b[0] = 0xf0 | cp >> 18, b[1] = 0x80 | ((cp >> 12) & 63), b[2] = 0x80 | ((cp >> 6) & 63), b[3] = 0x80 | (cp & 63);
	b[n] = below(2) ? 0 : rnd(); b[n + 1] = rnd(); b[n + 2] = rnd(); b[7] = 0;
	r = utf8_read_char((char *)b, &code);
	if (r != n || code != cp) violates("U01", "a character is decoded wrongly");
	r = unicode_lookup_index(cp);
	if (r >= (int)NT || r < -1 || (r >= 0 && unicode_table[r] != cp)) violates("U01", "the wrong index");
	i = below(8) == 0 ? below(2) ? 0 : NT - 1 : below(NT);
	note(" index %d", i);
	r = unicode_lookup_index(unicode_table[i]);
	if (r < 0 || unicode_table[r] != unicode_table[i]) violates("U01", "a character of the table is not found");
	unicode_get_sequence(i, sq);
	if (sq[0] != KEYD_CANCEL || (digit(sq[1]) * 36 + digit(sq[2])) * 36 + digit(sq[3]) != i) violates("U01", "the sequence is not the index in base 36");
}
int main(int c, char **v) { return kvn_main(c, v, once); }
