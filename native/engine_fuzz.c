/* Searches for a concrete failing input of the engine: random configurations and event scripts through the real
 * config_parse / new_keyboard / kbd_process_events, judged by monitors written from the property statements.
 *
 *   engine_fuzz search SEED SECONDS DIR WANT   writes DIR/cfg and DIR/script before each run; exit 3 on a violation
 *   engine_fuzz replay CFG SCRIPT WANT         runs one script
 *
 * WANT is a comma separated list of monitors.  Script tokens: +key -key @ms !binding */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <malloc.h>
#include "keyd.h"

int fork(void) { return 1; }		/* no command is run */
int usleep(unsigned int us) { return 0; }	/* pauses inside macros take no time here */

static int down[256], lcount[MAX_LAYERS], verbose;
static const char *want;
static struct keyboard *K;
static char trace[1 << 16];
static size_t tl;

static void note(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (tl < sizeof trace - 200)
		tl += vsnprintf(trace + tl, 190, fmt, ap);
	va_end(ap);
}
static int wanted(const char *id) { return strstr(want, id) != NULL; }
static void bad(const char *id, const char *fmt, ...)
{
	va_list ap;
	if (!wanted(id))
		return;
	printf("VIOLATES %s: ", id);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\nlog: %s\n", trace);
	fflush(stdout);
	_exit(3);
}

static int watch, watched, mods_then;	/* the output key to watch, and the modifiers down when it went down */
static uint8_t down_mods(void);
static void out(uint8_t code, uint8_t st)
{
	if (st && watch && code == watch) {
		watched = 1;
		mods_then = down_mods();
	}
	note("%s%s ", st ? "+" : "-", KEY_NAME(code));
	down[code] = st != 0;
}
static void layer_change(const struct keyboard *kbd, const struct layer *l, uint8_t on)
{
	size_t i;
	for (i = 0; i < kbd->config.nr_layers; i++)
		if (&kbd->config.layers[i] == l)
			lcount[i] += on ? 1 : -1;
	note("[%s %s] ", on ? "on" : "off", l->name);
}

static uint8_t code_of(const char *s)
{
	size_t i;
	for (i = 0; i < 256; i++)
		if (keycode_table[i].name && (!strcmp(keycode_table[i].name, s) ||
			(keycode_table[i].alt_name && !strcmp(keycode_table[i].alt_name, s))))
			return i;
	return 0;
}

/* ---- oracle for key resolution (written from the documentation, not from the code) ---- */
static int oracle_lookup(struct keyboard *k, uint8_t code, struct descriptor *d)
{
	long best = -1;
	size_t i, j;
	int lay = -1, most = 0;
	for (i = 0; i < k->config.nr_layers; i++) {
		struct layer *l = &k->config.layers[i];
		if (k->layer_state[i].active && l->keymap[code].op && k->layer_state[i].activation_time >= best) {
			/* newest first; equal times are left to the engine: reported as -2 */
			if (k->layer_state[i].activation_time == best)
				return -2;
			best = k->layer_state[i].activation_time;
			lay = i;
		}
	}
	for (i = 0; i < k->config.nr_layers; i++) {
		struct layer *l = &k->config.layers[i];
		int all = l->type == LT_COMPOSITE;
		for (j = 0; all && j < l->nr_constituents; j++)
			if (!k->layer_state[l->constituents[j]].active)
				all = 0;
		if (all && l->keymap[code].op && (int)l->nr_constituents >= most) {
			if ((int)l->nr_constituents == most)
				return -2;
			most = l->nr_constituents;
			lay = i;
		}
	}
	if (lay >= 0)
		*d = k->config.layers[lay].keymap[code];
	return lay;
}
static struct cache_entry *cached(uint8_t code)
{
	size_t i;
	for (i = 0; i < CACHE_SIZE; i++)
		if (K->cache[i].code == code && code)
			return &K->cache[i];
	return NULL;
}

static uint8_t layer_mods(int excl)
{
	uint8_t m = 0;
	size_t i, j;
	for (i = 0; i < K->config.nr_layers; i++) {
		int skip = (int)i == excl;
		if (excl >= 0 && K->config.layers[excl].type == LT_COMPOSITE)
			for (j = 0; j < K->config.layers[excl].nr_constituents; j++)
				skip |= K->config.layers[excl].constituents[j] == (int)i;
		if (K->layer_state[i].active && !skip)
			m |= K->config.layers[i].mods;
	}
	return m;
}
static uint8_t down_mods(void)
{
	uint8_t m = 0;
	size_t i;
	for (i = 0; i < MAX_MOD; i++)
		if (down[modifiers[i].key])
			m |= modifiers[i].mask;
	return m;
}
static int is_mod(int code)
{
	size_t i;
	for (i = 0; i < MAX_MOD; i++)
		if (modifiers[i].key == code)
			return 1;
	return 0;
}

static int deferred_cfg;	/* pending or chord decisions are possible */

static int chord_while_pending;	/* known finding: see known-findings.txt */

static void check_step(void)
{
	int i;
	if (K->pending_key.code)
		for (i = 0; i < (int)(sizeof K->active_chords / sizeof *K->active_chords); i++)
			chord_while_pending |= K->active_chords[i].active;
	for (i = 0; i < 256; i++)
		if (!K->keystate[i] && down[i])
			bad("K02", "the device has %s down but the engine believes it is released", KEY_NAME(i));
	for (i = 0; i < (int)K->config.nr_layers; i++)
		if (lcount[i] != (int)K->layer_state[i].active - (K->config.layers[i].type == LT_LAYOUT || i == 0 ? 0 : 0))
			if (i && K->config.layers[i].type != LT_LAYOUT && lcount[i] != (int)K->layer_state[i].active)
				bad("K01", "layer %s: listeners saw a net %d activations, the engine counts %u", K->config.layers[i].name, lcount[i], K->layer_state[i].active);
}

static void check_wake(long now, long ret)
{
	long d[8];
	int n = 0, i;
	if (K->pending_key.code && K->pending_key.expire) d[n++] = K->pending_key.expire;
	if (K->pending_key.code && K->pending_key.tap_expiry) d[n++] = K->pending_key.tap_expiry;
	if (K->oneshot_timeout) d[n++] = K->oneshot_timeout;
	if (K->active_macro && K->macro_timeout) d[n++] = K->macro_timeout;
	for (i = 0; i < n; i++)
		if (d[i] > now && (ret <= 0 || now + ret > d[i]))
			bad("K10", "a deadline is due in %ld ms but the engine asks to be woken %s%ld ms", d[i] - now, ret ? "in " : "never: ", ret);
}

/* every key is up and every deadline has passed */
static void check_rest(void)
{
	size_t i;
	uint8_t m = layer_mods(-1);
	for (i = 1; i < K->config.nr_layers; i++) {
		uint32_t expect = (K->layer_state[i].toggled != 0) + K->layer_state[i].oneshot_depth;
		if (K->config.layers[i].type != LT_NORMAL)
			continue;
		if (K->layer_state[i].active != expect)
			bad("K01", "all keys are up, layer %s is activated %u times, but toggled/oneshot account for %u",
				K->config.layers[i].name, K->layer_state[i].active, expect);
	}
	for (i = 0; i < 256; i++)
		if (down[i] && !(is_mod(i) && (m & down_mods())))
			bad("K02", "all keys are up but %s is still down", KEY_NAME(i));
	for (i = 0; i < MAX_MOD; i++)
		if (down[modifiers[i].key] && !(m & modifiers[i].mask))
			bad("K02", "all keys are up, no active layer has the modifier, but %s is still down", KEY_NAME(modifiers[i].key));
	for (i = 0; i < CACHE_SIZE; i++)
		if (K->cache[i].code)
			bad("K05", "all keys are up but the press of %s is still on record", KEY_NAME(K->cache[i].code));
	if (K->pending_key.code)
		bad("K07", "all keys are up and all deadlines passed but %s is undecided", KEY_NAME(K->pending_key.code));
	if (K->pending_key.queue_sz || K->chord.state != CHORD_INACTIVE)
		bad("K06", "all keys are up and all deadlines passed but %zu events are held back", K->pending_key.queue_sz + K->chord.queue_sz);
	for (i = 0; i < sizeof K->active_chords / sizeof *K->active_chords; i++)
		if (K->active_chords[i].active)
			bad("K08", "all keys are up but a chord is still active");
}

static void run(struct config *c, char *script)
{
	struct output o = { out, layer_change };
	long now = 1, timeout = 0;
	char *t, *save, *copy = strdup(script);
	int i, held[256] = { 0 };

	memset(down, 0, sizeof down);
	memset(lcount, 0, sizeof lcount);
	tl = 0;
	chord_while_pending = 0;
	*trace = 0;
	K = new_keyboard(c, &o);
	for (i = 0; i < MAX_LAYERS; i++)
		lcount[i] = K->layer_state[i].active;
	for (t = strtok_r(copy, " \n", &save); t; t = strtok_r(NULL, " \n", &save)) {
		note("\n  %s: ", t);
		if (*t == '@') {
			long left = atol(t + 1);
			int n = 0;
			while (timeout > 0 && timeout <= left) {
				struct key_event ev = { 0, 0, 0 };
				left -= timeout;
				now += timeout;
				ev.timestamp = now;
				timeout = kbd_process_events(K, &ev, 1);
				check_step();
				check_wake(now, timeout);
				if (++n > 3000)
					break;
			}
			now += left;
			if (timeout)
				timeout -= left;
		} else if (*t == '!') {
			kbd_eval(K, t + 1);
		} else {
			struct key_event ev = { code_of(t + 1), *t == '+', now };
			struct descriptor d = { 0 };
			struct cache_entry before = { 0 };
			int agree, expect, lay = -3, quiet = !deferred_cfg && !K->pending_key.code && K->chord.state == CHORD_INACTIVE && !K->active_macro;
			if (!ev.code)
				continue;
			if (cached(ev.code))
				before = *cached(ev.code);
			if (quiet && ev.pressed && !before.code && !(K->oneshot_timeout && now >= K->oneshot_timeout))
				lay = oracle_lookup(K, ev.code, &d);
			if (ev.pressed) held[ev.code]++; else if (held[ev.code]) held[ev.code]--;
			now++;
			agree = 1;
			for (i = 0; i < MAX_MOD; i++)
				agree &= (K->keystate[modifiers[i].key] != 0) == (down[modifiers[i].key] != 0);
			watched = 0;
			watch = lay >= 0 && d.op == OP_KEYSEQUENCE && !is_mod(d.args[0].code) ? d.args[0].code : 0;
			expect = lay >= 0 ? layer_mods(lay) | d.args[1].mods : 0;
			timeout = kbd_process_events(K, &ev, 1);
			if (agree && watched && mods_then != expect)
				bad("K03", "%s is sent with modifiers %x, not %x", KEY_NAME(watch), mods_then, expect);
			watch = 0;
			{
				int op = ev.pressed ? lay >= 0 ? d.op : -1 : quiet ? before.d.op : -1;
				if (agree && K->pending_key.code == 0 && ((!ev.pressed && op == OP_KEYSEQUENCE) || op == OP_LAYER || (op == OP_OVERLOAD && ev.pressed)
					|| (op == OP_TOGGLE && ev.pressed)) && down_mods() != layer_mods(-1))
					bad("K03", "after %s the modifiers down are %x, those of the active layers %x", t, down_mods(), layer_mods(-1));
			}
			check_step();
			check_wake(now - 1, timeout);
			if (lay >= 0 && !K->pending_key.code && K->chord.state == CHORD_INACTIVE) {
				struct cache_entry *e = cached(ev.code);
				int full = 0;
				for (i = 0; i < CACHE_SIZE; i++)
					full += K->cache[i].code != 0;
				if (!e && full < CACHE_SIZE)
					bad("K05", "the press of %s was acted on but is not on record", t + 1);
				if (e && d.op != OP_SWAP && d.op != OP_SWAPM && e->dl != lay)
					bad("K04", "%s resolved to layer %s, expected %s", t + 1, K->config.layers[e->dl].name, K->config.layers[lay].name);
				if (e && d.op == OP_KEYSEQUENCE && !is_mod(d.args[0].code) && d.args[0].code != KEYD_NOOP) {
					if (!down[d.args[0].code])
						bad("K05", "%s is pressed but its target %s is not down", t + 1, KEY_NAME(d.args[0].code));
				}
			}
			if (!deferred_cfg && !ev.pressed && before.code && cached(ev.code))
				bad("K05", "the release of %s left its press on record", t + 1);
		}
	}
	/* let go of everything */
	for (i = 1; i < 256; i++)
		while (held[i]-- > 0) {
			struct key_event ev = { i, 0, now };
			now++;
			note("\n  -%s (end): ", KEY_NAME(i));
			timeout = kbd_process_events(K, &ev, 1);
			check_step();
		}
	for (i = 0; timeout > 0 && i < 200; i++) {
		struct key_event ev = { 0, 0, 0 };
		now += timeout;
		ev.timestamp = now;
		note("\n  timeout: ");
		timeout = kbd_process_events(K, &ev, 1);
		check_step();
	}
	if (!timeout && !chord_while_pending)
		check_rest();
	free(copy);
	free(K);
}

/* ---- generators ---- */
static uint64_t rs;
static unsigned rnd(unsigned n)
{
	rs ^= rs << 13;
	rs ^= rs >> 7;
	rs ^= rs << 17;
	return (rs >> 11) % n;
}
static const char *keys[] = { "a", "b", "c", "d", "e", "f", "j", "k", "leftshift", "leftcontrol", "leftalt", "capslock", "s", "m", "o", "x",
	"1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "q", "w", "r", "t", "y", "u", "i", "p", "z", "v", "n" };
#define NK 16
#define PICK(a) a[rnd(sizeof a / sizeof *a)]
static int nlay, use_deferred;
static char lname[8][24];

static void gen_action(char *o, int depth, int alltypes)
{
	static const char *seqs[] = { "a", "b", "x", "C-c", "A-x", "S-a", "C-A-x", "1", "esc", "leftshift", "leftcontrol", "noop", "C-leftalt", "scrollt(5)", "scroll(3)", "command(x)" };
	static const char *macros[] = { "macro(a b)", "macro(C-x)", "macro(leftcontrol+c)", "macro(leftcontrol+a+b x)", "C-x", "A-b", "macro(hello)", "macro(leftshift+5ms+a)", "macro(a+b)" };
	static const char *times[] = { "1", "10", "100", "200" };
	char s1[400], s2[400];
	const char *l = lname[rnd(nlay)];
	int w = rnd(use_deferred && depth < 3 ? 21 : 16);
	switch (w) {
	case 0: case 1: strcpy(o, PICK(seqs)); break;
	case 2: case 3: sprintf(o, "layer(%s)", l); break;
	case 4: case 5: sprintf(o, "oneshot(%s)", l); break;
	case 6: sprintf(o, "toggle(%s)", l); break;
	case 7: case 8: sprintf(o, "swap(%s)", l); break;
	case 9: sprintf(o, "%s(%s, %s)", rnd(2) ? "layerm" : "oneshotm", l, PICK(macros)); break;
	case 10: sprintf(o, "%s(%s, %s)", rnd(2) ? "swapm" : "togglem", l, PICK(macros)); break;
	case 11: strcpy(o, PICK(macros)); break;
	case 12: if (rnd(2)) strcpy(o, "clear()"); else sprintf(o, "clearm(%s)", PICK(macros)); break;
	case 13: if (depth > 1) { strcpy(o, "a"); break; }
		{ int save = use_deferred; use_deferred = 0; gen_action(s1, depth + 1, 0); use_deferred = save; }
		sprintf(o, "overload(%s, %s)", l, s1); break;
	case 14: sprintf(o, "macro2(%s, %s, %s)", PICK(times), PICK(times), PICK(macros)); break;
	case 15: strcpy(o, rnd(3) ? PICK(seqs) : "setlayout(dvk)"); break;
	case 16: gen_action(s1, depth + 1, 0); sprintf(o, "overloadt(%s, %s, %s)", l, s1, PICK(times)); break;
	case 17: gen_action(s1, depth + 1, 0); sprintf(o, "overloadt2(%s, %s, %s)", l, s1, PICK(times)); break;
	case 18: gen_action(s1, depth + 1, 0); gen_action(s2, depth + 1, 0); sprintf(o, "overloadi(%s, %s, %s)", s1, s2, PICK(times)); break;
	default: gen_action(s1, depth + 1, 0); gen_action(s2, depth + 1, 0); sprintf(o, "timeout(%s, %s, %s)", s1, PICK(times), s2); break;
	}
}

static void gen_config(char *o, const char *W)
{
	char a[1000];
	int i, j, n, chords = rnd(3) == 0, dense = rnd(2);
	static const char *mods[] = { "", "", "", ":C", ":A", ":S", ":C-A" };
	o += sprintf(o, "[ids]\n*\n[global]\n");
	if (rnd(3) == 0) o += sprintf(o, "oneshot_timeout = %u\n", 50 + rnd(200));
	if (rnd(4) == 0) o += sprintf(o, "overload_tap_timeout = %u\n", 50 + rnd(200));
	if (rnd(4) == 0) o += sprintf(o, "disable_modifier_guard = 1\n");
	if (rnd(4) == 0) o += sprintf(o, "layer_indicator = 1\n");
	if (chords && rnd(2)) o += sprintf(o, "chord_hold_timeout = %u\n", 1 + rnd(100));
	nlay = 2 + rnd(4);
	use_deferred = rnd(2);
	deferred_cfg = chords || use_deferred;
	for (i = 0; i < nlay; i++)
		sprintf(lname[i], "l%d", i);
	n = nlay;
	for (i = -1; i < n + 2; i++) {
		if (i == -1) o += sprintf(o, "[main]\n");
		else if (i < n) o += sprintf(o, "[l%d%s]\n", i, PICK(mods));
		else if (i == n) o += sprintf(o, "[dvk:layout]\nb = x\n");
		else if (rnd(2)) o += sprintf(o, "[l0+l1]\n"); else break;
		for (j = 0; j < (i < 0 ? NK : 6); j++) {
			int k = i < 0 ? j : rnd(NK);
			if (i < 0 && dense == 0 && rnd(3) == 0)
				continue;
			gen_action(a, 0, 1);
			o += sprintf(o, "%s = %s\n", keys[k], a);
		}
		if (chords && rnd(2)) {
			gen_action(a, 0, 1);
			o += sprintf(o, "%s+%s = %s\n", keys[rnd(4)], keys[4 + rnd(3)], a);
			if (rnd(2)) {
				gen_action(a, 0, 1);
				o += sprintf(o, "%s+%s+%s = %s\n", keys[rnd(2)], keys[2 + rnd(2)], keys[4 + rnd(3)], a);
			}
		}
	}
}

static void gen_script(char *o)
{
	int st[256] = { 0 }, i, n = rnd(4) == 0 ? 30 + rnd(90) : 3 + rnd(16), nk = rnd(3) == 0 ? NK : 5;
	int pool[40], free_run = rnd(6) == 0;
	for (i = 0; i < 40; i++)
		pool[i] = rnd(free_run ? sizeof keys / sizeof *keys : NK);
	if (rnd(12) == 0) nk = 37;
	for (i = 0; i < n; i++) {
		if (rnd(4) == 0) {
			static const int ts[] = { 1, 3, 10, 49, 50, 51, 99, 100, 101, 200, 400 };
			o += sprintf(o, "@%d ", PICK(ts));
		} else {
			int k = nk == 37 ? (int)rnd(37) : pool[rnd(nk)];
			int p = rnd(40) == 0 ? (int)rnd(2) : !st[k];
			if (nk == 37 && st[k] && rnd(3)) continue;
			st[k] = p;
			o += sprintf(o, "%c%s ", p ? '+' : '-', keys[k]);
		}
	}
	*o = 0;
}

static void put(const char *dir, const char *name, const char *s)
{
	char p[512];
	FILE *f;
	snprintf(p, sizeof p, "%s/%s", dir, name);
	f = fopen(p, "w");
	fputs(s, f);
	fclose(f);
}
static char *slurp(const char *p)
{
	static char b[1 << 16];
	FILE *f = fopen(p, "r");
	size_t n = fread(b, 1, sizeof b - 1, f);
	b[n] = 0;
	fclose(f);
	return b;
}

int main(int argc, char *argv[])
{
	struct config *c = calloc(1, sizeof *c);
	mallopt(M_MMAP_THRESHOLD, 1 << 30);
	mallopt(M_TRIM_THRESHOLD, 1 << 30);
	if (!strcmp(argv[1], "replay")) {
		want = argv[4];
		if (config_parse(c, argv[2]))
			return 8;
		{
			char *t = slurp(argv[2]);
			deferred_cfg = strstr(t, "overloadt") || strstr(t, "overloadi") || strstr(t, "timeout(") || strchr(t, '+');
		}
		run(c, slurp(argv[3]));
		return 0;
	} else {
		static char cfg[1 << 16], scr[1 << 16], path[512];
		time_t end = time(0) + atol(argv[3]);
		unsigned long runs = 0, cfgs = 0;
		rs = 88172645463325252ull ^ (strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull);
		want = argv[5];
		snprintf(path, sizeof path, "%s/cfg", argv[4]);
		put(argv[4], "script", "");
		while (time(0) < end) {
			int i;
			gen_config(cfg, want);
			put(argv[4], "cfg", cfg);
			memset(c, 0, sizeof *c);
			if (config_parse(c, path))
				continue;
			cfgs++;
			for (i = 0; i < 30; i++) {
				gen_script(scr);
				put(argv[4], "script", scr);
				run(c, scr);
				runs++;
			}
		}
		printf("%lu configurations, %lu scripts\n", cfgs, runs);
		return 0;
	}
}
