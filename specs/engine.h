/* Vocabulary of the key-processing engine specifications (keyboard.c). */
#include "keyboard.c"
#include "keys.c"
#include "kv.h"

struct keyboard kvg_kbd;
uint8_t kvg_out[256];	/* ghost: what the virtual device believes */
uint8_t kvg_i;		/* arbitrary but fixed layer */
uint8_t kvg_k;		/* arbitrary but fixed key code */
uint32_t kvg_lc;	/* ghost: net number (mod 2^32) of activations of layer kvg_i told to listeners */
long kvg_now;	/* ghost: the engine clock of layer activations */
uint32_t kvg_ndown, kvg_nup;	/* ghost: how often key kvg_k was sent down / up */
uint8_t kvg_mods_at_down;	/* ghost: modifiers held when key kvg_k last went down */

#define KB (&kvg_kbd)

static uint8_t kvs_outmods(void)
{
	uint8_t m = 0;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		m |= kvg_out[modifiers[i].key] ? modifiers[i].mask : 0;
	return m;
}

static uint8_t kvs_keymods(void)
{
	uint8_t m = 0;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		m |= KB->keystate[modifiers[i].key] ? modifiers[i].mask : 0;
	return m;
}

static uint8_t kvs_allmods(void)
{
	uint8_t m = 0;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		m |= modifiers[i].mask;
	return m;
}

static int kvs_is_modkey(uint8_t k)
{
	int r = 0;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		r |= modifiers[i].key == k;
	return r;
}

/* the output device: whatever the engine tells it */
void kv_out(uint8_t code, uint8_t state)
{
	if (!kvs_is_modkey(code) & (code == kvg_k)) {
		if (state) {
			kvg_ndown++;
			kvg_mods_at_down = kvs_outmods();
		} else {
			kvg_nup++;
		}
	}
	kvg_out[code] = state;
}

static void kv_assigns_monitors(void)
{
	kv_assigns(&kvg_ndown, sizeof kvg_ndown);
	kv_assigns(&kvg_nup, sizeof kvg_nup);
	kv_assigns(&kvg_mods_at_down, 1);
}

void kv_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t active)
{
	int idx = (int)(layer - kbd->config.layers);
	if (idx == kvg_i)
		kvg_lc += active ? 1 : -1;
}

/* ---------------------------------------------------------------- config */
static int kvs_nonlayout(int idx)
{
	return KB->config.layers[idx].type != LT_LAYOUT;
}

/* layer kvg_i is not a layout (a name for config.layers[kvg_i].type != LT_LAYOUT, see kv_setup_cells) */
uint8_t kvg_nl;
static int kvs_nl(void) { return kvg_nl != 0; }

static int kvs_layer_ok(int idx)
{
	return (idx >= 1) & (idx < MAX_LAYERS);
}

/* op in the set of operations whose release deactivates args[0].idx */
static int kvs_holding_op(int op)
{
	return (op == OP_LAYER) | (op == OP_LAYERM) | (op == OP_ONESHOT) | (op == OP_ONESHOTM) | (op == OP_OVERLOAD);
}

static int kvs_layer_op(int op)
{
	return kvs_holding_op(op) | (op == OP_SWAP) | (op == OP_SWAPM) | (op == OP_TOGGLE) | (op == OP_TOGGLEM)
		| (op == OP_OVERLOAD_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT_TAP);
}

static int kvs_deferred_op(int op)
{
	return (op == OP_OVERLOAD_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT_TAP) | (op == OP_TIMEOUT) | (op == OP_OVERLOAD_IDLE_TIMEOUT);
}

static int kvs_in(int x, int n)
{
	return (x >= 0) & (x < n);
}

/* a descriptor the configuration parser may produce (nested descriptors excluded) */
static int kvs_desc_wf(const struct descriptor *d)
{
	int op = d->op;
	int a0 = d->args[0].idx, a1 = d->args[1].idx, a2 = d->args[2].idx;
	int ok = (op >= 0) & (op <= OP_SCROLL);

	ok &= IMP(kvs_layer_op(op), kvs_layer_ok(a0));
	ok &= IMP((op == OP_LAYERM) | (op == OP_ONESHOTM) | (op == OP_TOGGLEM) | (op == OP_SWAPM), kvs_in(a1, 256));
	ok &= IMP((op == OP_MACRO) | (op == OP_CLEARM), kvs_in(a0, 256));
	ok &= IMP(op == OP_MACRO2, kvs_in(a2, 256));
	ok &= IMP(op == OP_COMMAND, kvs_in(a0, 64));
	ok &= IMP(op == OP_LAYOUT, kvs_in(a0, MAX_LAYERS));
	ok &= IMP((op == OP_OVERLOAD) | (op == OP_OVERLOAD_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT_TAP), kvs_in(a1, 1024));
	ok &= IMP(op == OP_OVERLOAD_IDLE_TIMEOUT, kvs_in(a0, 1024) & kvs_in(a1, 1024));
	ok &= IMP(op == OP_TIMEOUT, kvs_in(a0, 1024) & kvs_in(a2, 1024) & (KB->config.descriptors[a2 & 1023].op != 0));
	return ok;
}

/* ... whose layer arguments are not layouts */
static int kvs_desc_nl(const struct descriptor *d)
{
	int a0 = d->args[0].idx;
	return IMP(kvs_layer_op(d->op), kvs_nonlayout(a0 & (MAX_LAYERS - 1))) &
		IMP(d->op == OP_LAYOUT, ((size_t)a0 < KB->config.nr_layers) & ((a0 == 0) | !kvs_nonlayout(a0 & (MAX_LAYERS - 1))));
}

static int kvs_desc_eq(const struct descriptor *a, const struct descriptor *b)
{
	return (a->op == b->op) & (a->args[0].idx == b->args[0].idx) & (a->args[1].idx == b->args[1].idx) &
		(a->args[2].idx == b->args[2].idx);
}

static int kvs_layer_wf(size_t i, void *c)
{
	const struct layer *l = &KB->config.layers[i];
	int ok = (l->nr_constituents <= 8) & (l->nr_chords <= 64) & (l->type <= LT_COMPOSITE);
	size_t j;
	for (j = 0; j < 8; j++)
		ok &= (l->constituents[j] >= 0) & (l->constituents[j] < MAX_LAYERS);
	return ok;
}

static int kvs_chordsz_wf(size_t i, void *c)
{
	return KB->config.layers[i >> 6].chords[i & 63].sz <= 8;
}

static int kvs_keymap_wf(size_t i, void *c)
{
	const struct descriptor *d = &KB->config.layers[i >> 8].keymap[i & 255];
	return kvs_desc_wf(d) & kvs_desc_nl(d);
}

static int kvs_descs_wf(size_t i, void *c)
{
	const struct descriptor *d = &KB->config.descriptors[i];
	return kvs_desc_wf(d) & kvs_desc_nl(d) & IMP(d->op == OP_OVERLOAD, !kvs_deferred_op(KB->config.descriptors[d->args[1].idx & 1023].op));
}

static int kvs_macro_wf(size_t i, void *c)
{
	return KB->config.macros[i].sz <= 256;
}

static int kvs_chordd_wf(size_t i, void *c)
{
	const struct descriptor *d = &KB->config.layers[i >> 6].chords[i & 63].d;
	return kvs_desc_wf(d) & kvs_desc_nl(d);
}

static void kv_setup_cells(void)
{
	KB->output.send_key = kv_out;
	KB->output.on_layer_change = kv_layer_change;
	KB->inhibit_modifier_guard = 0;
	kv_assume(kvg_i < MAX_LAYERS);
	kv_assume((kvg_nl != 0) == kvs_nonlayout(kvg_i));
	kv_assume(KB->config.nr_layers >= 1);
	kv_assume(KB->config.nr_layers <= MAX_LAYERS);
	kv_assume(kv_forall(MAX_LAYERS, kvs_layer_wf, 0));
	kv_assume(KB->config.layers[0].type == LT_NORMAL);
}

static void kv_setup(void)
{
	kv_flat(KB->layer_state);
	kv_setup_cells();
}

static void kv_setup_desc(void)
{
	kv_assume(kv_forall(1024, kvs_descs_wf, 0));
	kv_assume(kv_forall(256, kvs_macro_wf, 0));
}

/* ---------------------------------------------------------------- modifiers */
static int kvs_excluded(int excl, size_t i)
{
	size_t j;
	int r = 0;

	if (excl == -1)
		return 0;
	if ((size_t)excl == i)
		return 1;
	if (KB->config.layers[excl].type == LT_COMPOSITE)
		for (j = 0; j < KB->config.layers[excl].nr_constituents; j++)
			if ((size_t)KB->config.layers[excl].constituents[j] == i)
				r = 1;
	return r;
}

/* union of the modifiers of the active layers, the excluded one left out */
static uint8_t kvs_active_mods(int excl)
{
	size_t i;
	uint8_t m = 0;

	for (i = 0; i < KB->config.nr_layers; i++)
		if (KB->layer_state[i].active && !kvs_excluded(excl, i))
			m |= KB->config.layers[i].mods;
	return m;
}

static uint8_t kvs_layer_mods(int excl, uint8_t m) { return m | kvs_active_mods(excl); }

/* every modifier key is down exactly when `mods` says so */
static int kvs_mods_are(uint8_t mods)
{
	int ok = 1;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		ok &= (KB->keystate[modifiers[i].key] != 0) == ((mods & modifiers[i].mask) != 0);
	return ok;
}

/* the virtual device agrees with the engine about key k / never holds a key the engine thinks is up */
static int kvs_noghost(uint8_t k) { return IMP(KB->keystate[k] == 0, kvg_out[k] == 0); }
static int kvs_agree(uint8_t k) { return (KB->keystate[k] != 0) == (kvg_out[k] != 0); }

static int kvs_noghost_all(size_t k, void *c) { return kvs_noghost(k); }

/* ---------------------------------------------------------------- contracts: modifiers */
static void kv_assigns_mods(struct keyboard *kbd)
{
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++) {
		kv_assigns(&kbd->keystate[modifiers[i].key], 1);
		kv_assigns(&kvg_out[modifiers[i].key], 1);
	}
	kv_assigns(&kbd->last_pressed_output_code, 1);
}

static int kvs_mods_noghost(void)
{
	int ok = 1;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		ok &= kvs_noghost(modifiers[i].key);
	return ok;
}

/* the device holds nothing the engine believes up (key kvg_k, the modifiers) */
static int kvs_ng(void) { return kvs_noghost(kvg_k) & kvs_mods_noghost(); }

static int kvs_mods_agree(void)
{
	int ok = 1;
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
		ok &= kvs_agree(modifiers[i].key);
	return ok;
}

/* the engine's belief about each modifier key after `mods` was requested */
static void kv_def_mods(uint8_t mods)
{
	size_t i;
	for (i = 0; i < ARRAY_SIZE(modifiers); i++) {
		uint8_t old = KV_OLD(KB->keystate[modifiers[i].key]);
		DEF("*", KB->keystate[modifiers[i].key], (mods & modifiers[i].mask) ? (old ? old : 1) : 0, "exactly the requested modifiers are down");
	}
}

static void kvc_set_mods(struct keyboard *kbd, uint8_t mods)
{
	int ng = kvs_ng(), ag = kvs_mods_agree();
	kv_assigns_mods(kbd);
	set_mods(kbd, mods);
	kv_def_mods(mods);
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	ENS("K03", IMP(ag, kvs_mods_agree()), "the device has the modifiers the engine believes down");
}

static void kvc_update_mods(struct keyboard *kbd, int excl, uint8_t mods)
{
	int ng = kvs_ng(), ag = kvs_mods_agree();
	REQ("*", (excl >= -1) & (excl < MAX_LAYERS), "excluded layer exists");
	kv_assigns_mods(kbd);
	update_mods(kbd, excl, mods);
	kv_def_mods(kvs_layer_mods(excl, mods));
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	ENS("K03", IMP(ag, kvs_mods_agree()), "the device has the modifiers the engine believes down");
}

/* ---------------------------------------------------------------- contracts: layers
 * Properties of layers are proved for one arbitrary but fixed layer kvg_i.  The "activation is paired"
 * obligation of another layer is the same obligation for another choice of kvg_i, hence only assumed here. */
static void kvc_deactivate_layer(struct keyboard *kbd, int idx)
{
	REQ("*", kvs_in(idx, MAX_LAYERS), "layer exists");
	REQ("K01 K12", IMP(idx == kvg_i, kbd->layer_state[kvg_i].active > 0), "layer is active when it is deactivated");
	kv_assume(kbd->layer_state[idx].active > 0);
	kv_assigns(&kbd->layer_state[idx].active, sizeof kbd->layer_state[idx].active);
	kv_assigns(&kvg_lc, sizeof kvg_lc);
	deactivate_layer(kbd, idx);
	DEF("*", kbd->layer_state[idx].active, KV_OLD(kbd->layer_state[idx].active) - 1, "activation count drops by one");
	DEF("*", kvg_lc, KV_OLD(kvg_lc) - (idx == kvg_i), "listeners told");
}

#define LSI (kbd->layer_state[kvg_i])

static int kvs_is_layer(void) { return kvg_i < KB->config.nr_layers; }

/* loop invariants (candidates; the verifier keeps those it can prove inductive) */
#define LS (KB->layer_state[kvg_i])
static int kvinv_clear_oneshot_lc(void) { return kvg_lc - LS.active == KV_OLD(kvg_lc) - KV_OLD(LS.active); }
static int kvinv_clear_oneshot_ad(void) { return LS.active - LS.oneshot_depth == KV_OLD(LS.active) - KV_OLD(LS.oneshot_depth); }
static int kvinv_clear_oneshot_le(void) { return !kvs_is_layer() | (LS.oneshot_depth <= LS.active); }
static int kvinv_clear_oneshot_todo(size_t *v64) { return IMP(*v64 <= kvg_i, LS.oneshot_depth == KV_OLD(LS.oneshot_depth)); }
static int kvinv_clear_oneshot_other(size_t *v64) { return IMP(*v64 != kvg_i, LS.oneshot_depth == KV_OLD(LS.oneshot_depth)); }
static int kvinv_clear_oneshot_done(size_t *v64) { return IMP(*v64 > kvg_i, LS.oneshot_depth == 0); }
static int kvinv_clear_oneshot_n(size_t *v64) { return *v64 <= KB->config.nr_layers; }

static void kvc_clear_oneshot(struct keyboard *kbd)
{
	uint32_t d;
	REQ("K01 K12", IMP(kvs_is_layer(), LSI.oneshot_depth <= LSI.active), "every pending oneshot activation is counted in its layer");
	kv_assigns_col(&kbd->layer_state[0].active, MAX_LAYERS);
	kv_assigns_col(&kbd->layer_state[0].oneshot_depth, MAX_LAYERS);
	kv_assigns(&kbd->oneshot_latch, 1);
	kv_assigns(&kbd->oneshot_timeout, sizeof(long));
	kv_assigns(&kvg_lc, sizeof kvg_lc);
	clear_oneshot(kbd);
	d = kvs_is_layer() ? KV_OLD(LSI.oneshot_depth) : 0;
	ENS("K01 K09 K12", LSI.active == KV_OLD(LSI.active) - d, "oneshot activations removed, others kept");
	ENS("K01 K09 K12", LSI.oneshot_depth == KV_OLD(LSI.oneshot_depth) - d, "no oneshot pending");
	DEF("K01", kvg_lc, KV_OLD(kvg_lc) - d, "listeners told");
	DEF("*", kbd->oneshot_latch, 0, "oneshot latch reset");
	DEF("*", kbd->oneshot_timeout, 0, "oneshot deadline reset");
}

static int kvs_keyup_all(size_t k, void *c) { return KB->keystate[k] == 0; }
static int kvs_outup_all(size_t k, void *c) { return kvg_out[k] == 0; }

static void kv_ens_keys_up(struct keyboard *kbd)
{
	if (kv_replacing())
		memset(kbd->keystate, 0, sizeof kbd->keystate);
	else
		ENS("*", kv_forall(256, kvs_keyup_all, 0), "every key is up");
}

static void kvc_reset_keystate(struct keyboard *kbd)
{
	int ng = kvs_ng();
	kv_assigns(kbd->keystate, sizeof kbd->keystate);
	kv_assigns(kvg_out, sizeof kvg_out);
	kv_assigns_monitors();
	reset_keystate(kbd);
	kv_ens_keys_up(kbd);
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	DEF("*", kvg_ndown, KV_OLD(kvg_ndown), "no key pressed");
}

/* activation counters as the sum of what can be undone */
static int kvs_counts_ok(size_t i)
{
	return (KB->layer_state[i].toggled <= 1) &
		((uint64_t)KB->layer_state[i].oneshot_depth + KB->layer_state[i].toggled <= KB->layer_state[i].active);
}

static void kv_assigns_clear(struct keyboard *kbd)
{
	kv_assigns_col(&kbd->layer_state[0].active, MAX_LAYERS);
	kv_assigns_col(&kbd->layer_state[0].oneshot_depth, MAX_LAYERS);
	kv_assigns_col(&kbd->layer_state[0].toggled, MAX_LAYERS);
	kv_assigns(&kbd->oneshot_latch, 1);
	kv_assigns(&kbd->oneshot_timeout, sizeof(long));
	kv_assigns(&kvg_lc, sizeof kvg_lc);
	kv_assigns(&kbd->active_macro, sizeof kbd->active_macro);
	kv_assigns(kbd->keystate, sizeof kbd->keystate);
	kv_assigns(kvg_out, sizeof kvg_out);
	kv_assigns_monitors();
}

static void kv_req_counts(struct keyboard *kbd)
{
	REQ("K01 K12", IMP(kvs_is_layer(), kvs_counts_ok(kvg_i)), "toggled and oneshot activations are counted in the layer");
}

/* what clear() removes from layer kvg_i */
static uint32_t kvs_old_depth(void) { return kvs_is_layer() ? KV_OLD(KB->layer_state[kvg_i].oneshot_depth) : 0; }
static uint32_t kvs_old_toggled(void)
{
	return kvs_is_layer() & (kvg_i >= 1) & kvs_nl() & (KV_OLD(KB->layer_state[kvg_i].toggled) != 0);
}

static void kv_ens_cleared(struct keyboard *kbd, int ng)
{
	ENS("K01 K09 K12", LSI.oneshot_depth == KV_OLD(LSI.oneshot_depth) - kvs_old_depth(), "no oneshot pending");
	ENS("K01 K12", LSI.toggled == (kvs_old_toggled() ? 0 : KV_OLD(LSI.toggled)), "no layer toggled");
	DEF("*", kbd->oneshot_latch, 0, "oneshot latch reset");
	DEF("*", kbd->oneshot_timeout, 0, "oneshot deadline reset");
	DEF("*", kbd->active_macro, NULL, "no macro repeating");
	kv_ens_keys_up(kbd);
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	DEF("*", kvg_ndown, KV_OLD(kvg_ndown), "no key pressed");
}

static void kvc_clear(struct keyboard *kbd)
{
	int ng = kvs_ng();
	kv_req_counts(kbd);
	kv_assigns_clear(kbd);
	clear(kbd);
	ENS("K01 K12", LSI.active == KV_OLD(LSI.active) - kvs_old_depth() - kvs_old_toggled(), "exactly the toggled and oneshot activations are removed");
	DEF("K01", kvg_lc, KV_OLD(kvg_lc) - kvs_old_depth() - kvs_old_toggled(), "listeners told");
	kv_ens_cleared(kbd, ng);
}

static void kvc_setlayout(struct keyboard *kbd, uint8_t idx)
{
	int ng = kvs_ng(), lay;
	REQ("*", idx < kbd->config.nr_layers, "layout exists");
	REQ("*", (idx == 0) | (kbd->config.layers[idx & (MAX_LAYERS - 1)].type == LT_LAYOUT), "a layout or main");
	kv_req_counts(kbd);
	kv_assigns_clear(kbd);
	kv_assigns_col(&kbd->layer_state[0].activation_time, MAX_LAYERS);
	setlayout(kbd, idx);
	lay = (kvg_i >= 1) & kvs_is_layer() & !kvs_nl();
	ENS("K01 K12", LSI.active == (lay ? (kvg_i == idx) : KV_OLD(LSI.active) - kvs_old_depth() - kvs_old_toggled()),
		"exactly the chosen layout is active; elsewhere toggled and oneshot activations are removed");
	ENS("K04", LSI.activation_time == ((kvg_i == idx) & (kvg_i != 0) ? 1 : KV_OLD(LSI.activation_time)), "layouts are older than any layer activation");
	DEF("K01", kvg_lc, KV_OLD(kvg_lc) - kvs_old_depth() - kvs_old_toggled() + (kvg_i == idx), "listeners told");
	kv_ens_cleared(kbd, ng);
}

/* ---------------------------------------------------------------- contracts: activation */
static long kvc_get_time(void)
{
	long r;
	kv_assigns(&kvg_now, sizeof kvg_now);
	kv_assigns_any();
	r = get_time();
	if (kv_replacing())
		kv_assume(r == KV_OLD(kvg_now));
	kvg_now = r + 1;
	return r;
}

static void kvc_activate_layer(struct keyboard *kbd, uint8_t code, int idx)
{
	size_t i;
	int found = 0;
	REQ("*", kvs_in(idx, MAX_LAYERS), "layer exists");
	kv_assigns(&kbd->layer_state[idx].active, sizeof kbd->layer_state[idx].active);
	kv_assigns(&kbd->layer_state[idx].activation_time, sizeof(long));
	kv_assigns(&kvg_lc, sizeof kvg_lc);
	kv_assigns(&kvg_now, sizeof kvg_now);
	for (i = 0; i < CACHE_SIZE; i++)
		kv_assigns(&kbd->cache[i].layer, sizeof(int));
	activate_layer(kbd, code, idx);
	DEF("*", kbd->layer_state[idx].active, KV_OLD(kbd->layer_state[idx].active) + 1, "activation count grows by one");
	DEF("*", kbd->layer_state[idx].activation_time, KV_OLD(kvg_now), "stamped with the current time");
	DEF("*", kvg_now, KV_OLD(kvg_now) + 1, "time advances");
	DEF("*", kvg_lc, KV_OLD(kvg_lc) + (idx == kvg_i), "listeners told");
	for (i = 0; i < CACHE_SIZE; i++) {
		int m = !found & (kbd->cache[i].code == code);
		DEF("*", kbd->cache[i].layer, m ? idx : KV_OLD(kbd->cache[i].layer), "the key is recorded as holding the layer");
		found |= m;
	}
}

/* ---------------------------------------------------------------- contracts: timers */
static size_t kvg_j;	/* arbitrary */
static int kvinv_schedule_timeout_lt(size_t *v64__i, size_t *v64__last) { return (*v64__i <= 64) & (*v64__last < *v64__i); }
static void kvc_schedule_timeout(struct keyboard *kbd, long timeout)
{
	size_t n = kbd->nr_timeouts;
	REQ("*", kbd->nr_timeouts <= 64, "at most 64 deadlines");
	kv_assigns(&kbd->nr_timeouts, sizeof(size_t));
	kv_assigns(kbd->timeouts, sizeof kbd->timeouts);
	schedule_timeout(kbd, timeout);
	DEF("*", kbd->nr_timeouts, n < 64 ? n + 1 : 64, "one more deadline");
	if (kv_on("K10")) {
		long now = kbd->timeouts[kvg_j & 63], was = KV_OLD(kbd->timeouts[kvg_j & 63]);
		ENS("K10", IMP(n < 64, now == ((kvg_j & 63) == n ? timeout : was)), "the deadline is remembered, the others are kept");
		ENS("K10", IMP(n == 64, (now == was) | ((now == timeout) & (timeout < was))), "only a later deadline is given up");
	}
}

/* the deadlines later than `time` */
static long kvg_time;
static size_t kvg_nrc;	/* the number of deadlines, and deadline kvg_j, when the time to wake up was computed */
static long kvg_at;
static size_t kvg_p;	/* arbitrary */
static int kvs_later(size_t i) { return KV_OLD(KB->timeouts[i & 63]) > kvg_time; }
static int kvs_kept(size_t n)
{
	int r = 0;
	size_t i;
	for (i = 0; i < 64; i++)
		r |= (i < n) & (KB->timeouts[i] == KV_OLD(KB->timeouts[kvg_j & 63]));
	return r;
}
static int kvinv_calculate_main_loop_timeout_i(size_t *v64__i, size_t *v64__n) { return (*v64__i <= KB->nr_timeouts) & (*v64__n <= *v64__i); }
static int kvinv_calculate_main_loop_timeout_kept(size_t *v64__i, size_t *v64__n) { return IMP((kvg_j < *v64__i) & kvs_later(kvg_j), kvs_kept(*v64__n)); }
static int kvinv_calculate_main_loop_timeout_fut(size_t *v64__n) { return IMP(kvg_p < *v64__n, KB->timeouts[kvg_p & 63] > kvg_time); }
static int kvinv_calculate_main_loop_timeout_rest(size_t *v64__i) { return IMP((kvg_j >= *v64__i) & (kvg_j < 64), KB->timeouts[kvg_j & 63] == KV_OLD(KB->timeouts[kvg_j & 63])); }
static int kvinv_calculate_main_loop_timeout_min(size_t *v64__i, long *v64__timeout) { return IMP((kvg_j < *v64__i) & kvs_later(kvg_j), (*v64__timeout != 0) & (*v64__timeout <= KV_OLD(KB->timeouts[kvg_j & 63]))); }
static int kvinv_calculate_main_loop_timeout_gt(long *v64__timeout) { return (*v64__timeout == 0) | (*v64__timeout > kvg_time); }
static int kvinv_calculate_main_loop_timeout_none(size_t *v64__n, long *v64__timeout) { return (*v64__n == 0) == (*v64__timeout == 0); }

static long kvc_calculate_main_loop_timeout(struct keyboard *kbd, long time)
{
	long r;
	REQ("*", kbd->nr_timeouts <= 64, "at most 64 deadlines");
	kv_assume((time >= 0) & (time < 0x100000000000L));	/* milliseconds since boot */
	kv_assigns(&kvg_time, sizeof kvg_time);
	kv_assigns(&kvg_nrc, sizeof kvg_nrc);
	kv_assigns(&kvg_at, sizeof kvg_at);
	kvg_time = time;
	kvg_nrc = kbd->nr_timeouts;
	kvg_at = kbd->timeouts[kvg_j & 63];
	kv_assigns(&kbd->nr_timeouts, sizeof(size_t));
	kv_assigns(kbd->timeouts, sizeof kbd->timeouts);
	r = calculate_main_loop_timeout(kbd, time);
	kvg_time = time;
	kvg_nrc = KV_OLD(kbd->nr_timeouts);
	kvg_at = KV_OLD(kbd->timeouts[kvg_j & 63]);
	ENS("*", kbd->nr_timeouts <= 64, "at most 64 deadlines");
	ENS("K10", IMP((kvg_j < KV_OLD(kbd->nr_timeouts)) & kvs_later(kvg_j), (r > 0) & (r <= KV_OLD(kbd->timeouts[kvg_j & 63]) - time)), "wakes up no later than any deadline");
	ENS("K10", (r >= 0) & ((r == 0) == (kbd->nr_timeouts == 0)), "sleeps for good only if no deadline is left");
	if (!kv_replacing()) {
		ENS("K10", IMP(kvg_p < kbd->nr_timeouts, kbd->timeouts[kvg_p & 63] > time), "deadlines that have passed are forgotten");
		ENS("K10", IMP((kvg_j < KV_OLD(kbd->nr_timeouts)) & kvs_later(kvg_j), kvs_kept(kbd->nr_timeouts)), "the others are kept");
	}
	return r;
}

/* ---------------------------------------------------------------- contracts: macros */
/* a macro the parser may produce: every held group is eventually released (position rel(j)) */
static size_t kvs_rel(size_t j) { return kv_uf("macro.rel", j); }

static const struct macro *kvg_m;

static int kvs_macro_held_wf(size_t j, void *c)
{
	const struct macro *m = c;
	size_t r = kvs_rel(j);
	return IMP((j < m->sz) & (m->entries[j].type == MACRO_HOLD),
		   (r > j) & (r < m->sz) & (r < 256) & (m->entries[r & 255].type == MACRO_RELEASE));
}

static void kvc_macro_execute(void (*output)(uint8_t, uint8_t), const struct macro *macro, size_t timeout)
{
	size_t i;
	int up = kvg_out[kvg_k] == 0;
	uint8_t m0 = kvs_outmods();
	REQ("*", macro->sz <= 256, "macro within bounds");
	kv_assigns(kvg_out, sizeof kvg_out);
	kv_assigns_monitors();
	macro_execute(output, macro, timeout);
	ENS("K02 K11", IMP(up, kvg_out[kvg_k] == 0), "a macro leaves no key down");
	if (kv_replacing() && kv_on("K02 K11"))
		kv_assume((kvs_outmods() & ~m0) == 0);
}

static int kvs_single(const struct macro *m)
{
	return (m->sz == 1) & (m->entries[0].type == MACRO_KEYSEQUENCE);
}

static void kvc_execute_macro(struct keyboard *kbd, int dl, const struct macro *macro)
{
	int ng = kvs_ng();
	int down = kbd->keystate[kvg_k] != 0;
	int single = kvs_single(macro);
	uint8_t c = macro->entries[0].data, m = macro->entries[0].data >> 8;
	REQ("*", macro->sz <= 256, "macro within bounds");
	REQ("*", kvs_in(dl, MAX_LAYERS), "layer exists");
	kv_assigns(kbd->keystate, sizeof kbd->keystate);
	kv_assigns(kvg_out, sizeof kvg_out);
	kv_assigns(&kbd->last_pressed_output_code, 1);
	kv_assigns_monitors();
	execute_macro(kbd, dl, macro);
	ENS("K02 K03 K11", IMP(single & !kvs_is_modkey(c), kvs_mods_are(kvs_layer_mods(dl, m))), "single key macro: its modifiers");
	ENS("K02 K03 K11", IMP(!single, kvs_mods_are(kvs_layer_mods(dl, 0))), "macro: modifiers of the other layers");
	ENS("K02 K03 K11", (kvs_keymods() & ~kvs_layer_mods(dl, single ? m : 0)) == 0, "no other modifier");
	ENS("K02 K11", IMP(!down, kbd->keystate[kvg_k] == 0) | kvs_is_modkey(kvg_k), "a macro leaves no key down");
	ENS("K02 K11", IMP(ng, kvs_ng()), "nothing left down on the device");
}

static void kvc_execute_command(const char *cmd)
{
	execute_command(cmd);
}

/* ---------------------------------------------------------------- engine invariants */
/* a single action nested in overload() takes effect when the key is tapped: it must not be one
 * that waits for further events (known finding F1) */
static int kvs_overload_ok(const struct descriptor *d)
{
	return IMP(d->op == OP_OVERLOAD, !kvs_deferred_op(KB->config.descriptors[d->args[1].idx & 1023].op));
}
/* only the checks about whole events need to know this of keys on record */
static int kvs_ovl(const struct descriptor *d)
{
	return kv_on("K05") ? kvs_overload_ok(d) : 1;
}

/* key `slot` of the cache is well formed; a slot that names a layer holds that layer */
static int kvs_slot_ok(size_t i)
{
	const struct cache_entry *e = &KB->cache[i];
	int ok = kvs_in(e->dl, MAX_LAYERS) & kvs_in(e->layer, MAX_LAYERS);
	return ok & IMP(e->code != 0, kvs_desc_wf(&e->d) & kvs_desc_nl(&e->d) & kvs_ovl(&e->d) &
			IMP(e->layer != 0, kvs_holding_op(e->d.op) & (e->d.args[0].idx == e->layer)));
}

/* no key occupies two slots */
static int kvs_distinct(void)
{
	size_t i, j;
	int ok = 1;
	for (i = 0; i < CACHE_SIZE; i++)
		for (j = 0; j < i; j++)
			ok &= (KB->cache[i].code == 0) | (KB->cache[i].code != KB->cache[j].code);
	return ok;
}

static int kvs_cached(uint8_t code)
{
	size_t i;
	int r = 0;
	for (i = 0; i < CACHE_SIZE; i++)
		r |= KB->cache[i].code == code;
	return r;
}

/* does the operation hold layer i while its key is down? */
static int kvs_holds(const struct descriptor *d, int i)
{
	return kvs_holding_op(d->op) & (d->args[0].idx == i);
}

/* releasing a key bound to d recomputes the modifiers from the active layers */
static int kvs_settles(const struct descriptor *d)
{
	int op = d->op;
	return (op == OP_KEYSEQUENCE) | (op == OP_LAYER) | (op == OP_LAYERM) | (op == OP_OVERLOAD) |
		((op == OP_SWAPM) & kvs_single(&KB->config.macros[d->args[1].idx & 255]));
}

static int kvs_maps(const struct descriptor *d, uint8_t k)
{
	return (d->op == OP_KEYSEQUENCE) & (d->args[0].code == k);
}

/* in the proofs about whole events (parameter 8 = 3): the key of the event.  The other keys are abstracted as
 * above; that their records are not touched in between is an obligation of its own (kvs_others_kept). */
uint8_t kvg_ecode;

/* What the held keys other than `excl` amount to.  While the body of process_descriptor is verified for an
 * operation that does not touch other slots, these are arbitrary values (parameter 8): the body is then
 * correct for every content of the other slots.  (Parameter 8 = 2: of the slots other than `excl` and the
 * one numbered by parameter 2, which is looked at itself.) */
uint32_t kvg_held;	/* how many of them hold layer kvg_i */
uint8_t kvg_settled;	/* does the release of one of them recompute the modifiers */
uint8_t kvg_keyheld;	/* does one of them map to key kvg_k */

static int kvs_slot_held(size_t j, uint8_t excl)
{
	return (KB->cache[j].code != 0) & (KB->cache[j].code != excl) & kvs_holds(&KB->cache[j].d, kvg_i);
}

static int kvs_slot_settles(size_t j, uint8_t excl)
{
	return (KB->cache[j].code != 0) & (KB->cache[j].code != excl) & kvs_settles(&KB->cache[j].d);
}

static int kvs_slot_maps(size_t j, uint8_t excl)
{
	return (KB->cache[j].code != 0) & (KB->cache[j].code != excl) & kvs_maps(&KB->cache[j].d, kvg_k);
}

static int kvs_own_held(void) { size_t j; int r = 0; for (j = 0; j < CACHE_SIZE; j++) r |= (KB->cache[j].code == kvg_ecode) & kvs_slot_held(j, 0); return r; }
static int kvs_own_settles(void) { size_t j; int r = 0; for (j = 0; j < CACHE_SIZE; j++) r |= (KB->cache[j].code == kvg_ecode) & kvs_slot_settles(j, 0); return r; }
static int kvs_own_maps(void) { size_t j; int r = 0; for (j = 0; j < CACHE_SIZE; j++) r |= (KB->cache[j].code == kvg_ecode) & kvs_slot_maps(j, 0); return r; }

static uint32_t kvs_held(uint8_t excl)
{
	uint32_t n = 0;
	size_t j;
	if (kv_param(8) == 2)
		return kvg_held + kvs_slot_held(kv_param(2) - 3, excl);
	if (kv_param(8) == 3)
		return kvg_held + ((excl == kvg_ecode) | (kvg_ecode == 0) ? 0 : kvs_own_held());
	if (kv_param(8))
		return kvg_held;
	for (j = 0; j < CACHE_SIZE; j++)
		n += kvs_slot_held(j, excl);
	return n;
}

static int kvs_settled(uint8_t excl)
{
	int r = 0;
	size_t j;
	if (kv_param(8) == 2)
		return (kvg_settled != 0) | kvs_slot_settles(kv_param(2) - 3, excl);
	if (kv_param(8) == 3)
		return (kvg_settled != 0) | ((excl == kvg_ecode) | (kvg_ecode == 0) ? 0 : kvs_own_settles());
	if (kv_param(8))
		return kvg_settled != 0;
	for (j = 0; j < CACHE_SIZE; j++)
		r |= kvs_slot_settles(j, excl);
	return r;
}

static int kvs_keyheld(uint8_t excl)
{
	int r = 0;
	size_t j;
	if (kv_param(8) == 2)
		return (kvg_keyheld != 0) | kvs_slot_maps(kv_param(2) - 3, excl);
	if (kv_param(8) == 3)
		return (kvg_keyheld != 0) | ((excl == kvg_ecode) | (kvg_ecode == 0) ? 0 : kvs_own_maps());
	if (kv_param(8))
		return kvg_keyheld != 0;
	for (j = 0; j < CACHE_SIZE; j++)
		r |= kvs_slot_maps(j, excl);
	return r;
}

/* activation count of layer kvg_i = toggles + pending oneshots + keys holding it (`n` for key excl) */
static int kvs_bal(uint8_t excl, uint32_t n)
{
	uint32_t base = (kvg_i == 0);
	int lt = (kvg_i == 0) | !kvs_nl();
	uint32_t a = KB->layer_state[kvg_i].active, d = KB->layer_state[kvg_i].oneshot_depth;
	uint8_t t = KB->layer_state[kvg_i].toggled;
	return (t <= 1) & IMP(lt, (t == 0) & (d == 0)) & IMP(kvs_nl(), a == base + t + d + kvs_held(excl) + n);
}

/* fewer than 2^30 oneshot activations are pending (assumed: each takes a key press) */
static void kv_bounds(void)
{
	kv_assume(KB->layer_state[kvg_i].oneshot_depth <= 0x3fffffff);
	kv_assume(kvg_held <= CACHE_SIZE);
}

/* key kvg_k is down only because some held key maps to it (own: key excl does) */
static int kvs_key_ok(uint8_t excl, int own)
{
	int silent = (kvg_k == KEYD_NOOP) | (kvg_k == KEYD_EXTERNAL_MOUSE_BUTTON);	/* never sent */
	return kvs_is_modkey(kvg_k) | (KB->keystate[kvg_k] == 0) | (!silent & (own | kvs_keyheld(excl)));
}

/* no modifier is down beyond those of the active layers, unless something that is still held
 * (own: key excl), or a repeating macro, will recompute them */
static int kvs_mods_ok(uint8_t excl, int own)
{
	return ((kvs_keymods() & ~kvs_active_mods(-1)) == 0) | own | kvs_settled(excl) | (KB->active_macro != NULL);
}

/* a key that is pending has had no effect yet */
static int kvs_pending_cached_ok(size_t i)
{
	if (!kv_on("K05"))
		return 1;
	return IMP((KB->pending_key.code != 0) & (KB->cache[i].code == KB->pending_key.code), kvs_deferred_op(KB->cache[i].d.op) & (KB->cache[i].layer == 0));
}

static int kvs_pending_ok(void)
{
	return IMP(KB->pending_key.code != 0,
		   kvs_desc_wf(&KB->pending_key.action1) & kvs_desc_nl(&KB->pending_key.action1) & kvs_ovl(&KB->pending_key.action1) &
		   kvs_desc_wf(&KB->pending_key.action2) & kvs_desc_nl(&KB->pending_key.action2) & kvs_ovl(&KB->pending_key.action2) &
		   (KB->pending_key.action2.op != 0) & (KB->pending_key.dl < MAX_LAYERS));
}

static int kvs_misc_ok(void)
{
	return (KB->nr_timeouts <= 64) & kvs_in(KB->active_macro_layer, MAX_LAYERS) & (KB->inhibit_modifier_guard == 0);
}

static void kv_setup_ptrs(void)
{
	kv_symptr(&KB->active_macro, KB->config.macros, 256, 1, "active_macro");
}

/* the operation recorded for key `code` (d if it is not recorded) */
static void kvs_own(uint8_t code, const struct descriptor *d, struct descriptor *r)
{
	size_t i;
	*r = *d;
	for (i = 0; i < CACHE_SIZE; i++)
		if (KB->cache[i].code == code)
			*r = KB->cache[i].d;
}

static int kvs_same_desc(const struct descriptor *a, const struct descriptor *b) { return kvs_desc_eq(a, b); }

/* instances of kvs_macro_wf */
static void kv_inst_macros(const struct descriptor *d)
{
	kv_assume(kvs_macro_wf(d->args[0].idx & 255, 0));
	kv_assume(kvs_macro_wf(d->args[1].idx & 255, 0));
	kv_assume(kvs_macro_wf(d->args[2].idx & 255, 0));
}

#ifdef KV_PD_CALLED
static void kv_pd_called(uint8_t code, const struct descriptor *d, int dl, int pressed, long time);
#else
static void kv_pd_called(uint8_t code, const struct descriptor *d, int dl, int pressed, long time) { }
#endif

static long kvc_process_descriptor(struct keyboard *kbd, uint8_t code, const struct descriptor *d, int dl, int pressed, long time)
{
	size_t i;
	long ret;
	int op = d->op, def = kvs_deferred_op(op);
	int swaps = (op == OP_SWAP) | (op == OP_SWAPM) | (op == OP_OVERLOAD) | (op == OP_OVERLOAD_IDLE_TIMEOUT);
	int chg = op == OP_OVERLOAD_IDLE_TIMEOUT;
	int acts = swaps | kvs_holding_op(op);
	int ng = kvs_ng();
	int ag = kv_on("K03") ? kvs_mods_agree() : 0;
	int plain = (op == OP_KEYSEQUENCE) & !kvs_is_modkey(d->args[0].code) & (d->args[0].code != KEYD_NOOP) & (d->args[0].code != KEYD_EXTERNAL_MOUSE_BUTTON);
	int km = kv_on("K03") ? kvs_layer_mods(dl & (MAX_LAYERS - 1), d->args[1].mods) : 0;
	struct descriptor dd = *d, after = *d;

	REQ("*", code != 0, "a key");
	REQ("*", kvs_desc_wf(d) & kvs_desc_nl(d), "well formed operation");
	kv_inst_macros(d);
	REQ("*", kvs_in(dl, MAX_LAYERS), "layer exists");
	REQ("*", (pressed == 0) | (pressed == 1), "press or release");
	for (i = 0; i < CACHE_SIZE; i++)
		REQ("*", kvs_slot_ok(i), "well formed key cache");
	REQ("*", kvs_distinct(), "no key is recorded twice");
	REQ("*", kvs_misc_ok(), "engine state within bounds");
	REQ("*", IMP(pressed & chg, kvs_cached(code)), "an idle overload is recorded when pressed");
	REQ("*", IMP(!pressed, !kvs_cached(code)), "a released key is no longer recorded");
	for (i = 0; i < CACHE_SIZE; i++) {
		REQ("*", IMP(kbd->cache[i].code == code, kvs_desc_eq(&kbd->cache[i].d, d)), "a pressed key is recorded with its operation");
		REQ("*", IMP(kbd->cache[i].code == code, kbd->cache[i].layer == 0), "a pressed key holds no layer yet");
	}
	REQ("*", kvs_overload_ok(d), "nested action is not a deferred one");
	for (i = 0; i < CACHE_SIZE; i++)
		REQ("*", kvs_pending_cached_ok(i), "the pending key has had no effect yet");
	REQ("*", IMP(pressed & def, kbd->pending_key.code == 0), "no key is pending");
	REQ("*", kvs_pending_ok(), "well formed pending key");
	if (kv_replacing() && kv_param(8) == 3)
		kv_pd_called(code, d, dl, pressed, time);
	kv_bounds();
	REQ("K01 K12", kvs_bal(code, pressed ? 0 : kvs_holds(d, kvg_i)), "layer activations are balanced");
	kv_req_counts(kbd);
	REQ("K02", kvs_key_ok(code, kvs_maps(d, kvg_k)), "a key down on the output is held on the input");
	REQ("K02", kvs_mods_ok(code, !pressed & kvs_settles(d)), "no stray modifier");

	kv_assigns_clear(kbd);
	kv_assigns(&kbd->last_pressed_output_code, 1);
	kv_assigns(&kbd->last_pressed_code, 1);
	kv_assigns(&kbd->active_macro_layer, sizeof(int));
	kv_assigns(&kbd->macro_timeout, sizeof(long));
	kv_assigns(&kbd->macro_repeat_interval, sizeof(long));
	kv_assigns(&kbd->overload_start_time, sizeof(long));
	kv_assigns(&kbd->last_simple_key_time, sizeof(long));
	kv_assigns(&kbd->nr_timeouts, sizeof(size_t));
	kv_assigns(kbd->timeouts, sizeof kbd->timeouts);
	kv_assigns(&kbd->scroll.sensitivity, sizeof(int));
	kv_assigns(&kbd->scroll.active, sizeof(int));
	kv_assigns(&kbd->pending_key.code, 1);
	kv_assigns(&kbd->pending_key.dl, 1);
	kv_assigns(&kbd->pending_key.expire, sizeof(long));
	kv_assigns(&kbd->pending_key.behaviour, sizeof kbd->pending_key.behaviour);
	kv_assigns(&kbd->pending_key.action1, sizeof kbd->pending_key.action1);
	kv_assigns(&kbd->pending_key.action2, sizeof kbd->pending_key.action2);
	kv_assigns(&kbd->inhibit_modifier_guard, 1);
	kv_assigns(&kvg_now, sizeof kvg_now);
	kv_assigns_col(&kbd->layer_state[0].activation_time, MAX_LAYERS);
	kv_assigns(&kvg_held, sizeof kvg_held);
	kv_assigns(&kvg_settled, 1);
	for (i = 0; i < CACHE_SIZE; i++) {
		kv_assigns(&kbd->cache[i].layer, sizeof(int));
		kv_assigns(&kbd->cache[i].d, sizeof(struct descriptor));
	}
	ret = process_descriptor(kbd, code, d, dl, pressed, time);

	if (kv_on("K10")) {
		size_t n = KV_OLD(kbd->nr_timeouts);
		ENS("K10", (kbd->nr_timeouts >= n) & IMP((kbd->nr_timeouts < 64) & (kvg_j < n), kbd->timeouts[kvg_j & 63] == KV_OLD(kbd->timeouts[kvg_j & 63])),
			"outstanding deadlines are kept");
	}
	if (kv_on("K10")) {
		/* those of the action are added */
		size_t n = KV_OLD(kbd->nr_timeouts);
		long exp = (op == OP_MACRO) | (op == OP_MACRO2) ? kbd->macro_timeout :
			(op == OP_ONESHOT) | (op == OP_ONESHOTM) ? kbd->oneshot_timeout : kbd->pending_key.expire;
		int on = pressed ? ((op == OP_MACRO) | (op == OP_MACRO2) | (op == OP_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT_TAP)) :
			(((op == OP_ONESHOT) | (op == OP_ONESHOTM)) && KV_OLD(kbd->oneshot_latch) && kbd->config.oneshot_timeout);
		if (on) {
			ENS("K10", IMP(n < 64, (kbd->nr_timeouts == n + 1) & IMP(kvg_j == n, kbd->timeouts[kvg_j & 63] == exp)), "the deadline of the action is scheduled");
			ENS("K10", exp == time + (op == OP_MACRO ? (int)kbd->config.macro_timeout : op == OP_MACRO2 ? dd.args[0].timeout : op == OP_TIMEOUT ? dd.args[1].timeout :
				(op == OP_ONESHOT) | (op == OP_ONESHOTM) ? kbd->config.oneshot_timeout : dd.args[2].timeout), "at the time the action asks for");
		}
	}
	if (kv_on("K09") && !kv_replacing()) {
		uint32_t was = kvs_is_layer() ? KV_OLD(LSI.oneshot_depth) : 0;
		if (pressed && (op == OP_KEYSEQUENCE || op == OP_MACRO || op == OP_MACRO2 || op == OP_TOGGLE || op == OP_TOGGLEM || op == OP_COMMAND || op == OP_CLEAR || op == OP_CLEARM || op == OP_LAYOUT)) {
			ENS("K09", LSI.oneshot_depth == KV_OLD(LSI.oneshot_depth) - was, "pending oneshots are used up");
			ENS("K09", (kbd->oneshot_latch == 0) & (kbd->oneshot_timeout == 0), "a oneshot key still held will not become pending");
		}
		if (pressed && (op == OP_KEYSEQUENCE || op == OP_MACRO || op == OP_MACRO2 || op == OP_COMMAND))
			ENS("K09", LSI.active == KV_OLD(LSI.active) - was, "other activations are kept");
		if (op == OP_ONESHOT || op == OP_ONESHOTM) {
			int me = kvg_i == dd.args[0].idx;
			if (pressed) {
				ENS("K09", (kbd->oneshot_latch == 1) & (LSI.oneshot_depth == KV_OLD(LSI.oneshot_depth)) & (LSI.active == KV_OLD(LSI.active) + me),
					"the layer is active while its key is held, and will be pending if no other key is struck");
				ENS("K09", kbd->oneshot_timeout == KV_OLD(kbd->oneshot_timeout), "pending oneshots keep their deadline");
			} else {
				int latched = KV_OLD(kbd->oneshot_latch) != 0;
				ENS("K09", LSI.oneshot_depth == KV_OLD(LSI.oneshot_depth) + (me & latched), "the oneshot becomes pending if no key was struck");
				ENS("K09", LSI.active == KV_OLD(LSI.active) - (me & !latched), "and ends with its key otherwise");
				ENS("K09", kbd->oneshot_timeout == (latched & (kbd->config.oneshot_timeout != 0) ? time + kbd->config.oneshot_timeout : KV_OLD(kbd->oneshot_timeout)),
					"its deadline counts from its release");
			}
		}
		if (op == OP_LAYER || op == OP_LAYERM || (op == OP_OVERLOAD && pressed) || op == OP_TIMEOUT || op == OP_OVERLOAD_TIMEOUT || op == OP_OVERLOAD_TIMEOUT_TAP ||
		    op == OP_SCROLL || op == OP_SCROLL_TOGGLE ||
		    (!pressed && op != OP_ONESHOT && op != OP_ONESHOTM && op != OP_OVERLOAD))
			ENS("K09", (LSI.oneshot_depth == KV_OLD(LSI.oneshot_depth)) & (kbd->oneshot_latch == KV_OLD(kbd->oneshot_latch)) &
				(kbd->oneshot_timeout == KV_OLD(kbd->oneshot_timeout)), "oneshots stay pending");
	}
	if (kv_replacing())
		kv_symptr(&kbd->active_macro, kbd->config.macros, 256, 1, "pd.active_macro");
	DEF("*", kbd->inhibit_modifier_guard, 0, "guard re-enabled");
	/* what is recorded about the keys */
	for (i = 0; i < CACHE_SIZE; i++) {
		int mine = kbd->cache[i].code == code;
		/* swap: at most the key which held the swapped layer is recorded anew */
		int sw = pressed & swaps & (kv_replacing() | !kv_param(8) | !((op == OP_SWAP) | (op == OP_SWAPM)) |
					    ((kv_param(8) == 2) & ((int)i == kv_param(2) - 3)));
		int may = (mine & chg & pressed) | sw | ((op == OP_OVERLOAD) & !pressed);
		int mayl = may | (mine & acts & pressed) | (kbd->cache[i].code == 0);
		if (kv_replacing()) {
			if (!may)
				kbd->cache[i].d = KV_OLD(kbd->cache[i].d);
			if (!mayl)
				kbd->cache[i].layer = KV_OLD(kbd->cache[i].layer);
		} else {
			ENS("*", may | kvs_desc_eq(&kbd->cache[i].d, &KV_OLD(kbd->cache[i].d)), "recorded operations are kept");
			ENS("*", mayl | (kbd->cache[i].layer == KV_OLD(kbd->cache[i].layer)), "recorded layers are kept");
		}
		ENS("*", kvs_slot_ok(i), "well formed key cache");
		ENS("*", kvs_pending_cached_ok(i), "the pending key has had no effect yet");
	}
	if (kv_replacing() & !(swaps)) {
		kvg_held = KV_OLD(kvg_held);
		kvg_settled = KV_OLD(kvg_settled);
	}
	if (chg | (op == OP_OVERLOAD)) {
		kvs_own(code, &dd, &after);
	} else {
		struct descriptor rec;
		kvs_own(code, &dd, &rec);
		ENS("*", kvs_desc_eq(&rec, &dd), "a pressed key keeps its operation");
		if (kv_replacing())
			after = rec;
	}
	ENS("*", kvs_misc_ok(), "engine state within bounds");
	ENS("*", kvs_pending_ok(), "well formed pending key");
	ENS("*", IMP(!def, kbd->pending_key.code == KV_OLD(kbd->pending_key.code)), "no key becomes pending");
	ENS("*", IMP(def & !pressed, kbd->pending_key.code == KV_OLD(kbd->pending_key.code)), "no key becomes pending on release");
	ENS("*", (kbd->pending_key.code == KV_OLD(kbd->pending_key.code)) | (kbd->pending_key.code == code), "only this key can become pending");
	ENS("K01 K12", kvs_bal(code, pressed ? kvs_holds(&after, kvg_i) : 0), "layer activations are balanced");
	ENS("K01", IMP(kvs_nl() & (kvg_i != 0), kvg_lc - kbd->layer_state[kvg_i].active ==
		KV_OLD(kvg_lc) - KV_OLD(kbd->layer_state[kvg_i].active)), "listeners told");
	ENS("K02", kvs_key_ok(code, pressed & kvs_maps(&after, kvg_k)), "a key down on the output is held on the input");
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	ENS("K02", kvs_mods_ok(code, pressed & kvs_settles(&after)), "no stray modifier");
	if (kv_on("K03") && !kv_replacing()) {
		if (pressed && plain) {
			ENS("K03", kvs_keymods() == (km & kvs_allmods()), "a key is sent with the modifiers of its mapping and of the other layers");
			ENS("K03", IMP(ag & (d->args[0].code == kvg_k), (kvg_ndown == KV_OLD(kvg_ndown) + 1) & (kvg_mods_at_down == (km & kvs_allmods()))),
				"they are down when the key goes down");
		}
		if (op == OP_KEYSEQUENCE && !pressed)
			ENS("K03", kvs_keymods() == (kvs_active_mods(-1) & kvs_allmods()), "after its release the modifiers are those of the active layers");
		if (op == OP_LAYER || op == OP_LAYERM || (pressed && (op == OP_OVERLOAD || op == OP_TOGGLE || op == OP_TOGGLEM || op == OP_COMMAND || op == OP_CLEARM)))
			ENS("K03", kvs_keymods() == (kvs_active_mods(-1) & kvs_allmods()), "the modifiers are those of the active layers");
		if (pressed && (op == OP_ONESHOT || op == OP_ONESHOTM))
			ENS("K03", kvs_keymods() == (kvs_active_mods(dl & (MAX_LAYERS - 1)) & kvs_allmods()), "the modifiers are those of the active layers but the one of the mapping");
		if (op == OP_KEYSEQUENCE || op == OP_LAYER || op == OP_TOGGLE || op == OP_ONESHOT || op == OP_SWAP)
			ENS("K03", IMP(ag, kvs_mods_agree()), "the device has the modifiers the engine believes down");
	}
	return ret;
}
