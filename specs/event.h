/* Events: the engine invariant is kept by every event, and a release undoes the action of its own press (K05).
 * Included after lookup.h. */

/* the engine between two events */
static int kvs_chords_wf(size_t i)
{
	const struct active_chord *c = &KB->active_chords[i];
	return kvs_desc_wf(&c->chord.d) & kvs_desc_nl(&c->chord.d) & kvs_overload_ok(&c->chord.d) & kvs_in(c->layer, MAX_LAYERS) & (c->chord.sz <= 8);
}

static int kvs_km_wf(size_t i, void *c)
{
	const struct descriptor *d = &KB->config.layers[i >> 8].keymap[i & 255];
	return kvs_desc_wf(d) & kvs_desc_nl(d) & kvs_overload_ok(d);
}

static int kvs_times_ok(size_t i, void *c) { return KB->layer_state[i].activation_time >= 0; }

/* `what` is REQ or ENS */
#define KVS_INV(WHAT) do { \
	size_t q_; \
	for (q_ = 0; q_ < CACHE_SIZE; q_++) { \
		WHAT("*", kvs_slot_ok(q_), "well formed key cache"); \
		WHAT("*", kvs_pending_cached_ok(q_), "the pending key has had no effect yet"); \
	} \
	WHAT("*", kvs_distinct(), "no key is recorded twice"); \
	WHAT("*", kvs_misc_ok(), "engine state within bounds"); \
	WHAT("*", kvs_pending_ok() & (KB->pending_key.queue_sz < 32), "well formed pending key"); \
	WHAT("*", kvs_chord_ok(), "well formed chord state"); \
	WHAT("K01 K12", kvs_bal(0, 0), "layer activations are balanced"); \
	WHAT("K02", kvs_key_ok(0, 0), "a key down on the output is held on the input"); \
	WHAT("K02", kvs_mods_ok(0, 0), "no stray modifier"); \
} while (0)

static int kvs_chord_ok(void)
{
	size_t i;
	int ok = (KB->chord.queue_sz <= 32);
	for (i = 0; i < ARRAY_SIZE(KB->active_chords); i++)
		ok &= kvs_chords_wf(i);
	return ok;
}

/* K05: the one call of process_descriptor (recorded by its contract) and of lookup_descriptor */
struct kvs_log {
	unsigned n;	/* calls */
	struct descriptor d;
	int dl, pressed, rec, others, rest;
	long time;
	uint8_t code;
	unsigned lk_n;
	struct descriptor lk_d;
	int lk_dl;
	uint8_t lk_code;
	/* the state once chords and the pending key have had their turn */
	int was_rec, full;
	struct cache_entry was, c0[CACHE_SIZE];
	uint32_t depth, active;
	long oneshot_timeout, macro_timeout;
	int macro;
	size_t nr;
} kvg_log;
#define L kvg_log

static void kvs_entry(uint8_t code, struct cache_entry *e)
{
	size_t i;
	e->d.op = 0;
	e->dl = 0;
	for (i = 0; i < CACHE_SIZE; i++)
		if (KB->cache[i].code == code)
			*e = KB->cache[i];
}

static int kvs_full(void)
{
	size_t i;
	int r = 1;
	for (i = 0; i < CACHE_SIZE; i++)
		r &= KB->cache[i].code != 0;
	return r;
}

/* the records of the other keys are those of the snapshot */
static int kvs_others_kept(void)
{
	size_t i;
	int r = 1;
	for (i = 0; i < CACHE_SIZE; i++) {
		const struct cache_entry *a = &KB->cache[i], *b = &L.c0[i];
		int mine = ((a->code == 0) | (a->code == kvg_ecode)) & ((b->code == 0) | (b->code == kvg_ecode));
		r &= mine | ((a->code == b->code) & kvs_desc_eq(&a->d, &b->d) & (a->dl == b->dl) & (a->layer == b->layer));
	}
	return r;
}

static int kvs_timed_op(int op) { return (op == OP_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT) | (op == OP_OVERLOAD_TIMEOUT_TAP); }
static int kvs_expired(long time) { return (L.oneshot_timeout != 0) & (time >= L.oneshot_timeout); }
static int kvs_oneshots_ok(long time)
{
	struct keyboard *kbd = KB;
	uint32_t d = kvs_expired(time) ? (kvs_is_layer() ? L.depth : 0) : 0;
	return (LSI.oneshot_depth == L.depth - d) & (LSI.active == L.active - d) & (KB->oneshot_timeout == (kvs_expired(time) ? 0 : L.oneshot_timeout));
}

static void kv_snapshot(void)
{
	size_t i;
	struct keyboard *kbd = KB;
	L.n = L.lk_n = 0;
	L.was_rec = kvs_cached(kvg_ecode);
	kvs_entry(kvg_ecode, &L.was);
	L.full = kvs_full();
	for (i = 0; i < CACHE_SIZE; i++)
		L.c0[i] = KB->cache[i];
	L.depth = LSI.oneshot_depth;
	L.active = LSI.active;
	L.oneshot_timeout = KB->oneshot_timeout;
	L.macro = KB->active_macro != NULL;
	L.macro_timeout = KB->macro_timeout;
	L.nr = KB->nr_timeouts;
	kv_assume(kvg_j == L.nr);	/* kvg_j is arbitrary */
}

static void kv_lk_called(uint8_t code, const struct descriptor *d, int dl)
{
	L.lk_n++;
	L.lk_code = code;
	L.lk_d = *d;
	L.lk_dl = dl;
}

static void kv_pd_called(uint8_t code, const struct descriptor *d, int dl, int pressed, long time)
{
	struct cache_entry e;
	struct keyboard *kbd = KB;
	if (kv_param(3) != 3)
		return;
	kvs_entry(code, &e);
	L.n++;
	L.d = *d;
	L.dl = dl;
	L.pressed = pressed;
	L.code = code;
	L.time = time;
	L.rec = kvs_cached(code) & kvs_desc_eq(&e.d, d) & (e.dl == dl);
	REQ("*", kvs_others_kept(), "the records of other keys are kept");
	REQ("K09", kvs_oneshots_ok(time), "expired oneshots are gone before the next key is acted on, others stay");
}

static void kv_assigns_engine(struct keyboard *kbd)
{
	kv_assigns_clear(kbd);
	kv_assigns(kbd->cache, sizeof kbd->cache);
	kv_assigns(&kbd->last_pressed_output_code, 1);
	kv_assigns(&kbd->last_pressed_code, 1);
	kv_assigns(&kbd->active_macro_layer, sizeof(int));
	kv_assigns(&kbd->macro_timeout, sizeof(long));
	kv_assigns(&kbd->macro_repeat_interval, sizeof(long));
	kv_assigns(&kbd->overload_start_time, sizeof(long));
	kv_assigns(&kbd->last_simple_key_time, sizeof(long));
	kv_assigns(&kbd->nr_timeouts, sizeof(size_t));
	kv_assigns(kbd->timeouts, sizeof kbd->timeouts);
	kv_assigns(kbd->active_chords, sizeof kbd->active_chords);
	kv_assigns(&kbd->chord, sizeof kbd->chord);
	kv_assigns(&kbd->pending_key, sizeof kbd->pending_key);
	kv_assigns(&kbd->scroll.sensitivity, sizeof(int));
	kv_assigns(&kbd->scroll.active, sizeof(int));
	kv_assigns(&kbd->inhibit_modifier_guard, 1);
	kv_assigns_col(&kbd->layer_state[0].activation_time, MAX_LAYERS);
	kv_assigns(&kvg_now, sizeof kvg_now);
	kv_assigns(&kvg_held, sizeof kvg_held);
	kv_assigns(&kvg_settled, 1);
	kv_assigns(&kvg_keyheld, 1);
	kv_assigns(&kvg_time, sizeof kvg_time);
	kv_assigns(&kvg_nrc, sizeof kvg_nrc);
	kv_assigns(&kvg_at, sizeof kvg_at);
}

static void kv_assigns_log(void)
{
	kv_assigns(&kvg_log, sizeof kvg_log);
}

static void kv_hints(void)
{
	size_t i;
	kv_hint(KB->config.nr_layers == 2);
	kv_hint(KB->pending_key.code == 0);
	kv_hint(kvg_held == 0);
	kv_hint(KB->layer_state[0].active == 1);
	kv_hint(KB->layer_state[1].active == 0);
	kv_hint(KB->oneshot_timeout == 0);
	for (i = 0; i < CACHE_SIZE; i++)
		kv_hint(KB->cache[i].code == 0);
}

static int kvc_handle_chord(struct keyboard *kbd, uint8_t code, int pressed, long time)
{
	int r, ng = kvs_ng();
	KVS_INV(REQ);
	kv_assigns_engine(kbd);
	r = handle_chord(kbd, code, pressed, time);
	if (kv_replacing()) {
		/* parameter 3: which of the two deals with the event (1, 2) or that neither does (3) */
		if (kv_param(3) > 1) {
			kv_assume(r == 0);
			r = 0;
		} else if (kv_param(3)) {
			kv_assume(r != 0);
		}
		kv_bounds();
		kv_hints();
	}
	if (kv_replacing())
		kv_symptr(&kbd->active_macro, kbd->config.macros, 256, 1, "hc.active_macro");
	DEF("*", kbd->inhibit_modifier_guard, 0, "guard re-enabled");
	KVS_INV(ENS);
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	return r;
}

static int kvc_handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long time)
{
	int r, ng = kvs_ng();
	KVS_INV(REQ);
	kv_assigns_engine(kbd);
	kv_assigns_log();
	r = handle_pending_key(kbd, code, pressed, time);
	if (kv_replacing()) {
		/* parameter 3: which of the two deals with the event (1, 2) or that neither does (3) */
		if (kv_param(3) > 2) {
			kv_assume(r == 0);
			r = 0;
		} else if (kv_param(3)) {
			kv_assume(r != 0);
		}
		kv_bounds();
		kv_hints();
	}
	if (kv_replacing())
		kv_symptr(&kbd->active_macro, kbd->config.macros, 256, 1, "hp.active_macro");
	DEF("*", kbd->inhibit_modifier_guard, 0, "guard re-enabled");
	KVS_INV(ENS);
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	ENS("*", IMP(!r, (kbd->pending_key.code == 0) | (!pressed & (code != 0) & (code != kbd->pending_key.code))), "while a key is pending only releases of earlier keys go past it");
	if (kv_replacing() && kv_param(3) == 3)
		kv_snapshot();
	return r;
}

static long kvc_process_event(struct keyboard *kbd, uint8_t code, int pressed, long time)
{
	long r;
	int ng = kvs_ng();
	REQ("*", (pressed == 0) | (pressed == 1), "press or release");
	KVS_INV(REQ);
	kv_bounds();
	kv_assigns_engine(kbd);
	kv_assigns_log();
	r = process_event(kbd, code, pressed, time);
	if (kv_replacing())
		kv_symptr(&kbd->active_macro, kbd->config.macros, 256, 1, "pe.active_macro");
	DEF("*", kbd->inhibit_modifier_guard, 0, "guard re-enabled");
	KVS_INV(ENS);
	ENS("K02", IMP(ng, kvs_ng()), "nothing left down on the device");
	if (kv_param(3) == 3 && !kv_replacing()) {
		int none = L.n == 0;
		if (code == 0) {
			ENS("K05", none, "the passing of time presses and releases no key");
		} else if (pressed) {
			ENS("K05", IMP(L.was_rec, none), "a press of a key that is down already is not acted on");
			ENS("K05", IMP(!L.was_rec & !L.full, (L.n == 1) & (L.code == code) & (L.pressed == 1) & (L.time == time)), "a press is acted on once");
			ENS("K05", none | ((L.lk_n == 1) & (L.lk_code == code) & kvs_desc_eq(&L.d, &L.lk_d) & (L.dl == L.lk_dl)), "with the action the key resolves to");
			ENS("K05", none | L.rec, "which is on record before it is carried out");
			ENS("K05", IMP(L.full & !L.was_rec, none), "and not at all if it cannot be recorded");
		} else {
			ENS("K05", IMP(!L.was_rec, none), "a release whose press is not on record does nothing");
			ENS("K05", IMP(L.was_rec, (L.n == 1) & (L.code == code) & (L.pressed == 0) & (L.time == time)), "a release is acted on once");
			ENS("K05", IMP(L.was_rec, kvs_desc_eq(&L.d, &L.was.d) & (L.dl == L.was.dl)), "with the action and layer its press resolved to");
		}
		ENS("*", IMP(none, kvs_others_kept()), "the records of other keys are kept");
		ENS("K09", IMP(none, kvs_oneshots_ok(time)), "expired oneshots are gone, others stay");
		if (kv_on("K10")) {
			long exp = kbd->macro_timeout;
			int rep = (code == 0) & L.macro & (time >= L.macro_timeout);
			ENS("K10", IMP(rep, exp == time + kbd->macro_repeat_interval), "a repeating macro is due again after its interval");
			ENS("K10", IMP(rep & (L.nr < 64), kvg_nrc == L.nr + 1), "and that is a deadline");
			exp = kbd->pending_key.expire;
			ENS("K10", IMP((code != 0) & pressed & (L.n == 1) & (kbd->pending_key.code == code) & kvs_timed_op(L.d.op) & (L.nr < 64), kvg_nrc == L.nr + 1),
				"the decision about a pending key is a deadline");
		}
	}
	if (kv_on("K10"))
		ENS("K10", (r >= 0) & ((r == 0) == (kbd->nr_timeouts == 0)), "sleeps for good only if no deadline is left");
	return r;
}
