#define KV_PD_CALLED
#include "engine.h"

void kvt_set_mods(void)
{
	kv_setup();
	kvc_set_mods(KB, kv_u8("mods"));
	kv_cover("end");
}

void kvt_update_mods(void)
{
	kv_setup();
	kvc_update_mods(KB, kv_int("excl"), kv_u8("mods"));
	kv_cover("end");
}

void kvt_deactivate_layer(void)
{
	kv_setup();
	kvc_deactivate_layer(KB, kv_int("idx"));
	kv_cover("end");
}

void kvt_clear_oneshot(void)
{
	kv_setup();
	kvc_clear_oneshot(KB);
	kv_cover("end");
}

void kvt_reset_keystate(void)
{
	kv_setup();
	kvc_reset_keystate(KB);
	kv_cover("end");
}

void kvt_clear(void)
{
	kv_setup();
	kvc_clear(KB);
	kv_cover("end");
}

void kvt_setlayout(void)
{
	kv_setup();
	kvc_setlayout(KB, kv_u8("idx"));
	kv_cover("end");
}

void kvt_get_time(void)
{
	long a = get_time();
	long b = get_time();
	kv_assume(a < 0x7fffffffffffffffL);
	kv_assert(b == a + 1, "the activation clock advances by one per reading", "*");
	kv_cover("end");
}

void kvt_activate_layer(void)
{
	kv_setup();
	kvc_activate_layer(KB, kv_u8("code"), kv_int("idx"));
	kv_cover("end");
}

void kvt_schedule_timeout(void)
{
	kvg_j = kv_u64("kvg_j");
	kvc_schedule_timeout(KB, kv_long("timeout"));
	kv_cover("end");
}

void kvt_calculate_main_loop_timeout(void)
{
	kv_flat(KB->timeouts);
	kvg_j = kv_u64("kvg_j");
	kvg_p = kv_u64("kvg_p");
	kvc_calculate_main_loop_timeout(KB, kv_long("time"));
	kv_cover("end");
}

void kvt_execute_macro(void)
{
	uint8_t i = kv_u8("macro");
	kv_setup();
	kv_setup_desc();
	kvc_execute_macro(KB, kv_int("dl"), &KB->config.macros[i]);
	kv_cover("end");
}

/* the key in slot i holds layer l and would be switched over by swap() */
static int kvs_swap_match(size_t i, int dl)
{
	uint8_t code = KB->cache[i].code;
	int layer = KB->cache[i].layer;
	int type;

	kv_assume(kvs_in(layer, MAX_LAYERS));	/* required of the caller below */
	type = KB->config.layers[layer].type;
	return code && layer == dl && type == LT_NORMAL && layer != 0;
}

static void kv_swap_case(int dl, int which)
{
	int l = dl & (MAX_LAYERS - 1);
	size_t i;

	if (which == 0) {
		kv_assume(KB->layer_state[l].toggled != 0);
		return;
	}
	kv_assume(KB->layer_state[l].toggled == 0);
	if (which == 1) {
		kv_assume(KB->layer_state[l].oneshot_depth != 0);
		return;
	}
	kv_assume(KB->layer_state[l].oneshot_depth == 0);
	for (i = 0; i < CACHE_SIZE; i++) {
		if (which == (int)i + 3) {
			kv_assume(kvs_swap_match(i, dl));
			return;
		}
		kv_assume(!kvs_swap_match(i, dl));
	}
}

/* process_descriptor: parameter 0 = operation, parameter 1 = pressed */
void kvt_process_descriptor(void)
{
	struct descriptor d;
	int pressed = kv_param(1), dl = kv_int("dl");
	uint8_t code = kv_u8("code");
	size_t i;
	kv_setup();
	kv_setup_desc();
	kv_setup_ptrs();
	kv_flat(KB->timeouts);
	kvg_j = kv_u64("kvg_j");
	d.op = kv_param(0);
	d.args[0].idx = kv_int("arg0");
	d.args[1].idx = kv_int("arg1");
	d.args[2].idx = kv_int("arg2");
	/* swap: one task per outcome of the search for the key which holds the layer (parameter 2) */
	if (pressed & ((d.op == OP_SWAP) | (d.op == OP_SWAPM)))
		kv_swap_case(dl, kv_param(2));
	kv_hint(KB->config.nr_layers == 2);
	for (i = 0; i < CACHE_SIZE; i++)
		kv_hint((i == 3) & pressed ? KB->cache[i].code == code : KB->cache[i].code == 0);
	kvc_process_descriptor(KB, code, &d, dl, pressed, kv_long("time"));
	kv_cover("end");
}

#include "lookup.h"
#include "event.h"
/* parameter 1: press (1), release (0) or the passing of time (2) */
void kvt_process_event(void)
{
	int pressed = kv_param(1) == 1;
	uint8_t code = kv_u8("code");
	kv_flat(KB->timeouts);
	kv_setup();
	kvg_j = kv_u64("kvg_j");
	kv_setup_desc();
	kv_setup_ptrs();
	kv_assume((code == 0) == (kv_param(1) == 2));
	kv_assume(kvg_ecode == code);
	kv_hints();
	kv_hint(code == 30 || code == 0);
	kv_hint(kvg_i == 1);
	kv_hint(kvg_k == 30);
	kv_hint(kvg_held == 0);
	kvc_process_event(KB, code, pressed, kv_long("time"));
	kv_cover("end");
}

void kvt_lookup_descriptor(void)
{
	kv_setup();
	kvg_code = kv_u8("code");
	kvg_dl = kv_int("dl");
	if (!kv_on("K04")) {
		kv_setup_desc();
		kv_assume(kv_forall(MAX_LAYERS * 256, kvs_km_wf, 0));
		kv_assume(kvs_chord_ok());
	}
	kv_hint(KB->config.nr_layers == 2);
	kv_hint(kvg_code == 30);
	kv_hint(KB->layer_state[1].active == 0);
	kv_hint(KB->layer_state[0].active == 1);
	kvc_lookup_descriptor(KB, kvg_code, &kvg_d, &kvg_dl);
	kv_cover("end");
}
