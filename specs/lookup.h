/* K04: which binding a key resolves to */
struct descriptor kvg_d;
int kvg_dl;
uint8_t kvg_code;

static int kvs_ischord(uint8_t code) { return (code >= KEYD_CHORD_1) & (code <= KEYD_CHORD_MAX); }
static int kvs_binds(size_t l) { return KB->config.layers[l].keymap[kvg_code].op != 0; }
static int kvs_active(size_t l) { return KB->layer_state[l].active != 0; }
static int kvs_ab(size_t l) { return kvs_active(l) & kvs_binds(l); }
static long kvs_time(size_t l) { return KB->layer_state[l].activation_time; }
static size_t kvs_ncons(size_t l) { return KB->config.layers[l].nr_constituents; }
static size_t kvs_dli(void) { return kvg_dl & (MAX_LAYERS - 1); }

struct kvs_cons { size_t l, n; };
static int kvs_con_active(size_t j, void *c)
{
	const struct kvs_cons *k = c;
	const struct layer *y = &KB->config.layers[k->l];
	return IMP((j < k->n) & (j < y->nr_constituents), kvs_active(y->constituents[j]));
}
static int kvs_cons_active(size_t l, size_t n)
{
	struct kvs_cons k = { l, n };
	return kv_forall(8, kvs_con_active, &k);
}
/* a composite layer whose constituents are all active and which binds the key */
static int kvs_comp(size_t l)
{
	const struct layer *y = &KB->config.layers[l];
	return (y->type == LT_COMPOSITE) & kvs_binds(l) & (y->nr_constituents > 0) & kvs_cons_active(l, 8);
}
static int kvs_d_is(size_t l) { return kvs_desc_eq(&kvg_d, &KB->config.layers[l].keymap[kvg_code]); }
static int kvs_dl_in(void) { return (kvg_dl >= 0) & ((size_t)kvg_dl < KB->config.nr_layers); }
static int kvs_time_ok(size_t i, void *c) { return KB->layer_state[i].activation_time >= 0; }
/* newer than g (a tie goes to the later layer) / more constituents than g (a tie goes to the earlier layer) */
static int kvs_newer(size_t a, size_t g) { return (kvs_time(a) > kvs_time(g)) | ((kvs_time(a) == kvs_time(g)) & (a >= g)); }
static int kvs_more(size_t a, size_t g) { return (kvs_ncons(a) > kvs_ncons(g)) | ((kvs_ncons(a) == kvs_ncons(g)) & (a <= g)); }

/* loop invariants.  kvg_i stands for any layer, kvg_r for the layer that is finally chosen (a prophecy: it is
 * unconstrained until the end), v64__<name> for the local <name> (any 64 bit local if there is none). */
size_t kvg_r;
static int kvs_r(void) { return (kvg_d.op != 0) & ((size_t)kvg_dl == kvg_r) & (kvg_r < MAX_LAYERS); }
static int kvs_g(void) { return kvs_is_layer() & kvs_ab(kvg_i); }
static int kvinv_lookup_descriptor_n(size_t *v64__i) { return *v64__i <= KB->config.nr_layers; }
static int kvinv_lookup_descriptor_in(void) { return IMP(kvg_d.op != 0, kvs_dl_in()); }
static int kvinv_lookup_descriptor_d(void) { return IMP(kvs_r(), kvs_d_is(kvg_r)); }
static int kvinv_lookup_descriptor_sel(long *v64__maxts) { if (!kv_on("K04")) return 1; return IMP(kvs_r(), kvs_ab(kvg_r) & (kvs_time(kvg_r) == *v64__maxts)); }
static int kvinv_lookup_descriptor_sel0(long *v64__maxts, size_t *v64__max) { if (!kv_on("K04")) return 1; return IMP((*v64__max == 0) & kvs_r(), kvs_ab(kvg_r) & (kvs_time(kvg_r) == *v64__maxts)); }
static int kvinv_lookup_descriptor_zero(long *v64__maxts) { if (!kv_on("K04")) return 1; return IMP(kvg_d.op == 0, *v64__maxts == 0) & (*v64__maxts >= 0); }
static int kvs_newest(long maxts) { return (maxts > kvs_time(kvg_i)) | ((maxts == kvs_time(kvg_i)) & ((size_t)kvg_dl >= kvg_i)); }
static int kvinv_lookup_descriptor_seen(size_t *v64__i, long *v64__maxts) { if (!kv_on("K04")) return 1; return IMP((kvg_i < *v64__i) & kvs_g(), (kvg_d.op != 0) & kvs_newest(*v64__maxts)); }
static int kvinv_lookup_descriptor_seen0(size_t *v64__max, long *v64__maxts) { if (!kv_on("K04")) return 1; return IMP((*v64__max == 0) & kvs_g(), (kvg_d.op != 0) & kvs_newest(*v64__maxts)); }
static int kvinv_lookup_descriptor_le(size_t *v64__i) { return IMP(kvg_d.op != 0, (size_t)kvg_dl < *v64__i); }
static int kvinv_lookup_descriptor_cle(size_t *v64__i, size_t *v64__max) { if (!kv_on("K04")) return 1; return IMP(*v64__max != 0, ((size_t)kvg_dl < *v64__i) & (kvg_d.op != 0)); }
static int kvinv_lookup_descriptor_comp(size_t *v64__max) { if (!kv_on("K04")) return 1; return IMP((*v64__max != 0) & kvs_r(), kvs_comp(kvg_r) & (kvs_ncons(kvg_r) == *v64__max)); }
static int kvinv_lookup_descriptor_cseen(size_t *v64__i, size_t *v64__max)
{ if (!kv_on("K04")) return 1;
	return IMP((kvg_i < *v64__i) & kvs_is_layer() & kvs_comp(kvg_i),
		(*v64__max > kvs_ncons(kvg_i)) | ((*v64__max == kvs_ncons(kvg_i)) & ((size_t)kvg_dl <= kvg_i)));
}
static int kvinv_lookup_descriptor_match(size_t *v64__i, size_t *v64__j, int *v32__match)
{ if (!kv_on("K04")) return 1;
	return IMP(*v64__i < MAX_LAYERS, (*v32__match != 0) == kvs_cons_active(*v64__i & (MAX_LAYERS - 1), *v64__j));
}
static int kvinv_lookup_descriptor_j(size_t *v64__i, size_t *v64__j)
{
	return IMP(*v64__i < MAX_LAYERS, *v64__j <= KB->config.layers[*v64__i & (MAX_LAYERS - 1)].nr_constituents);
}

static void kv_lk_called(uint8_t code, const struct descriptor *d, int dl);

static void kvc_lookup_descriptor(struct keyboard *kbd, uint8_t code, struct descriptor *d, int *dl)
{
	REQ("K04", kv_forall(MAX_LAYERS, kvs_time_ok, 0), "activation times are not negative");
	kv_assigns(d, sizeof *d);
	kv_assigns(dl, sizeof *dl);
	lookup_descriptor(kbd, code, d, dl);
	if (!kv_replacing())
		kv_assume(((size_t)kvg_dl == kvg_r) | kvs_ischord(code) | !kvs_dl_in());
	ENS("K01 K02 K05 K09 K10", kvs_desc_wf(d) & kvs_desc_nl(d) & kvs_overload_ok(d) & kvs_in(*dl, MAX_LAYERS), "a well formed binding of a layer");
	if (kv_replacing() && kv_param(8) == 3)
		kv_lk_called(code, d, *dl);
	if (!kv_replacing()) {
		int chord = kvs_ischord(code), comp, g = kvs_is_layer() & !chord;
		size_t r;
		ENS("K04", chord | kvs_dl_in(), "the reported layer exists");
		r = kvg_r & (MAX_LAYERS - 1);
		comp = kvs_comp(r);
		ENS("K04", IMP(g & kvs_comp(kvg_i), comp & kvs_more(r, kvg_i)), "composite layers take precedence, the one with most constituents first");
		ENS("K04", IMP(g & kvs_ab(kvg_i), comp | (kvs_ab(r) & kvs_newer(r, kvg_i))), "the most recently activated layer that binds the key");
		ENS("K04", chord | IMP((kvg_i == r) & (comp | kvs_ab(r)), kvs_d_is(r)), "the binding of the layer it came from");
		ENS("K04", chord | comp | kvs_ab(r) | ((*dl == 0) & (d->op == OP_KEYSEQUENCE) & (d->args[0].code == code) & (d->args[1].mods == 0)),
			"a key no active layer binds stands for itself");
		ENS("K04", IMP(chord, kvs_desc_eq(d, &kbd->active_chords[(uint8_t)(code - KEYD_CHORD_1) & 15].chord.d) &
			(*dl == kbd->active_chords[(uint8_t)(code - KEYD_CHORD_1) & 15].layer)), "a chord stands for its own binding");
	}
}
