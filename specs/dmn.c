/* D04, D05, D06: the daemon (daemon.c) */
#include "keyd.h"
#include "kv.h"
#include <sys/time.h>
#define exit kvs_exit
#define die kvs_die
#define close kvs_close
#undef vsnprintf
#define vsnprintf(b, n, f, a) kvs_vsnprintf(b, n, f)
int kvs_vsnprintf(char *b, size_t n, const char *f);
int kvs_close(int fd);
void kvs_exit(int c) { kv_assert(0, "the daemon goes on", "D04 D05 D06"); kv_stop(); }
void kvs_die(const char *f, ...) { kvs_exit(0); }
int kvs_dprintf(int fd, const char *fmt, const char *name);
#define dprintf(fd, fmt, name) kvs_dprintf(fd, fmt, name)
#include "util.c"
#include "string.c"
#include "daemon.c"
#undef dprintf

#define INV2(c) ((kv_param(0) == 1) | (c))
#define ASRT(P, c, l) do { if (kv_on(P)) kv_assert(c, l, P); } while (0)

struct keyboard kvg_kbd;
struct layer kvg_layer0, *kvg_layer;
int kvg_fd;		/* any file descriptor */
size_t kvg_ch;		/* any position in a line */
uint32_t kvg_wr;	/* ghost: number of lines written to kvg_fd */
uint8_t kvg_okline;	/* ghost: the last line written to kvg_fd was the right one, and was accepted in full */
uint32_t kvg_closed;	/* ghost: how often kvg_fd was closed */
uint32_t kvg_led;
size_t kvg_acc;	/* ghost: listeners that accepted the line so far */
uint8_t kvg_rcvto;	/* ghost: the client's read timeout is set */
uint8_t kvg_sndto;	/* ghost: its write timeout is set */
uint8_t kvg_lines;	/* ghost: has a new listener been told anything */
uint32_t kvg_told;	/* ghost: how often it was told about layer kvg_lay */
size_t kvg_layout;	/* ghost: the layout it was told */
size_t kvg_pos;	/* ghost: kvg_acc when it was kvg_fd's turn */

/* ---- D05: layer listeners */
uint8_t kvg_state;

static size_t kvs_namelen(void) { return strlen(kvg_layer->name); }
static int kvs_layout(void) { return kvg_layer->type == LT_LAYOUT; }
static char kvs_linechar(size_t k)
{
	size_t n = kvs_namelen();
	if (k == 0)
		return kvs_layout() ? '/' : kvg_state ? '+' : '-';
	if (k == n + 1)
		return '\n';
	return kvg_layer->name[k - 1 < 64 ? k - 1 : 64];
}

ssize_t write(int fd, const void *buf, size_t n)
{
	ssize_t r = kv_long("nw");
	size_t len = kv_param(0) == 1 ? kvs_namelen() + 2 : 0;
	kv_assume((r >= -1) & (r <= (ssize_t)n));
	if (kv_param(0) == 1) {
	ASRT("D05", n == len, "a line is the layer name, a sign and a line end");
	ASRT("D05", (kvg_ch >= len) || (((const char *)buf)[kvg_ch & 127] == kvs_linechar(kvg_ch)), "the line names the layer and says whether it became active");
		return r;
	}
	kvg_acc += r == (ssize_t)n;
	if (fd == kvg_fd) {
		kvg_pos = kvg_acc - 1;
		ASRT("D05", kvg_closed == 0, "not written to after it was dropped");
		kvg_wr++;
		kvg_okline = r == (ssize_t)n;
	}
	return r;
}
int kvs_close(int fd)
{
	if (fd == kvg_fd)
		kvg_closed++;
	return kv_int("close");
}
void device_set_led(const struct device *dev, int led, int state) { kvg_led++; }

/* kvg_fd is listener number kvg_l (one of 32) and no other */
size_t kvg_l;
size_t kvg_j;	/* any position among those kept */
static int kvs_other(size_t i, void *c) { return (i >= nr_listeners) | (i == kvg_l) | (listeners[i] != kvg_fd); }

static int kvinv_on_layer_change_n(size_t *v64__n) { return INV2(*v64__n == kvg_acc); }
static int kvinv_on_layer_change_n0(size_t *v64__n, size_t *v64__i) { return (*v64__n <= *v64__i) & (*v64__i <= nr_listeners); }
static int kvinv_on_layer_change_todo(size_t *v64__i) { return INV2(IMP(*v64__i <= kvg_l, (kvg_wr == 0) & (kvg_closed == 0))); }
static int kvinv_on_layer_change_done(size_t *v64__i) { return INV2(IMP(*v64__i > kvg_l, (kvg_wr == 1) & (kvg_closed == (kvg_okline ? 0 : 1)))); }
static int kvinv_on_layer_change_less(size_t *v64__i) { return INV2(IMP((*v64__i > kvg_l) & (kvg_okline == 0), kvg_acc < *v64__i)); }
static int kvinv_on_layer_change_all(size_t *v64__i) { return INV2(IMP((*v64__i > kvg_l) & (kvg_acc == *v64__i), kvg_pos == kvg_l)) & (kvg_acc <= *v64__i); }
static int kvinv_on_layer_change_pos(size_t *v64__i) { return INV2(IMP((*v64__i > kvg_l) & (kvg_okline != 0), kvg_pos < kvg_acc)); }
static int kvinv_on_layer_change_one(void) { return INV2((kvg_wr <= 1) & (kvg_okline <= 1)); }
static int kvinv_on_layer_change_inst(size_t *v64__i) { return kv_param(0) == 1 ? 1 : kvs_other(*v64__i, 0); }
struct kvs_k { int *keep; size_t n; };
static int kvs_keep_not(size_t j, void *c) { struct kvs_k *k = c; return (j >= k->n) | (k->keep[j & 31] != kvg_fd); }
static int kvinv_on_layer_change_kept(int *keep, size_t *v64__n, size_t *v64__i)
{
	return kv_param(0) == 1 ? 1 : IMP((*v64__i > kvg_l) & (kvg_okline != 0), keep[kvg_pos & 31] == kvg_fd);
}
static int kvinv_on_layer_change_gone(int *keep, size_t *v64__n, size_t *v64__i)
{
	struct kvs_k k = { keep, *v64__n };
	return kv_param(0) == 1 ? 1 : IMP((*v64__i <= kvg_l) | (kvg_okline == 0), kvs_keep_not(kvg_j, &k));
}

static void kvc_on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
{
	struct kvs_k k = { listeners, 0 };
	kv_assigns(listeners, sizeof listeners);
	kv_assigns(&nr_listeners, sizeof nr_listeners);
	kv_assigns(&kvg_wr, 4);
	kv_assigns(&kvg_okline, 1);
	kv_assigns(&kvg_closed, 4);
	kv_assigns(&kvg_led, 4);
	kv_assigns(&kvg_acc, 8);
	kv_assigns(&kvg_pos, 8);
	on_layer_change(kbd, layer, state);
	k.n = nr_listeners;
	ENS("D05", nr_listeners <= 32, "listeners within bounds");
	if (kv_param(0) == 1)
		return;
	ENS("D05", nr_listeners == kvg_acc, "no listener is added");
	ENS("D05", kvg_wr == 1, "every listener is told once");
	ENS("D05", IMP(kvg_okline, (kvg_closed == 0) & (kvg_pos < nr_listeners) & (listeners[kvg_pos & 31] == kvg_fd)), "a listener that keeps up is kept");
	ENS("D05", IMP(!kvg_okline, (kvg_closed == 1) & kvs_keep_not(kvg_j, &k)), "one that does not is dropped, once");
}

void kvt_on_layer_change(void)
{
	kvg_layer = &kvg_layer0;
	kv_assume(kvg_layer->name[sizeof kvg_layer->name - 1] == 0);
	kv_assume(kvg_kbd.config.nr_layers <= MAX_LAYERS);
	kv_assume(device_table_sz <= MAX_DEVICES);
	kv_assume(nr_listeners <= 32);
	kv_assume((kvg_l < nr_listeners) & (listeners[kvg_l & 31] == kvg_fd));
	if (kv_param(0) != 1)
		kv_assume(kv_forall(32, kvs_other, 0));
	kvg_wr = kvg_closed = kvg_led = kvg_okline = 0;
	kvg_acc = 0;
	kvc_on_layer_change(&kvg_kbd, kvg_layer, kvg_state);
	kv_cover("end");
}

size_t device_table_sz;
struct device device_table[MAX_DEVICES];

/* ---- D06: which configuration gets a device */
struct config_ent kvg_ents[4];
size_t kvg_nents;
int kvg_rank[4];
static int kvs_idx(const struct config *c) { return c == &kvg_ents[0].config ? 0 : c == &kvg_ents[1].config ? 1 : c == &kvg_ents[2].config ? 2 : 3; }
int config_check_match(struct config *config, const char *id, uint8_t flags)
{
	return kvg_rank[kvs_idx(config)];
}

/* at most 4 configurations (bounded) */
void kvt_lookup(void)
{
	struct config_ent *r;
	int i, best = 0, bi = -1;
	uint8_t flags = kv_u8("flags");
	kv_assume(kvg_nents <= 4);
	for (i = 0; i < 4; i++) {
		kv_assume((kvg_rank[i] >= 0) & (kvg_rank[i] <= 2));
		kvg_ents[i].next = i + 1 < (int)kvg_nents ? &kvg_ents[(i + 1) & 3] : NULL;
	}
	configs = kvg_nents ? &kvg_ents[0] : NULL;
	r = lookup_config_ent("x", flags);
	for (i = 0; i < 4; i++)
		if (i < (int)kvg_nents && kvg_rank[i] > best) {
			best = kvg_rank[i];
			bi = i;
		}
	if (bi < 0 || (best == 1 && flags == ID_MOUSE))
		ASRT("C05 D06", r == NULL, "no configuration claims it");
	else
		ASRT("C05 D06", r == &kvg_ents[bi & 3], "the first of the best matches claims it");
	kv_cover("end");
}

struct device kvg_dev;
uint8_t kvg_found, kvg_grabfail;
uint32_t kvg_grabs, kvg_ungrabs, kvg_lookups;
uint8_t kvg_lflags;
struct keyboard *kvg_anykbd;
int device_grab(struct device *dev)
{
	ASRT("D06", dev == &kvg_dev, "the device at hand");
	kvg_grabs++;
	return kvg_grabfail ? -1 : 0;
}
int device_ungrab(struct device *dev)
{
	ASRT("D06", dev == &kvg_dev, "the device at hand");
	kvg_ungrabs++;
	return kv_int("ungrab");
}
static struct config_ent *kvc_lookup_config_ent(const char *id, uint8_t flags)
{
	struct config_ent *r;
	kv_assigns(&kvg_lookups, 4);
	kv_assigns(&kvg_lflags, 1);
	r = lookup_config_ent(id, flags);
	if (kv_replacing()) {
		kvg_lookups = KV_OLD(kvg_lookups) + 1;
		kvg_lflags = flags;
		return kvg_found ? &kvg_ents[0] : NULL;
	}
	return r;
}
void kvt_manage_device(void)
{
	uint8_t kb, ms;
	kvg_ents[0].kbd = &kvg_kbd;
	kvg_ents[0].next = NULL;
	kvg_lookups = kvg_grabs = kvg_ungrabs = 0;
	kb = (kvg_dev.capabilities & CAP_KEYBOARD) != 0;
	ms = ((kvg_dev.capabilities & CAP_MOUSE) | (kvg_dev.capabilities & CAP_MOUSE_ABS)) != 0;
	kvg_dev.data = kv_bool("had") ? (void *)&kvg_kbd : NULL;
	manage_device(&kvg_dev);
	if (kvg_dev.is_virtual) {
		ASRT("D06", (kvg_grabs == 0) & (kvg_ungrabs == 0), "a virtual device is never grabbed");
	} else {
		ASRT("D06", (kvg_lookups == 1) & (kvg_lflags == ((kb ? ID_KEYBOARD : 0) | (ms ? ID_MOUSE : 0))), "looked up by its kind");
		if (kvg_found && !kvg_grabfail)
			ASRT("D06", (kvg_grabs == 1) & (kvg_ungrabs == 0) & (kvg_dev.data == &kvg_kbd), "grabbed by the configuration that claims it");
		else
			ASRT("D06", kvg_dev.data == NULL, "a device not grabbed is not remapped");
		if (!kvg_found)
			ASRT("D06", (kvg_grabs == 0) & (kvg_ungrabs == 1), "a device nothing claims is released");
	}
	kv_cover("end");
}

/* ---- D04: clients.  kvg_fd is the connection of the client, kvg_msg what it sends */
ssize_t read(int fd, void *buf, size_t n)
{
	ssize_t r = kv_long("nr");
	kv_assume((r >= -1) & (r <= (ssize_t)n));
	return r;
}
static int kvinv_xread_n(size_t *v64__nrd, size_t *v64__sz) { return *v64__nrd <= *v64__sz; }
static int kvinv_xwrite_n(size_t *v64__nwr, size_t *v64__sz) { return *v64__nwr <= *v64__sz; }
char kvg_buf[4096];
uint8_t kvg_bad;
void kvt_xread(void)
{
	size_t n = kv_u64("n");
	int r;
	kv_assume(n <= sizeof kvg_buf);
	r = xread(kvg_fd, kvg_buf, n);
	ASRT("D04", (r == 0) | (r == -1), "a short read is an error");
	kv_cover("end");
}
void kvt_xwrite(void)
{
	size_t n = kv_u64("n");
	int r;
	kv_assume(n <= sizeof kvg_buf);
	kvg_closed = 0;
	r = xwrite(kvg_fd, kvg_buf, n);
	ASRT("D04", (r == 0) | (r == -1), "a failed write is an error");
	kv_cover("end");
}

uint32_t kvg_replies;
struct ipc_message *kvg_m;	/* ghost: the message read */
static int kvc_xread(int fd, void *buf, size_t sz)
{
	int r;
	REQ("D04", kvg_rcvto == 1, "a client that sends nothing does not block the daemon");
	kv_assigns(buf, sz);
	r = xread(fd, buf, sz);
	if (kv_replacing())
		kvg_m = buf;
	ENS("D04", (r == 0) | (r == -1), "a short read is an error");
	return r;
}
static int kvc_xwrite(int fd, const void *buf, size_t sz)
{
	int r;
	REQ("D04", (fd == kvg_fd) & (kvg_closed == 0), "the reply goes to the client while it is there");
	kv_assigns(&kvg_replies, 4);
	r = xwrite(fd, buf, sz);
	DEF("*", kvg_replies, KV_OLD(kvg_replies) + 1, "a reply");
	return r;
}
int setsockopt(int fd, int level, int opt, const void *v, socklen_t n)
{
	if (fd == kvg_fd && level == SOL_SOCKET && opt == SO_RCVTIMEO) {
		const struct timeval *tv = v;
		kvg_rcvto = (tv->tv_sec >= 0) & (tv->tv_sec <= 5) & ((tv->tv_sec | tv->tv_usec) != 0);
	}
	if (fd == kvg_fd && level == SOL_SOCKET && opt == SO_SNDTIMEO) {
		const struct timeval *tv = v;
		kvg_sndto = (tv->tv_sec == 0) & (tv->tv_usec > 0) & (tv->tv_usec <= 1000000);
	}
	return kv_int("setsockopt");
}
int kvs_vsnprintf(char *b, size_t n, const char *f)
{
	int r = kv_int("len");
	ASRT("D04", n <= 4096, "within the message");
	return r;
}

/* a new listener is first told the layers in force */
size_t kvg_lay;		/* any layer */
static int kvs_listed(void)
{
	return (kvg_lay >= 1) & (kvg_lay < kvg_kbd.config.nr_layers) & (kvg_kbd.layer_state[kvg_lay & 31].active != 0)
		& (kvg_kbd.config.layers[kvg_lay & 31].type != LT_LAYOUT);
}
static int kvs_is_layout(size_t l)
{
	return (l < kvg_kbd.config.nr_layers) & (kvg_kbd.layer_state[l & 31].active != 0) & (kvg_kbd.config.layers[l & 31].type == LT_LAYOUT);
}
int kvs_dprintf(int fd, const char *fmt, const char *name)
{
	int r = kv_int("dprintf");
	size_t l = kv_index(name, 0);
	ASRT("D04 D05", (fd == kvg_fd) & (kvg_closed == 0), "told to the new listener");
	ASRT("D04", kvg_sndto == 1, "a slow listener does not block the daemon");
	if (fmt[0] == '/') {
		ASRT("D05", kvg_lines == 0, "the layout comes first");
		kvg_layout = l;
	} else {
		ASRT("D05", (fmt[0] == '+') & (kvg_lines != 0), "an active layer");
		kvg_told += l == kvg_lay;
	}
	kvg_lines = 1;
	return r;
}
static int kvinv_add_listener_told(size_t *v64__i) { return kvg_told == ((kvg_lines != 0) & (*v64__i > kvg_lay) & kvs_listed()); }
static int kvinv_add_listener_ln(void) { return kvg_lines != 0; }
static int kvinv_add_listener_i(size_t *v64__i) { return *v64__i >= 1; }
static int kvinv_add_listener_lay(void) { return (kvg_lines == 0) | (kvg_layout == 0) | kvs_is_layout(kvg_layout); }
static int kvinv_add_listener_l0(size_t *v64__i) { return (kvg_lines != 0) | (*v64__i <= kvg_lay) | (kvg_lay == 0) | !kvs_is_layout(kvg_lay); }
static int kvinv_add_listener_l1(void) { return (kvg_lines == 0) | (kvg_lay == 0) | !kvs_is_layout(kvg_lay) | ((kvg_layout != 0) & (kvg_layout <= kvg_lay)); }
static void kvc_add_listener(int con)
{
	REQ("*", (con == kvg_fd) & (kvg_closed == 0), "a new listener");
	REQ("*", nr_listeners <= 32, "listeners within bounds");
	kv_assigns(listeners, sizeof listeners);
	kv_assigns(&nr_listeners, sizeof nr_listeners);
	kv_assigns(&kvg_closed, 4);
	kv_assigns(&kvg_replies, 4);
	kv_assigns(&kvg_sndto, 1);
	kv_assigns(&kvg_lines, 1);
	kv_assigns(&kvg_told, 4);
	kv_assigns(&kvg_layout, 8);
	add_listener(con);
	ENS("D04 D05", nr_listeners <= 32, "listeners within bounds");
	ENS("D04 D05", (kvg_closed != 0) == (nr_listeners == KV_OLD(nr_listeners)), "the client becomes a listener or is dropped");
	ENS("D04 D05", kvg_closed <= 1, "dropped once");
	ENS("D04 D05", IMP(kvg_closed == 0, (nr_listeners == KV_OLD(nr_listeners) + 1) & (listeners[(nr_listeners - 1) & 31] == con)), "the client becomes a listener");
	ENS("D04", kvg_replies <= KV_OLD(kvg_replies) + 1, "at most one message");
	if (!kv_replacing() && active_kbd) {
		ENS("D05", IMP(kvg_closed == 0, kvg_lines), "a listener is told the layout");
		ENS("D05", IMP(kvg_closed == 0, kvg_told == kvs_listed()), "a listener is told every active layer, and no other");
		ENS("D05", IMP(kvg_closed == 0, (kvg_layout == 0) | kvs_is_layout(kvg_layout)), "the layout told is active");
		ENS("D05", IMP((kvg_closed == 0) & (kvg_lay != 0) & kvs_is_layout(kvg_lay), (kvg_layout != 0) & (kvg_layout <= kvg_lay)), "the first active layout is told");
	}
}
void kvt_add_listener(void)
{
	kvg_closed = kvg_replies = kvg_told = 0;
	kvg_lines = kvg_sndto = 0;
	kv_assume((nr_listeners <= 32) & (kvg_lay < MAX_LAYERS));
	kv_assume(kvg_kbd.config.nr_layers <= MAX_LAYERS);
	active_kbd = kv_bool("kbd") ? &kvg_kbd : NULL;
	kvc_add_listener(kvg_fd);
	kv_cover("end");
}

/* one request of a client */
uint8_t kvg_parsed, kvg_reload;
/* s is the text of a message: it ends where the message says */
static int kvs_terminated(const char *s)
{
	const struct ipc_message *m = kvg_m;
	return (s == m->data) & (m->sz < MAX_IPC_MESSAGE_SIZE) & (s[m->sz & (MAX_IPC_MESSAGE_SIZE - 1)] == 0);
}
static int kvinv_handle_client_msg(struct ipc_message *msg) { return (msg->sz < MAX_IPC_MESSAGE_SIZE) & (msg->data[msg->sz & (MAX_IPC_MESSAGE_SIZE - 1)] == 0); }
static int kvinv_handle_client_open(void) { return (kvg_closed == 0) & (kvg_replies == 0); }
int macro_parse(char *s, struct macro *m)
{
	int r = kv_int("macro_parse");
	ASRT("D04", kvs_terminated(s), "the message is terminated");
	kvg_parsed = r == 0;
	return r;
}
void macro_execute(void (*output)(uint8_t, uint8_t), const struct macro *m, size_t timeout)
{
	ASRT("D04", kvg_parsed == 1, "only a macro that was parsed runs");
	ASRT("D04", timeout <= 1000000, "the pauses of a client's macro are bounded");
}
int kbd_eval(struct keyboard *kbd, const char *s)
{
	ASRT("D04", kvs_terminated(s), "the message is terminated");
	return kv_int("kbd_eval");
}
static void kvc_reload(void)
{
	REQ("D04", kvg_closed == 0, "before the reply");
	kv_assigns(&kvg_reload, 1);
	reload();
}
static int kvc_input(char *buf, size_t sz, uint32_t timeout)
{
	int r;
	if (kv_replacing())
		REQ("D04", kvs_terminated(buf), "the message is terminated");
	REQ("D04", timeout <= 1000000, "the pauses are bounded");
	r = input(buf, sz, timeout);
	ENS("D04", (r == 0) | (r == -1), "accepted or not");
	return r;
}
void kvt_handle_client(void)
{
	size_t n0;
	kvg_closed = kvg_replies = 0;
	kvg_rcvto = kvg_sndto = kvg_parsed = 0;
	kv_assume(nr_listeners <= 32);
	n0 = nr_listeners;
	active_kbd = NULL;
	kvg_ents[0].kbd = &kvg_kbd;
	/* any number of configurations: all look alike here */
	kvg_ents[0].next = kv_bool("more") ? &kvg_ents[0] : NULL;
	configs = kv_bool("some") ? &kvg_ents[0] : NULL;
	handle_client(kvg_fd);
	ASRT("D04", kvg_closed <= 1, "the connection is closed once");
	ASRT("D04", kvg_closed == (nr_listeners == n0), "every client is either a listener or let go");
	ASRT("D04", kvg_replies <= 1, "at most one reply");
	kv_cover("end");
}

/* ---- typing text for a client */
size_t kvg_nul;			/* where the text ends */
uint8_t kvg_key;		/* any key */
uint8_t kvg_isdown, kvg_unmatched;
int kvg_idx;
uint8_t kvg_uni, kvg_codes[4];	/* ghost: a unicode sequence is being typed, */
uint32_t kvg_evn;		/* ghost: and this many of its events have been sent */
static int kvc_utf8_read_char(const char *s, uint32_t *code)
{
	int r;
	size_t i = kv_index(s, 0);
	REQ("*", i <= kvg_nul, "reading stops at the end of the text");
	REQ("U01", IMP(kvg_uni, kvg_evn == 8), "the sequence is typed in full");
	kv_assigns(code, 4);
	kv_assigns(&kvg_uni, 1);
	r = utf8_read_char(s, code);
	DEF("*", kvg_uni, 0, "the next character");
	ENS("*", (r >= 0) & (r <= 4) & ((r == 0) == (i == kvg_nul)) & ((size_t)r <= kvg_nul - i), "within the text");
	return r;
}
int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
{
	if (kv_bool("nokey"))
		return -1;
	*codep = kv_u8("key");
	*modsp = kv_u8("mods");
	return 0;
}
int unicode_lookup_index(uint32_t codepoint) { kvg_idx = kv_int("idx"); return kvg_idx; }
void unicode_get_sequence(int idx, uint8_t codes[4])
{
	ASRT("U01", (idx >= 0) & (idx == kvg_idx), "the character's own index");
	codes[0] = kv_u8("c0"), codes[1] = kv_u8("c1"), codes[2] = kv_u8("c2"), codes[3] = kv_u8("c3");
	kvg_codes[0] = codes[0], kvg_codes[1] = codes[1], kvg_codes[2] = codes[2], kvg_codes[3] = codes[3];
	kvg_uni = 1;
	kvg_evn = 0;
}
void vkbd_send_key(const struct vkbd *v, uint8_t code, int state)
{
	if (kvg_uni) {
		ASRT("U01", (kvg_evn < 8) & (code == kvg_codes[(kvg_evn >> 1) & 3]) & ((state != 0) == ((kvg_evn & 1) == 0)), "the sequence is typed key by key, in order");
		kvg_evn++;
	}
	if (code == kvg_key) {

		kvg_isdown = state != 0;
	}
}
int usleep(useconds_t t) { ASRT("D04", t <= 1000000, "the pauses are bounded"); return 0; }
static int kvinv_input_buf(char **buf) { return kv_index(*buf, 0) <= kvg_nul; }
static int kvinv_input_ev(size_t *v64__i) { return IMP(kvg_uni, kvg_evn == 2 * *v64__i) & (*v64__i <= 4); }
static int kvinv_input_ev8(size_t *v64__i) { return IMP(kvg_uni, kvg_evn == 8); }
static int kvinv_input_cp(uint8_t *codes) { return IMP(kvg_uni, (codes[0] == kvg_codes[0]) & (codes[1] == kvg_codes[1]) & (codes[2] == kvg_codes[2]) & (codes[3] == kvg_codes[3])); }
static int kvinv_input_up(void) { return kvg_isdown == 0; }
void kvt_input(void)
{
	uint32_t timeout = kv_u32("timeout");
	int r;
	kv_assume(timeout <= 1000000);
	kv_assume((kvg_nul < sizeof kvg_buf) & (kvg_buf[kvg_nul & 4095] == 0));
	kvg_isdown = kvg_uni = 0;
	r = input(kvg_buf, kvg_nul, timeout);
	ASRT("U01", kvg_isdown == 0, "no key is left down");
	ASRT("D04", (r == 0) | (r == -1), "accepted or not");
	kv_cover("end");
}
