#define write kvn_write
#define close kvn_close
#define exit kvn_exit
#define read kvn_read
#define usleep kvn_usleep
#define setsockopt kvn_setsockopt
#include <unistd.h>
#include <stdlib.h>
#include "keyd.h"
#include "kvn.h"
ssize_t kvn_write(int, const void *, size_t);
int kvn_close(int);
void kvn_exit(int);
ssize_t kvn_read(int, void *, size_t);
int kvn_usleep(unsigned);
#include <sys/socket.h>
#include <dirent.h>
#define opendir(x) ((DIR *)1)
#define readdir(x) NULL
#define closedir(x) 0
#define dprintf kvn_dprintf
int kvn_dprintf(int fd, const char *f, const char *name);
#include "util.c"
#include "string.c"
#include "config.c"
#include "daemon.c"
#undef write
#undef close
#undef exit
#undef read
#undef usleep
#undef setsockopt
#undef dprintf
int log_level, suppress_colours; char errstr[2048]; size_t device_table_sz; struct device device_table[MAX_DEVICES];
void _keyd_log(int l, const char *f, ...) {}
void die(const char *f, ...) { violates("D06", "the daemon ended"); violates("D05", "the daemon ended"); violates("D04", "the daemon ended"); _Exit(1); }
void kvn_exit(int c) { die(""); }
static int wn[64], ok[64], closed[64], fullfd[64];
static char line[64][128];
static int cfd = 3, creplies, cclosed, rto, sto, nread; static size_t rpos, rlen; static struct ipc_message cmsg, reply;
static char told[4096];
int kvn_setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
	const struct timeval *tv = v;
	if (o == SO_RCVTIMEO) rto = tv->tv_sec || tv->tv_usec;
	if (o == SO_SNDTIMEO) sto = tv->tv_sec || tv->tv_usec;
	return 0;
}
int kvn_usleep(unsigned t) { if (t > 1000000) violates("D04", "a client makes the daemon pause for longer than a second"); return 0; }
int kvn_dprintf(int fd, const char *f, const char *name)
{
	if (fd != cfd || cclosed) violates("D05", "the wrong client is told");
	if (!sto) violates("D04", "a slow listener blocks the daemon");
	sprintf(told + strlen(told), f, name);
	return 1;
}
ssize_t kvn_read(int fd, void *b, size_t n)
{
	size_t k = rlen - rpos;
	if (!rto) violates("D04", "a client that sends nothing blocks the daemon");
	if (++nread > 100000) violates("D04", "the daemon reads for ever");
	if (k == 0) return below(2) ? 0 : -1;
	if (k > n) k = n;
	if (k > 1 && below(3) == 0) k = 1 + below(k);
	memcpy(b, (char *)&cmsg + rpos, k);
	rpos += k;
	return k;
}
ssize_t kvn_write(int fd, const void *b, size_t n)
{
	if (fd == cfd) {
		if (cclosed) violates("D04", "a client is written to after it was closed");
		if (fullfd[3]) return -1;
		creplies += n == sizeof reply;
		if (n == sizeof reply) memcpy(&reply, b, n);
		return n;
	}
	if (fd < 0 || fd >= 64) return -1;
	wn[fd]++;
	if (closed[fd])
		violates("D05", "a dropped listener is written to");
	snprintf(line[fd], sizeof line[fd], "%.*s", (int)n, (const char *)b);
	ok[fd] = fullfd[fd] == 0;
	return fullfd[fd] == 0 ? (ssize_t)n : fullfd[fd] == 1 ? -1 : (ssize_t)below(n);
}
int kvn_close(int fd) { if (fd == cfd && ++cclosed > 1) violates("D04", "a client is closed twice"); if (fd >= 0 && fd < 64) closed[fd]++; return 0; }
static int grabs, ungrabs, grabfail;
int device_grab(struct device *d) { grabs++; return grabfail ? -1 : 0; }
int device_ungrab(struct device *d) { ungrabs++; return 0; }
void device_set_led(const struct device *d, int l, int s) {}
struct vkbd *vkbd_init(const char *n) { return 0; }
void vkbd_mouse_move(const struct vkbd *v, int x, int y) {}
void vkbd_mouse_move_abs(const struct vkbd *v, int x, int y) {}
void vkbd_mouse_scroll(const struct vkbd *v, int x, int y) {}
static uint8_t kd[256]; static int nev; static struct { uint8_t c, s; } evs[1 << 16];
void vkbd_send_key(const struct vkbd *v, uint8_t c, int s) { kd[c] = s; if (nev < 1 << 16) evs[nev].c = c, evs[nev++].s = s; }
void free_vkbd(struct vkbd *v) {}
int evloop(int (*h)(struct event *)) { return 0; }
void evloop_add_fd(int fd) {}
int ipc_create_server(const char *p) { return -1; }
struct keyboard *new_keyboard(struct config *c, const struct output *o) { return 0; }
long kbd_process_events(struct keyboard *k, const struct key_event *e, size_t n) { return 0; }
int kbd_eval(struct keyboard *k, const char *e) { return 0; }

static struct keyboard *kbd;
static void listeners_run(void)
{
	struct layer *l;
	int i, before[32], n0, nk = 0, st = below(2);
	char want[80], name[70];
	int nn = below(3) == 0 ? 64 : 1 + below(20);
	for (i = 0; i < nn; i++)
		name[i] = 'a' + below(26);
	name[nn] = 0;
	l = &kbd->config.layers[1 + below(3)];
	l->type = below(3) == 0 ? LT_LAYOUT : LT_NORMAL;
	strcpy(l->name, name);
	kbd->config.nr_layers = 4;
	kbd->config.layer_indicator = below(2);
	memset(wn, 0, sizeof wn); memset(closed, 0, sizeof closed); memset(fullfd, 0, sizeof fullfd); memset(ok, 0, sizeof ok);
	nr_listeners = n0 = below(4) == 0 ? 32 : below(6);
	for (i = 0; i < n0; i++) {
		before[i] = listeners[i] = 20 + (i * 7) % 32;
		fullfd[listeners[i]] = below(3) == 0 ? 1 + below(2) : 0;
	}
	note("%d listeners, layer %s (%s) becomes %s;", n0, name, l->type == LT_LAYOUT ? "layout" : "layer", st ? "active" : "inactive");
	snprintf(want, sizeof want, "%c%s\n", l->type == LT_LAYOUT ? '/' : st ? '+' : '-', name);
	on_layer_change(kbd, l, st);
	for (i = 0; i < n0; i++) {
		int f = before[i];
		if (wn[f] != 1)
			violates("D05", "a listener is not told exactly once");
		if (strcmp(line[f], want))
			violates("D05", "a listener is told something else");
		if (!ok[f] && closed[f] != 1)
			violates("D05", "a listener that cannot keep up is not dropped once");
		if (ok[f] && (closed[f] || nk >= (int)nr_listeners || listeners[nk++] != f))
			violates("D05", "a listener that keeps up is lost");
	}
	if ((int)nr_listeners != nk)
		violates("D05", "a listener remains that should not");
}

static void match_run(void)
{
	static struct config_ent e[5];
	static const char *idp[] = { "0001", "0001:0002", "0001:0002:ab", "0003:0004", "0002", "1:0002" };
	static const char *devs[] = { "0001:0002:abcd", "0003:0004:1234", "0005:0001:0002", "0001:0009:00" };
	int n = below(5), i, best = 0, bi = -1, caps = below(16), had, virt = below(6) == 0;
	const char *dev = devs[below(4)];
	uint8_t flags;
	struct device d;
	int j;
	note("device %s;", dev);
	flags = (1 + below(3)) << 1;
	for (i = 0; i < n; i++) {
		int r = 0, dec = 0;
		e[i].next = i + 1 < n ? &e[i + 1] : NULL;
		e[i].kbd = (void *)&e[i];
		e[i].config.nr_ids = below(4) == 0 ? below(65) : below(4);
		e[i].config.wildcard = below(2);
		note(" config %d%s:", i, e[i].config.wildcard ? " *" : "");
		for (j = 0; j < (int)e[i].config.nr_ids; j++) {
			const char *s = idp[below(6)];
			uint8_t f = below(3) == 0 ? ID_EXCLUDED : (1 + below(3)) << 1;
			strcpy(e[i].config.ids[j].id, s);
			if (f & ID_EXCLUDED) f = ID_EXCLUDED;
			e[i].config.ids[j].flags = f;
			note(" %s/%d", s, f);
			if (!dec && !strncmp(dev, s, strlen(s))) {
				if (f & ID_EXCLUDED)
					dec = 1, r = 0;
				else if (f & flags)
					dec = 1, r = 2;
			}
		}
		if (!dec)
			r = e[i].config.wildcard ? 1 : 0;
		note(" (want %d)", r);
		if (config_check_match(&e[i].config, dev, flags) != r)
			violates("C05", "a configuration claims what its ids do not say");
		if (r > best)
			best = r, bi = i;
	}
	if (best == 1 && flags == ID_MOUSE)
		bi = -1;
	configs = n ? e : NULL;
	if (lookup_config_ent(dev, flags) != (bi < 0 ? NULL : &e[bi])) {
		violates("C05", "the wrong configuration is chosen");
		violates("D06", "the wrong configuration is chosen");
	}
	memset(&d, 0, sizeof d);
	caps = 0;
	if (flags & ID_KEYBOARD) caps |= CAP_KEYBOARD;
	if (flags & ID_MOUSE) caps |= below(2) ? CAP_MOUSE : CAP_MOUSE_ABS;
	d.capabilities = caps;
	strcpy(d.id, dev);
	d.is_virtual = virt;
	had = below(2);
	d.data = had ? &d : NULL;
	grabs = ungrabs = 0;
	grabfail = below(5) == 0;
	note(" caps %d virtual %d grab fails %d", caps, virt, grabfail);
	manage_device(&d);
	if (virt && (grabs || ungrabs))
		violates("D06", "a virtual device is touched");
	if (!virt && bi >= 0 && (grabs != 1 || ungrabs || d.data != (grabfail ? NULL : (void *)&e[bi])))
		violates("D06", "a device is not grabbed by the configuration that claims it");
	if (!virt && bi < 0 && (grabs || ungrabs != 1 || d.data))
		violates("D06", "a device no configuration claims is not let go");
	configs = NULL;
}
static void client_run(void)
{
	static const char *txt[] = { "macro(a b)", "a b 10ms c", "hello world\n\n", "C-a C-b", "h\xc3\xa9\xe4\xbd\xa0 X", "\xff\xf0\x90", "a+b", "", "99999ms a", "\n" };
	int n0, i, k;
	memset(&cmsg, 0, sizeof cmsg);
	cmsg.type = below(8);
	cmsg.timeout = below(4) ? below(2000000) : below(3);
	if (below(5) == 0) {
		for (i = 0; i < (int)sizeof cmsg.data; i++)
			cmsg.data[i] = below(3) ? 'a' + below(26) : below(3) ? "\n +-()0123456789m,s"[below(19)] : rnd();
		cmsg.sz = below(3) == 0 ? (size_t)rnd() << below(33) : 4090 + below(10);
	} else {
		const char *t = txt[below(10)];
		strcpy(cmsg.data, t);
		cmsg.sz = below(8) == 0 ? rnd() : strlen(t);
	}
	if (below(10) == 0)
		memset(cmsg.data, '\n', sizeof cmsg.data), cmsg.sz = 4095;
	rpos = 0; rlen = below(4) == 0 ? below(sizeof cmsg + 1) : sizeof cmsg;
	nread = creplies = cclosed = rto = sto = nev = 0;
	fullfd[3] = below(6) == 0;
	memset(kd, 0, sizeof kd);
	told[0] = 0;
	n0 = nr_listeners = below(5) == 0 ? 32 : below(4);
	active_kbd = below(3) ? kbd : NULL;
	kbd->config.nr_layers = 1 + below(6);
	for (i = 0; i < 6; i++) {
		snprintf(kbd->config.layers[i].name, 10, "l%d", i);
		kbd->config.layers[i].type = i ? below(3) == 0 ? LT_LAYOUT : LT_NORMAL : LT_LAYOUT;
		kbd->layer_state[i].active = below(3) == 0;
	}
	note("client message type %d timeout %u size %zu (%zu bytes sent) text %.40s;", cmsg.type, cmsg.timeout, cmsg.sz, rlen, cmsg.data);
	configs = NULL;
	{ struct config_ent *e = calloc(1, sizeof *e); configs = e; e->next = NULL; }
	k = active_kbd != NULL;
	handle_client(cfd);
	if (cclosed + ((int)nr_listeners - n0) != 1)
		violates("D04", "a client is neither closed nor kept as a listener");
	if (cclosed && !fullfd[3] && creplies != 1 && rlen == sizeof cmsg && cmsg.type != IPC_LAYER_LISTEN)
		violates("D04", "a client gets no reply");
	if (creplies > 1)
		violates("D04", "a client gets several replies");
	if ((int)nr_listeners > 32)
		violates("D04", "too many listeners");
	if ((int)nr_listeners > n0) {
		char want[1000]; int lay = 0;
		if (listeners[n0] != cfd)
			violates("D05", "the new listener is not recorded");
		if (k) {
			for (i = 1; i < (int)kbd->config.nr_layers; i++)
				if (kbd->layer_state[i].active && kbd->config.layers[i].type == LT_LAYOUT) { lay = i; break; }
			sprintf(want, "/l%d\n", lay);
			for (i = 1; i < (int)kbd->config.nr_layers; i++)
				if (kbd->layer_state[i].active && kbd->config.layers[i].type != LT_LAYOUT) sprintf(want + strlen(want), "+l%d\n", i);
			if (strcmp(told, want))
				violates("D05", "a new listener is not told the layers in force");
		}
	}
	for (i = 0; i < 256; i++)
		if (kd[i] && cmsg.type == IPC_INPUT)
			violates("U01", "a key is left down");
	free_configs();
}
static void input_run(void)
{
	uint32_t cp = 128 + below(below(2) ? 0x300 : 0xffff);
	char b[8]; int idx, i; uint8_t sq[4];
	if (cp < 0x800) b[0] = 0xc0 | cp >> 6, b[1] = 0x80 | (cp & 63), b[2] = 0;
	else b[0] = 0xe0 | cp >> 12, b[1] = 0x80 | ((cp >> 6) & 63), b[2] = 0x80 | (cp & 63), b[3] = 0;
	note("character %x;", cp);
	nev = 0; memset(kd, 0, sizeof kd);
	idx = unicode_lookup_index(cp);
	if (input(b, strlen(b), 0)) {
		if (idx >= 0) violates("U01", "a known character is rejected");
		return;
	}
	unicode_get_sequence(idx, sq);
	if (nev != 8) violates("U01", "a character is not typed by its sequence");
	for (i = 0; i < 8; i++)
		if (evs[i].c != sq[i / 2] || evs[i].s != !(i & 1))
			violates("U01", "the sequence is not typed in order");
}
static void once(void) { int k = below(4); if (k == 0) { client_run(); return; } if (k == 1) { input_run(); return; } if (below(2)) listeners_run(); else match_run(); }
int main(int c, char **v) { kbd = calloc(1, sizeof *kbd); return kvn_main(c, v, once); }
