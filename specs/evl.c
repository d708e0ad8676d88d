/* D01 / D06: the event loop (evloop.c) */
#include "evloop.c"
#include "kv.h"

uint8_t kvg_enter, kvg_backspace, kvg_esc;	/* ghost: the last thing read about each key was a press */
uint32_t kvg_read, kvg_checked, kvg_handled;	/* ghost: events read, checked, handed on */
struct device_event kvg_devev;
struct device *kvg_dev;
int kvg_loop;	/* the event loop is being verified */

static int kvs_all3(void) { return kvg_enter & kvg_backspace & kvg_esc; }

static void kvs_key(uint8_t code, uint8_t pressed)
{
	kvg_enter = code == KEYD_ENTER ? pressed != 0 : kvg_enter;
	kvg_backspace = code == KEYD_BACKSPACE ? pressed != 0 : kvg_backspace;
	kvg_esc = code == KEYD_ESC ? pressed != 0 : kvg_esc;
}

void die(const char *fmt, ...)
{
	kv_assert(kvs_all3(), "the daemon ends only with enter, backspace and escape down together", "D01");
	kv_stop();
}

/* ---- panic_check: every sequence of key events */
static int kvinv_any_keys(void) { return (kvg_enter <= 1) & (kvg_backspace <= 1) & (kvg_esc <= 1); }

static void kvs_drive(void)
{
	while (kv_bool("more")) {
		uint8_t code = kv_u8("code"), pressed = kv_u8("pressed");
		kvs_key(code, pressed);
		panic_check(code, pressed);
		kv_assert(!kvs_all3(), "enter, backspace and escape down together end the daemon", "D01");
	}
}

void kvt_panic(void)
{
	kvg_enter = kvg_backspace = kvg_esc = 0;
	kvs_drive();
	kv_cover("end");
}

static void kvc_panic_check(uint8_t code, uint8_t pressed)
{
	REQ("D01", kvg_devev.type == DEV_KEY, "only keys take part in the panic sequence");
	REQ("D01", (code == kvg_devev.code) & (pressed == kvg_devev.pressed), "the key event as read");
	REQ("D01", kvg_checked + 1 == kvg_read, "each event is checked once");
	kv_assigns(&kvg_checked, sizeof kvg_checked);
	panic_check(code, pressed);
	DEF("*", kvg_checked, KV_OLD(kvg_checked) + 1, "checked");
}

/* ---- the loop: every event read is checked, then handed on, once */
static int kvinv_any_checked(void) { return kvg_checked == kvg_read; }
static int kvinv_any_handled(void) { return kvg_handled == kvg_read; }
static int kvinv_any_devs(void) { return device_table_sz <= MAX_DEVICES; }
static int kvinv_any_aux(void) { return nr_aux_fds <= MAX_AUX_FDS; }
static size_t kvg_lim;
static int kvs_fd_ok(size_t j, void *c) { return (device_table[j].fd != -1) | (j >= device_table_sz); }
static int kvs_fd_from(size_t j, void *c) { return (j < *(size_t *)c) | kvs_fd_ok(j, 0); }
static int kvs_fd_below(size_t j, void *c) { return (j >= *(size_t *)c) | (device_table[j].fd != -1); }
static int kvinv_evloop_fds(void) { return !kv_on("D06") || kv_forall(MAX_DEVICES, kvs_fd_ok, 0); }
static int kvinv_evloop_fdr(int *v32__removed) { return !kv_on("D06") || (*v32__removed != 0) | kv_forall(MAX_DEVICES, kvs_fd_ok, 0); }
static int kvinv_evloop_fdi(size_t *v64__i) { return !kv_on("D06") || kv_forall(MAX_DEVICES, kvs_fd_from, v64__i); }
static int kvinv_evloop_fdn(size_t *v64__n) { return !kv_on("D06") || kv_forall(MAX_DEVICES, kvs_fd_below, v64__n); }
static int kvinv_evloop_i(size_t *v64__i) { return *v64__i <= device_table_sz; }
static int kvinv_evloop_j(size_t *v64__i) { return *v64__i <= nr_aux_fds; }
static int kvinv_evloop_n(size_t *v64__n, size_t *v64__i) { return (*v64__n <= *v64__i) & (*v64__i <= device_table_sz); }

struct device_event *device_read_event(struct device *dev)
{
	kv_assert((kvg_handled == kvg_read) & (kvg_checked == kvg_read), "the previous event has been dealt with", "D01 D06");
	if (kv_on("D06"))
		kv_assert(dev->fd != -1, "the device has not been removed", "D06");
	if (!kv_bool("event"))
		return NULL;
	kv_havoc(&kvg_devev, sizeof kvg_devev);
	kvg_dev = dev;
	kvg_read++;
	if (kvg_devev.type != DEV_KEY)
		kvg_checked = kvg_read;
	if (kvg_devev.type == DEV_REMOVED)
		dev->fd = -1;
	return &kvg_devev;
}

int kvs_handler(struct event *ev)
{
	if (ev->type == EV_DEV_EVENT) {
		kv_assert(kvg_checked == kvg_read, "an event is checked before it is acted on", "D01");
		kv_assert((kvg_handled + 1 == kvg_read) & (ev->devev == &kvg_devev) & (ev->dev == kvg_dev), "each event is handed on once", "D01 D06");
		kvg_handled++;
	} else if (ev->type == EV_DEV_REMOVE) {
		kv_assert((kvg_handled + 1 == kvg_read) & (kvg_devev.type == DEV_REMOVED) & (ev->dev == kvg_dev), "a removed device is reported", "D06");
		kvg_handled++;
	}
	return kv_int("timeout");
}

int poll(struct pollfd *fds, nfds_t n, int timeout)
{
	kv_assert(n <= MAX_DEVICES + MAX_AUX_FDS + 1, "within the poll set", "D06");
	kv_havoc(fds, (MAX_DEVICES + MAX_AUX_FDS + 1) * sizeof *fds);
	return kv_int("poll");
}
int clock_gettime(clockid_t c, struct timespec *ts) { kv_havoc(ts, sizeof *ts); return 0; }
int devmon_create() { return kv_int("monfd"); }
int device_scan(struct device devices[MAX_DEVICES])
{
	int n = kv_int("ndev");
	kv_assume((n >= 0) & (n <= MAX_DEVICES));
	device_table_sz = n;
	kv_assume(kv_forall(MAX_DEVICES, kvs_fd_ok, 0));
	return n;
}
int devmon_read_device(int fd, struct device *dev)
{
	kv_havoc(&dev->fd, sizeof dev->fd);
	kv_assume(dev->fd != -1);
	return kv_int("devmon");
}

void kvt_evloop(void)
{
	kvg_read = kvg_checked = kvg_handled = 0;
	kv_assume(nr_aux_fds <= MAX_AUX_FDS);
	kv_cover("start");
	evloop(kvs_handler);
}
