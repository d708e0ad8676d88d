#define poll kvn_poll
#define exit kvn_exit
#include <stdlib.h>
#include <poll.h>
#include "kvn.h"
#include <setjmp.h>
int kvn_poll(struct pollfd *fds, nfds_t n, int timeout);
void kvn_exit(int);
#include "evloop.c"
#undef exit
#undef poll
static jmp_buf end;
static int left, down[3], died, nread, ndone, rmfd, ndev0, live[4096], nlive, checked_before;
static struct device_event de;
static struct device *dd;
void _keyd_log(int l, const char *f, ...) {}
char errstr[2048]; int log_level, suppress_colours;
void die(const char *f, ...)
{
	if (!(down[0] && down[1] && down[2]))
		violates("D01", "the daemon ended without the panic sequence");
	longjmp(end, 1);
}
void kvn_exit(int c) { die(""); for (;;); }
static void all3(void)
{
	if (down[0] && down[1] && down[2])
		violates("D01", "enter, backspace and escape are down and the daemon goes on");
}
int kvn_poll(struct pollfd *fds, nfds_t n, int timeout)
{
	nfds_t i;
	all3();
	if (left <= 0)
		longjmp(end, 1);
	for (i = 0; i < n; i++)
		fds[i].revents = below(3) == 0 ? POLLIN : 0;
	for (i = 0; i < device_table_sz; i++)
		if (!live[device_table[i].fd & 4095])
			violates("D06", "a removed device is still in use");
	if ((int)device_table_sz != nlive)
		violates("D06", "a device was lost");
	left--;
	return 1;
}
static void mkdev(struct device *d)
{
	static int fd = 10;
	memset(d, 0, sizeof *d);
	d->fd = fd = 10 + (fd + 1) % 4000;
	live[d->fd] = 1;
	nlive++;
}
int devmon_create() { return 3; }
int device_scan(struct device t[MAX_DEVICES])
{
	int i;
	ndev0 = below(4) ? below(4) : below(60);
	for (i = 0; i < ndev0; i++)
		mkdev(&t[i]);
	return ndev0;
}
int devmon_read_device(int fd, struct device *d)
{
	if (below(2))
		return -1;
	mkdev(d);
	if (device_table_sz == MAX_DEVICES) {	/* ignored */
		live[d->fd] = 0;
		nlive--;
	}
	note("+dev%d ", d->fd);
	return 0;
}
struct device_event *device_read_event(struct device *d)
{
	static const uint8_t special[] = { KEYD_ENTER, KEYD_BACKSPACE, KEYD_ESC, KEYD_A };
	all3();
	if (nread != ndone)
		violates("D06", "an event was not handed on");
	if (below(3) == 0)
		return NULL;
	if (!live[d->fd & 4095] || d->fd < 0)
		violates("D06", "read from a removed device");
	memset(&de, 0, sizeof de);
	dd = d;
	nread++;
	de.type = below(4) ? DEV_KEY : below(6);
	de.code = below(5) ? special[below(4)] : below(256);
	de.pressed = below(3) != 0;
	note("dev%d:type%d:%d:%d ", d->fd, de.type, de.code, de.pressed);
	if (de.type == DEV_REMOVED) {
		live[d->fd & 4095] = 0;
		nlive--;
	}
	if (de.type == DEV_KEY) {
		if (de.code == KEYD_ENTER) down[0] = de.pressed;
		if (de.code == KEYD_BACKSPACE) down[1] = de.pressed;
		if (de.code == KEYD_ESC) down[2] = de.pressed;
	}
	return &de;
}
int handler(struct event *ev)
{
	if (ev->type == EV_DEV_EVENT || ev->type == EV_DEV_REMOVE) {
		if (ev->type == EV_DEV_EVENT)
			all3();
		if (ndone + 1 != nread || ev->dev != dd || (ev->type == EV_DEV_REMOVE) != (de.type == DEV_REMOVED) ||
		    (ev->type == EV_DEV_EVENT && ev->devev != &de))
			violates("D06", "wrong event handed on");
		ndone++;
	}
	return below(3) ? below(50) : 0;
}
static void once(void)
{
	int i;
	left = 1 + below(30);
	memset(down, 0, sizeof down);
	memset(live, 0, sizeof live);
	nread = ndone = nlive = 0;
	/* the three keys are up */
	panic_check(KEYD_ENTER, 0);
	panic_check(KEYD_BACKSPACE, 0);
	panic_check(KEYD_ESC, 0);
	if (!setjmp(end))
		evloop(handler);
}
int main(int c, char **v) { return kvn_main(c, v, once); }
