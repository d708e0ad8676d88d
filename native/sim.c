/* Drives the real engine with a scripted event sequence.
 * usage: sim CONFIG [TOKENS...]: "+key" press, "-key" release, "@N" let N ms pass (timeouts fire as in the
 * daemon's main loop), "!expr" runtime bind.  Prints every key event sent to the virtual device. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "keyd.h"

static int down[256];
static void out(uint8_t code, uint8_t st)
{
	printf("%s%s ", st ? "+" : "-", KEY_NAME(code));
	down[code] = st;
}
static void layer_change(const struct keyboard *kbd, const struct layer *l, uint8_t on)
{
	if (getenv("SIM_LAYERS"))
		printf("[%s%s] ", on ? "on " : "off ", l->name);
}
static uint8_t code_of(const char *s)
{
	size_t i;
	for (i = 0; i < 256; i++)
		if (keycode_table[i].name && (!strcmp(keycode_table[i].name, s) ||
			(keycode_table[i].alt_name && !strcmp(keycode_table[i].alt_name, s))))
			return i;
	fprintf(stderr, "bad key %s\n", s);
	exit(9);
}
int main(int argc, char *argv[])
{
	struct config *c = calloc(1, sizeof *c);
	struct output o = { out, layer_change };
	struct keyboard *k;
	int i;
	long now = 1, timeout = 0;

	setvbuf(stdout, 0, _IONBF, 0);
	if (config_parse(c, argv[1])) {
		printf("config rejected\n");
		return 8;
	}
	k = new_keyboard(c, &o);
	for (i = 2; i < argc; i++) {
		char *t = argv[i];
		if (*t == '@') {
			long left = atol(t + 1);
			while (timeout > 0 && timeout <= left) {
				struct key_event ev = { 0, 0, now + timeout };
				left -= timeout;
				now += timeout;
				timeout = kbd_process_events(k, &ev, 1);
			}
			now += left;
			if (timeout)
				timeout -= left;
		} else if (*t == '!') {
			printf("{%d} ", kbd_eval(k, t + 1));
		} else {
			struct key_event ev = { code_of(t + 1), *t == '+', now };
			timeout = kbd_process_events(k, &ev, 1);
		}
	}
	printf("\ndown:");
	for (i = 0; i < 256; i++)
		if (down[i])
			printf(" %s", KEY_NAME(i));
	printf("\nlayers:");
	for (i = 0; i < (int)k->config.nr_layers; i++)
		if (k->layer_state[i].active)
			printf(" %s:%d", k->config.layers[i].name, (int)k->layer_state[i].active);
	printf("\n");
	return 0;
}
