From e36669c0f06e04ac08dd6840b9daeee6a29d136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 01/20] fix: only release held keys at the end of a macro hold
 group

A timeout inside a+b groups was released as if it were a key code.
---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..ad6f129 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From 9d6f481bfbe7678404a69c7f14359b75236a19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 02/20] fix: restore modifiers after the macro of clearm() and
 of an overload() tap

The modifiers of a single key macro (e.g C-x) remained depressed until the next event.
---
 src/keyboard.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..5c0ea83 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -612,6 +612,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			clear(kbd);
 			macro = &kbd->config.macros[d->args[0].idx];
 			execute_macro(kbd, dl, macro);
+			update_mods(kbd, -1, 0);
 		}
 		break;
 	case OP_CLEAR:
@@ -640,6 +641,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					 */
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
+					update_mods(kbd, dl, 0);
 				} else {
 					process_descriptor(kbd, code, action, dl, 1, time);
 					process_descriptor(kbd, code, action, dl, 0, time);
-- 
2.43.0


From 7fa45ae4403536d5a560925f6c11e0f481283a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 03/20] fix: lift the modifiers of a pending oneshot consumed
 by toggle()

---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 5c0ea83..02253b1 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -710,8 +710,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				deactivate_layer(kbd, idx);
 
-			update_mods(kbd, -1, 0);
 			clear_oneshot(kbd);
+			update_mods(kbd, -1, 0);
 		}
 
 		break;
-- 
2.43.0


From ad281b76467d9badcf1a5324623dd8d369841d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 04/20] fix: do not activate an already toggled layer a second
 time in swap()

The extra activation was never paired, leaving the layer active forever.
---
 src/keyboard.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 02253b1..6279ddb 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -749,8 +749,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
-				activate_layer(kbd, 0, idx);
-				kbd->layer_state[idx].toggled = 1;
+				if (!kbd->layer_state[idx].toggled) {
+					activate_layer(kbd, 0, idx);
+					kbd->layer_state[idx].toggled = 1;
+				}
 				update_mods(kbd, -1, 0);
 			} else if (kbd->layer_state[dl].oneshot_depth) {
 				deactivate_layer(kbd, dl);
-- 
2.43.0


From 3f6045ea5639105fd18bc4188c2efac6b9010bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 05/20] fix: do not tie a toggled layer to the key which
 toggled it

A subsequent swap() could mistake the toggle key for the one holding the
layer, resulting in an unpaired deactivation (and an assertion failure).
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 6279ddb..e9896cd 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -706,7 +706,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->layer_state[idx].toggled = !kbd->layer_state[idx].toggled;
 
 			if (kbd->layer_state[idx].toggled)
-				activate_layer(kbd, code, idx);
+				activate_layer(kbd, 0, idx);
 			else
 				deactivate_layer(kbd, idx);
 
-- 
2.43.0


From 52b36d13b1a9f56dcec95abfd1ac7632a09c9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 06/20] fix: resolve the pending key once its event queue is
 full

Previously the next event caused an assertion failure.
---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index e9896cd..3a4158f 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1064,7 +1064,8 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	}
 
 
-	if (time >= kbd->pending_key.expire) {
+	if (time >= kbd->pending_key.expire ||
+	    kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue)) {
 		action = kbd->pending_key.action2;
 	} else if (code == kbd->pending_key.code) {
 		if (kbd->pending_key.tap_expiry && time >= kbd->pending_key.tap_expiry) {
-- 
2.43.0


From 293a05e499e25feecb9b5cd8406819cd0a75b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 07/20] fix: resolve a pending chord once its event queue is
 full

Previously the next event caused an assertion failure.
---
 src/keyboard.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 3a4158f..b5be099 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -981,7 +981,7 @@ static int handle_chord(struct keyboard *kbd,
 
 		enqueue_chord_event(kbd, code, pressed, time);
 
-		if (!pressed)
+		if (!pressed || kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
 			return abort_chord(kbd);
 
 		switch (check_chord_match(kbd, &kbd->chord.match, &kbd->chord.match_layer)) {
@@ -1024,6 +1024,9 @@ static int handle_chord(struct keyboard *kbd,
 					return abort_chord(kbd);
 		}
 
+		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+			return resolve_chord(kbd);
+
 		return 1;
 	}
 
-- 
2.43.0


From 5cb9939289848f63c6fdd9c5dfdef1c73d42a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 08/20] fix: do not abort when more chords are held than can be
 tracked

---
 src/keyboard.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index b5be099..4eed1df 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -869,10 +869,11 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		/* Fall back to the individual keys if all chord slots are in use. */
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
-- 
2.43.0


From f54b44d57e8803254b6609042fe7b7ac7cb8967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 09/20] fix: do not abort when there are too many outstanding
 timeouts

---
 src/keyboard.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 4eed1df..0e51e1d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -453,7 +453,21 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 
 static void schedule_timeout(struct keyboard *kbd, long timeout)
 {
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
+	if (kbd->nr_timeouts == ARRAY_SIZE(kbd->timeouts)) {
+		size_t i;
+		size_t last = 0;
+
+		/* Sacrifice the most distant deadline. */
+		for (i = 1; i < kbd->nr_timeouts; i++)
+			if (kbd->timeouts[i] > kbd->timeouts[last])
+				last = i;
+
+		if (timeout < kbd->timeouts[last])
+			kbd->timeouts[last] = timeout;
+
+		return;
+	}
+
 	kbd->timeouts[kbd->nr_timeouts++] = timeout;
 }
 
-- 
2.43.0


From 1a653632378c08d4ffc4466ce29b083be2a10867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 10/20] fix: widen the layer activation counters

256 taps of a oneshot key caused them to wrap around.
---
 src/keyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..13f3870 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -117,9 +117,9 @@ struct keyboard {
 	struct {
 		long activation_time;
 
-		uint8_t active;
+		uint32_t active;
 		uint8_t toggled;
-		uint8_t oneshot_depth;
+		uint32_t oneshot_depth;
 	} layer_state[MAX_LAYERS];
 
 	uint8_t keystate[256];
-- 
2.43.0


From 802b527cbc0e79c6b508e8d489913a47ac45ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 11/20] fix: record the chosen action of overloadi() before it
 runs

A nested overloadi() records its own choice, which must not be overwritten
by the outer one: its layer would never be deactivated.
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 0e51e1d..372de40 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -566,13 +566,13 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				action = &kbd->config.descriptors[d->args[0].idx];
 
-			process_descriptor(kbd, code, action, dl, 1, time);
 			for (i = 0; i < CACHE_SIZE; i++) {
 				if (code == kbd->cache[i].code) {
 					kbd->cache[i].d = *action;
 					break;
 				}
 			}
+			process_descriptor(kbd, code, action, dl, 1, time);
 		}
 		break;
 	case OP_OVERLOAD_TIMEOUT_TAP:
-- 
2.43.0


From 8a63cac7bf544d5dfe8661cb904a81bf0f226333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 12/20] fix: a repeated press of one key must not complete a
 chord

---
 src/keyboard.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 372de40..db948ab 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -994,6 +994,16 @@ static int handle_chord(struct keyboard *kbd,
 			return 0;
 		}
 
+		/*
+		 * Guard against successive key down events of the same key
+		 * (see process_event()), which must not count towards the
+		 * chord more than once.
+		 */
+		if (pressed)
+			for (i = 0; i < kbd->chord.queue_sz; i++)
+				if (kbd->chord.queue[i].code == code)
+					return 1;
+
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed || kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
-- 
2.43.0


From bcc6d613921457be5a1e0ac6584cc11ee9f83618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 13/20] fix: only let key events take part in the panic
 sequence

The code of other events is not a key code: an LED event for caps lock (LED 1)
counts as escape being pressed.
---
 src/evloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..1645d86 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -103,7 +103,8 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY)
+							panic_check(devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 2623a787bf28478c44b83c6986763b8bee5abcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 14/20] fix: do not abort when more than MAX_DEVICES devices
 are plugged in

---
 src/evloop.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 1645d86..fa269e4 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -132,7 +132,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz == MAX_DEVICES) {
+					keyd_log("r{ERROR:} too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From a65036b234ad5d857050078344ded11386895f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 15/20] fix: do not send an uninitialized byte in HID reports

---
 src/vkbd/usb-gadget.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 6b9853b..f5dd101 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -42,7 +42,7 @@ static int create_virtual_keyboard(void)
 static void send_hid_report(const struct vkbd *vkbd)
 {
 
-	struct hid_report report;
+	struct hid_report report = {0};
 
 	for (int i = 0; i < 6; i++)
 		report.hid_code[i] = keys[i];
-- 
2.43.0


From 1fbdc82efeb88d3f09b9edba27c5a6ed157999f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 16/20] fix: do not abort on malformed UTF-8

A truncated sequence in a config file, a binding or a client message tripped
an assertion and a stray continuation byte was taken for an ASCII character.
---
 src/string.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..1df504e 100644
--- a/src/string.c
+++ b/src/string.c
@@ -3,10 +3,15 @@
  *
  * © 2019 Raheman Vaiya (see also: LICENSE).
  */
-#include <assert.h>
-
 #include "string.h"
 
+#define UTF8_INVALID	0xFFFFFFFF
+
+static int is_cont(unsigned char c)
+{
+	return (c & 0xC0) == 0x80;
+}
+
 int utf8_read_char(const char *_s, uint32_t *code)
 {
 	const unsigned char *s = (const unsigned char*)_s;
@@ -14,23 +19,21 @@ int utf8_read_char(const char *_s, uint32_t *code)
 	if (!s[0])
 		return 0;
 
-	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
+	if (s[0] >= 0xF0 && s[0] < 0xF8 && is_cont(s[1]) && is_cont(s[2]) && is_cont(s[3])) {
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
-	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
+	} else if (s[0] >= 0xE0 && s[0] < 0xF0 && is_cont(s[1]) && is_cont(s[2])) {
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
-	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
+	} else if (s[0] >= 0xC0 && s[0] < 0xE0 && is_cont(s[1])) {
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
+	} else if (s[0] < 0x80) {
+		*code = s[0];
+		return 1;
 	} else {
-		*code = s[0] & 0x7F;
+		/* Malformed: consume the byte and yield a code point which does not exist. */
+		*code = UTF8_INVALID;
 		return 1;
 	}
 }
-- 
2.43.0


From ea3d6cc948cbc11e99c0c61416f5a82897eadb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 17/20] fix: send layer names of maximum length to listeners in
 full

The buffer had no room for the line end of a 64 character name, a NUL byte was
sent in its place.
---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..faf972a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -135,7 +135,7 @@ fail:
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From eef327844795cdee862eb51ffce0a31af833e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 18/20] fix: do not use the keyboard of a previous
 configuration after a reload

active_kbd kept pointing to the freed keyboard until the next key event, a
timeout or a new layer listener in between used freed memory.
---
 src/daemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon.c b/src/daemon.c
index faf972a..dfbc4d0 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -27,6 +27,7 @@ static void free_configs()
 	}
 
 	configs = NULL;
+	active_kbd = NULL;
 }
 
 static void cleanup()
-- 
2.43.0


From a9180f49c019a3413b031b82dacfe1fa7c817897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 19/20] fix: keep running when a client goes away early

A client which closed its connection before sending a whole message made
xread() loop forever, one which did not wait for its answer (or a device which
vanished while a LED was being set) terminated the daemon.
---
 src/daemon.c |  5 ++++-
 src/keyd.c   | 10 ++++++----
 src/keyd.h   |  4 ++--
 src/util.c   | 19 +++++++++++++------
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index dfbc4d0..b3beadf 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -389,7 +389,10 @@ static void handle_client(int con)
 {
 	struct ipc_message msg;
 
-	xread(con, &msg, sizeof msg);
+	if (xread(con, &msg, sizeof msg)) {
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..a60ab36 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -24,8 +24,8 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 		exit(-1);
 	}
 
-	xwrite(con, &msg, sizeof msg);
-	xread(con, &msg, sizeof msg);
+	if (xwrite(con, &msg, sizeof msg) || xread(con, &msg, sizeof msg))
+		exit(-1);
 
 	if (msg.sz) {
 		xwrite(1, msg.data, msg.sz);
@@ -173,7 +173,8 @@ static int layer_listen(int argc, char *argv[])
 	}
 
 	msg.type = IPC_LAYER_LISTEN;
-	xwrite(con, &msg, sizeof msg);
+	if (xwrite(con, &msg, sizeof msg))
+		exit(-1);
 
 	while (1) {
 		char buf[512];
@@ -197,7 +198,8 @@ static int layer_listen(int argc, char *argv[])
 			if (sz <= 0)
 				return -1;
 
-			xwrite(1, buf, sz);
+			if (xwrite(1, buf, sz))
+				return -1;
 		}
 	}
 }
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..a250f83 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -93,8 +93,8 @@ int run_daemon(int argc, char *argv[]);
 void evloop_add_fd(int fd);
 int evloop(int (*event_handler) (struct event *ev));
 
-void xwrite(int fd, const void *buf, size_t sz);
-void xread(int fd, void *buf, size_t sz);
+int xwrite(int fd, const void *buf, size_t sz);
+int xread(int fd, void *buf, size_t sz);
 
 int ipc_create_server();
 int ipc_connect();
diff --git a/src/util.c b/src/util.c
index 8e35ec5..ade088d 100644
--- a/src/util.c
+++ b/src/util.c
@@ -1,6 +1,7 @@
 #include "keyd.h"
 
-void xwrite(int fd, const void *buf, size_t sz)
+/* Returns 0 on success. */
+int xwrite(int fd, const void *buf, size_t sz)
 {
 	size_t nwr = 0;
 	ssize_t n;
@@ -9,24 +10,30 @@ void xwrite(int fd, const void *buf, size_t sz)
 		n = write(fd, buf+nwr, sz-nwr);
 		if (n < 0) {
 			perror("write");
-			exit(-1);
+			return -1;
 		}
 		nwr += n;
 	}
+
+	return 0;
 }
 
-void xread(int fd, void *buf, size_t sz)
+/* Returns 0 on success, everything short of sz bytes is an error. */
+int xread(int fd, void *buf, size_t sz)
 {
 	size_t nrd = 0;
 	ssize_t n;
 
 	while(sz != nrd) {
 		n = read(fd, buf+nrd, sz-nrd);
-		if (n < 0) {
-			perror("read");
-			exit(-1);
+		if (n <= 0) {
+			if (n < 0)
+				perror("read");
+			return -1;
 		}
 		nrd += n;
 	}
+
+	return 0;
 }
 
-- 
2.43.0


From 6b25581cd8cd23d47ccd2ec4ae8bd4bbef40c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 20/20] fix: do not wait forever for the message of a client

A client which connects without sending anything blocked the event loop, and
with it all keyboards.
---
 src/daemon.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index b3beadf..f730539 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -388,6 +388,10 @@ static int input(char *buf, size_t sz, uint32_t timeout)
 static void handle_client(int con)
 {
 	struct ipc_message msg;
+	struct timeval tv = { .tv_sec = 1 };
+
+	/* Clients are expected to send their message right away. */
+	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
 
 	if (xread(con, &msg, sizeof msg)) {
 		close(con);
-- 
2.43.0

