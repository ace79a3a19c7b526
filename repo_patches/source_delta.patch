From 0a6ab5b5dd7c43d0ec38966a995310b17b82c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 01/66] fix: do not abort on a truncated UTF-8 sequence

Client supplied text (keyd input/do) or a config ending in the middle of a
multi-byte character tripped an assertion and took the daemon down.
---
 src/string.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..86b7d28 100644
--- a/src/string.c
+++ b/src/string.c
@@ -3,8 +3,6 @@
  *
  * © 2019 Raheman Vaiya (see also: LICENSE).
  */
-#include <assert.h>
-
 #include "string.h"
 
 int utf8_read_char(const char *_s, uint32_t *code)
@@ -14,21 +12,19 @@ int utf8_read_char(const char *_s, uint32_t *code)
 	if (!s[0])
 		return 0;
 
-	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
+	if (s[0] >= 0xF0 && s[1] && s[2] && s[3]) {
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
-	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
+	} else if (s[0] >= 0xE0 && s[1] && s[2]) {
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
-	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
+	} else if (s[0] >= 0xC0 && s[1]) {
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
+	} else if (s[0] >= 0xC0) {
+		/* A truncated sequence: consume one byte as an unmappable character. */
+		*code = 0xFFFD;
+		return 1;
 	} else {
 		*code = s[0] & 0x7F;
 		return 1;
-- 
2.43.0


From 0b3c32f30172a7b3b01939aaa13f268e5c451bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 02/66] fix: do not lose or truncate keyboard deadlines

Timeouts were tracked in a single process wide counter which was clobbered by
activity on another keyboard and clamped to zero (i.e forgotten) whenever it
had elapsed by the time an unrelated event arrived. Timestamps were also
truncated to 32 bits, which wraps after 24 days of uptime.
---
 src/daemon.c   | 82 +++++++++++++++++++++++++++++++++++---------------
 src/evloop.c   |  8 ++---
 src/keyboard.c |  2 +-
 src/keyboard.h |  2 +-
 src/keyd.h     |  3 +-
 5 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..3e19f7a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -3,6 +3,10 @@
 struct config_ent {
 	struct config config;
 	struct keyboard *kbd;
+
+	/* The time at which the keyboard next needs to be serviced (0 if idle). */
+	long expiry;
+
 	struct config_ent *next;
 };
 
@@ -460,7 +464,49 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+/*
+ * Each keyboard has its own deadline, which must outlive activity on other
+ * keyboards (and any other unrelated event).
+ */
+static void process_key_event(struct keyboard *kbd, const struct key_event *kev)
+{
+	struct config_ent *ent;
+	long timeout = kbd_process_events(kbd, kev, 1);
+
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->kbd == kbd)
+			ent->expiry = timeout > 0 ? get_time_ms() + timeout : 0;
+}
+
+static void process_timeouts(long timestamp)
+{
+	struct config_ent *ent;
+	struct key_event kev = { .timestamp = timestamp };
+
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->expiry && timestamp >= ent->expiry)
+			process_key_event(ent->kbd, &kev);
+}
+
+/* Returns the number of milliseconds until the next deadline, or 0 if there is none. */
+static int calculate_timeout()
+{
+	struct config_ent *ent;
+	long expiry = 0;
+	long timeout;
+
+	for (ent = configs; ent; ent = ent->next)
+		if (ent->expiry && (!expiry || ent->expiry < expiry))
+			expiry = ent->expiry;
+
+	if (!expiry)
+		return 0;
+
+	timeout = expiry - get_time_ms();
+	return timeout > 0 ? timeout : 1;
+}
+
+static void process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -468,33 +514,19 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 		.timestamp = timestamp
 	};
 
-	kbd_process_events(kbd, &kev, 1);
+	process_key_event(kbd, &kev);
 
 	kev.pressed = 0;
-	return kbd_process_events(kbd, &kev, 1);
+	process_key_event(kbd, &kev);
 }
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
-	static int timeout = 0;
 	struct key_event kev = {0};
 
-	timeout -= ev->timestamp - last_time;
-	last_time = ev->timestamp;
-
-	timeout = timeout < 0 ? 0 : timeout;
+	process_timeouts(ev->timestamp);
 
 	switch (ev->type) {
-	case EV_TIMEOUT:
-		if (!active_kbd)
-			return 0;
-
-		kev.code = 0;
-		kev.timestamp = ev->timestamp;
-
-		timeout = kbd_process_events(active_kbd, &kev, 1);
-		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
 			struct keyboard *kbd = ev->dev->data;
@@ -508,7 +540,7 @@ static int event_handler(struct event *ev)
 				kev.pressed = ev->devev->pressed;
 				kev.timestamp = ev->timestamp;
 
-				timeout = kbd_process_events(kbd, &kev, 1);
+				process_key_event(kbd, &kev);
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -538,16 +570,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
 				}
 				break;
 			default:
@@ -555,7 +587,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
@@ -593,7 +625,7 @@ static int event_handler(struct event *ev)
 		break;
 	}
 
-	return timeout;
+	return calculate_timeout();
 }
 
 int run_daemon(int argc, char *argv[])
diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..4b25473 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -27,7 +27,7 @@ static void panic_check(uint8_t code, uint8_t pressed)
 		die("panic sequence detected");
 }
 
-static long get_time_ms()
+long get_time_ms()
 {
 	struct timespec ts;
 	clock_gettime(CLOCK_MONOTONIC, &ts);
@@ -42,7 +42,7 @@ int evloop(int (*event_handler) (struct event *ev))
 
 	struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];
 
-	struct event ev;
+	struct event ev = {0};
 
 	monfd = devmon_create();
 	device_table_sz = device_scan(device_table);
@@ -57,8 +57,8 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
-		int elapsed;
+		long start_time;
+		long elapsed;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..5d47333 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1188,7 +1188,7 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 {
 	size_t i = 0;
 	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout_ts = 0;
 
 	while (i != n) {
 		const struct key_event *ev = &events[i];
diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..9d522f1 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..b715f3d 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
@@ -92,6 +92,7 @@ int run_daemon(int argc, char *argv[]);
 
 void evloop_add_fd(int fd);
 int evloop(int (*event_handler) (struct event *ev));
+long get_time_ms();
 
 void xwrite(int fd, const void *buf, size_t sz);
 void xread(int fd, void *buf, size_t sz);
-- 
2.43.0


From 3840c09d0f837cad0cea54b4a80b98321dfa7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 03/66] fix: only consider key events from real devices for the
 panic sequence

LED events (whose codes overlap with the key codes), mouse events and the
output of the virtual keyboard itself were all treated as key strokes.
---
 src/evloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 4b25473..9e1145b 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -103,7 +103,8 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY && !device_table[i].is_virtual)
+							panic_check(devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 9129f18d7c82ba600d66c0f69f600bc75eb0376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 04/66] fix: release keys held on a removed device and recover
 from dropped events

Keys which were down when a device disappeared (or whose release was lost to a
kernel buffer overflow) remained stuck indefinitely. Also close the descriptor
of removed devices, which was leaked on each unplug.
---
 src/device.c | 71 ++++++++++++++++++++++++++++++++++++++++++++++------
 src/device.h |  6 +++++
 2 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..1ea3c99 100644
--- a/src/device.c
+++ b/src/device.c
@@ -186,6 +186,10 @@ static int device_init(const char *path, struct device *dev)
 		dev->data = NULL;
 		dev->grabbed = 0;
 
+		memset(dev->_keys, 0, sizeof dev->_keys);
+		dev->_syncing = 0;
+		dev->_removed = 0;
+
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
 	} else {
@@ -359,6 +363,7 @@ int device_grab(struct device *dev)
 	while (read(dev->fd, &ev, sizeof(ev)) > 0) {
 	}
 
+	memset(dev->_keys, 0, sizeof dev->_keys);
 	dev->grabbed = 1;
 	return 0;
 }
@@ -376,6 +381,29 @@ int device_ungrab(struct device *dev)
 	}
 }
 
+/*
+ * Populates ev with the next event required to bring the reported key state in
+ * line with the target state. Returns 0 if there is none.
+ */
+static int next_sync_event(struct device *dev, struct input_event *ev)
+{
+	size_t i;
+
+	for (i = 0; i < KEY_CNT; i++) {
+		uint8_t mask = 1 << (i % 8);
+
+		if ((dev->_keys[i / 8] ^ dev->_sync_keys[i / 8]) & mask) {
+			ev->type = EV_KEY;
+			ev->code = i;
+			ev->value = !!(dev->_sync_keys[i / 8] & mask);
+
+			return 1;
+		}
+	}
+
+	return 0;
+}
+
 /*
  * Read a device event from the given device or return
  * NULL if none are available (may happen in the
@@ -388,16 +416,36 @@ struct device_event *device_read_event(struct device *dev)
 
 	assert(dev->fd != -1);
 
-	if (read(dev->fd, &ev, sizeof(ev)) < 0) {
-		if (errno == EAGAIN) {
-			return NULL;
-		} else {
-			dev->fd = -1;
-			devev.type = DEV_REMOVED;
-			return &devev;
+	if (!dev->_syncing) {
+		if (read(dev->fd, &ev, sizeof(ev)) < 0) {
+			if (errno == EAGAIN)
+				return NULL;
+
+			/* The device is gone, release any keys which were held. */
+			memset(dev->_sync_keys, 0, sizeof dev->_sync_keys);
+			dev->_syncing = 1;
+			dev->_removed = 1;
+		} else if (ev.type == EV_SYN && ev.code == SYN_DROPPED) {
+			/* The kernel buffer overflowed, recover the current key state. */
+			if (ioctl(dev->fd, EVIOCGKEY(sizeof dev->_sync_keys), dev->_sync_keys) < 0)
+				return NULL;
+
+			dev->_syncing = 1;
 		}
 	}
 
+	if (dev->_syncing && !next_sync_event(dev, &ev)) {
+		dev->_syncing = 0;
+
+		if (!dev->_removed)
+			return NULL;
+
+		close(dev->fd);
+		dev->fd = -1;
+		devev.type = DEV_REMOVED;
+		return &devev;
+	}
+
 	switch (ev.type) {
 	case EV_REL:
 		switch (ev.code) {
@@ -467,6 +515,13 @@ struct device_event *device_read_event(struct device *dev)
 		if (ev.value == 2)
 			return NULL;
 
+		if (ev.code < KEY_CNT) {
+			if (ev.value)
+				dev->_keys[ev.code / 8] |= 1 << (ev.code % 8);
+			else
+				dev->_keys[ev.code / 8] &= ~(1 << (ev.code % 8));
+		}
+
 		if (ev.code >= 256) {
 			switch (ev.code) {
 				/*
@@ -548,7 +603,7 @@ struct device_event *device_read_event(struct device *dev)
 				default:
 					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP)) {
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
-						return NULL;
+						return dev->_syncing ? device_read_event(dev) : NULL;
 					}
 			}
 		}
diff --git a/src/device.h b/src/device.h
index 0a12699..a8bfbac 100644
--- a/src/device.h
+++ b/src/device.h
@@ -35,6 +35,12 @@ struct device {
 	uint32_t _minx;
 	uint32_t _miny;
 
+	/* The (evdev) keys reported as being down, used to resynchronize after a loss of events. */
+	uint8_t _keys[KEY_CNT / 8];
+	uint8_t _sync_keys[KEY_CNT / 8];
+	uint8_t _syncing;
+	uint8_t _removed;
+
 	/* Reserved for the user. */
 	void *data;
 };
-- 
2.43.0


From 4d1dca16c98b39951d9e111755c727b63e32eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 05/66] fix: close the descriptor of devices which cannot be
 initialized

---
 src/device.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/device.c b/src/device.c
index 1ea3c99..de629ff 100644
--- a/src/device.c
+++ b/src/device.c
@@ -136,14 +136,14 @@ static int device_init(const char *path, struct device *dev)
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
 	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
-		keyd_log("ERROR: could not fetch device name of %s\n", dev->path);
-		return -1;
+		keyd_log("ERROR: could not fetch device name of %s\n", path);
+		goto fail;
 	}
 
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
-			return -1;
+			goto fail;
 		}
 
 		dev->_minx = absinfo.minimum;
@@ -151,7 +151,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
-			return -1;
+			goto fail;
 		}
 
 		dev->_miny = absinfo.minimum;
@@ -165,7 +165,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
-			return -1;
+			goto fail;
 		}
 
 		strncpy(dev->path, path, sizeof(dev->path)-1);
@@ -192,11 +192,10 @@ static int device_init(const char *path, struct device *dev)
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
-	} else {
-		close(fd);
-		return -1;
 	}
 
+fail:
+	close(fd);
 	return -1;
 }
 
-- 
2.43.0


From ed604525bdcde4e7e9a9c22021166b53421789e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 06/66] fix: do not replay stale events or truncate digitizer
 codes

An unhandled absolute axis caused the previously decoded event to be processed
again, and digitizer contact codes were truncated to 8 bits (e.g BTN_TOUCH
became kpminus).
---
 src/device.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index de629ff..2f859bf 100644
--- a/src/device.c
+++ b/src/device.c
@@ -500,7 +500,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
@@ -604,6 +604,9 @@ struct device_event *device_read_event(struct device *dev)
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
 						return dev->_syncing ? device_read_event(dev) : NULL;
 					}
+
+					/* Digitizer contact, not a key (must not be truncated into one). */
+					ev.code = KEYD_NOOP;
 			}
 		}
 
-- 
2.43.0


From 61015142406dbb3a26095809cf7d0836dea6d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 07/66] fix: do not exit if an LED cannot be set

Writing to a device which had just been unplugged terminated the daemon.
---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 2f859bf..f18b35a 100644
--- a/src/device.c
+++ b/src/device.c
@@ -640,5 +640,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* Best effort, the device may have been removed. */
+	if (write(dev->fd, &ev, sizeof ev) < 0)
+		dbg("failed to set led %d of %s", led, dev->path);
 }
-- 
2.43.0


From 7e1b98fd36943644ed95578f5c9bf104a4efe1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 08/66] fix: ignore surplus devices instead of aborting

---
 src/device.c | 6 +++++-
 src/evloop.c | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index f18b35a..798603c 100644
--- a/src/device.c
+++ b/src/device.c
@@ -229,7 +229,11 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
+			if (n == MAX_DEVICES) {
+				keyd_log("y{WARNING} too many devices, ignoring %s\n", ent->d_name);
+				continue;
+			}
+
 			struct device_worker *w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
diff --git a/src/evloop.c b/src/evloop.c
index 9e1145b..76d5a54 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -132,7 +132,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz == MAX_DEVICES) {
+					keyd_log("y{WARNING} too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From 9070f05771f425dfa887f8f2fca4c57b5dc069ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 09/66] fix: survive misbehaving IPC clients

A client which disconnected early, sent a partial request or did not read its
reply would either hang the daemon or cause it to exit.
---
 src/daemon.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 3e19f7a..ecf94a5 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -90,7 +90,8 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		if (write(con, &s, sizeof s) < 0)
+			dbg("failed to reply to client");
 
 		close(con);
 		return;
@@ -296,6 +297,15 @@ static void reload()
 	clear_vkbd();
 }
 
+/* A client which has gone away (or refuses to read) must not affect the daemon. */
+static void send_message(int con, const struct ipc_message *msg)
+{
+	if (write(con, msg, sizeof *msg) != sizeof *msg)
+		dbg("failed to reply to client");
+
+	close(con);
+}
+
 static void send_success(int con)
 {
 	struct ipc_message msg = {0};
@@ -303,8 +313,7 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
-	close(con);
+	send_message(con, &msg);
 }
 
 static void send_fail(int con, const char *fmt, ...)
@@ -317,8 +326,7 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
-	close(con);
+	send_message(con, &msg);
 
 	va_end(args);
 }
@@ -391,8 +399,17 @@ static int input(char *buf, size_t sz, uint32_t timeout)
 static void handle_client(int con)
 {
 	struct ipc_message msg;
+	struct timeval tv = { .tv_usec = 50000 };
 
-	xread(con, &msg, sizeof msg);
+	/* Avoid blocking the main loop on behalf of uncooperative clients. */
+	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
+	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
+
+	if (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {
+		dbg("discarding incomplete client request");
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -615,7 +632,7 @@ static int event_handler(struct event *ev)
 			int con = accept(ipcfd, NULL, 0);
 			if (con < 0) {
 				perror("accept");
-				exit(-1);
+				break;
 			}
 
 			handle_client(con);
-- 
2.43.0


From 02bb2661a34b3dba734810b7349752f8c3ac09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 10/66] fix: report client failures instead of hanging or
 ignoring them

A connection closed by the daemon caused the client to spin, a failed read of
stdin was treated as a huge amount of input and the result of a reload was
discarded.
---
 src/keyd.c | 6 ++----
 src/util.c | 4 ++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..d5033b2 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -112,7 +112,7 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		}
 	} else {
 		while (1) {
-			size_t n;
+			ssize_t n;
 
 			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
 				break;
@@ -204,9 +204,7 @@ static int layer_listen(int argc, char *argv[])
 
 static int reload()
 {
-	ipc_exec(IPC_RELOAD, NULL, 0, 0);
-
-	return 0;
+	return ipc_exec(IPC_RELOAD, NULL, 0, 0);
 }
 
 struct {
diff --git a/src/util.c b/src/util.c
index 8e35ec5..db9b216 100644
--- a/src/util.c
+++ b/src/util.c
@@ -26,6 +26,10 @@ void xread(int fd, void *buf, size_t sz)
 			perror("read");
 			exit(-1);
 		}
+		if (n == 0) {
+			fprintf(stderr, "ERROR: connection closed unexpectedly\n");
+			exit(-1);
+		}
 		nrd += n;
 	}
 }
-- 
2.43.0


From ce113537e23fa83b1ae61f16973b0a3b74844d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 11/66] fix: do not use a freed keyboard after a reload

active_kbd was left pointing at the old configuration, and dereferenced on the
next unmanaged mouse event or listen request.
---
 src/daemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon.c b/src/daemon.c
index ecf94a5..dd77660 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -31,6 +31,7 @@ static void free_configs()
 	}
 
 	configs = NULL;
+	active_kbd = NULL;
 }
 
 static void cleanup()
-- 
2.43.0


From 443e2cb934d8e76834c7e738491f4ed775ac5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 12/66] fix: keep the loaded configuration if a reload is not
 possible

The daemon exited if the config directory was (momentarily) inaccessible.
---
 src/daemon.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index dd77660..7ea8007 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -184,16 +184,10 @@ static void on_layer_change(const struct keyboard *kbd, const struct layer *laye
 	}
 }
 
-static void load_configs()
+static void load_configs(DIR *dh)
 {
-	DIR *dh = opendir(CONFIG_DIR);
 	struct dirent *dirent;
 
-	if (!dh) {
-		perror("opendir");
-		exit(-1);
-	}
-
 	configs = NULL;
 
 	while ((dirent = readdir(dh))) {
@@ -285,17 +279,25 @@ static void manage_device(struct device *dev)
 	}
 }
 
-static void reload()
+static int reload()
 {
 	size_t i;
+	DIR *dh = opendir(CONFIG_DIR);
+
+	/* Keep whatever is loaded. */
+	if (!dh) {
+		perror("opendir");
+		return -1;
+	}
 
 	free_configs();
-	load_configs();
+	load_configs(dh);
 
 	for (i = 0; i < device_table_sz; i++)
 		manage_device(&device_table[i]);
 
 	clear_vkbd();
+	return 0;
 }
 
 /* A client which has gone away (or refuses to read) must not affect the daemon. */
@@ -448,8 +450,10 @@ static void handle_client(int con)
 			send_success(con);
 		break;
 	case IPC_RELOAD:
-		reload();
-		send_success(con);
+		if (reload())
+			send_fail(con, "failed to open " CONFIG_DIR);
+		else
+			send_success(con);
 		break;
 	case IPC_LAYER_LISTEN:
 		add_listener(con);
@@ -664,7 +668,8 @@ int run_daemon(int argc, char *argv[])
 
 	evloop_add_fd(ipcfd);
 
-	reload();
+	if (reload())
+		exit(-1);
 
 	atexit(cleanup);
 
-- 
2.43.0


From fd49acb8b26167b5388d191de4c83fe49a9d3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 13/66] fix: inform listeners about layers which are dropped by
 a reload

---
 src/daemon.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index 7ea8007..1c41976 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -279,8 +279,36 @@ static void manage_device(struct device *dev)
 	}
 }
 
+/*
+ * A reload discards the state of each keyboard, make sure that anyone
+ * following it is made aware.
+ */
+static void deactivate_layers(struct keyboard *kbd)
+{
+	size_t i;
+	int layout_active = 0;
+
+	for (i = 1; i < kbd->config.nr_layers; i++) {
+		const struct layer *layer = &kbd->config.layers[i];
+
+		if (layer->type == LT_LAYOUT) {
+			layout_active |= kbd->layer_state[i].active;
+			continue;
+		}
+
+		while (kbd->layer_state[i].active) {
+			kbd->layer_state[i].active--;
+			on_layer_change(kbd, layer, 0);
+		}
+	}
+
+	if (layout_active)
+		on_layer_change(kbd, &kbd->config.layers[0], 1);
+}
+
 static int reload()
 {
+	struct config_ent *ent;
 	size_t i;
 	DIR *dh = opendir(CONFIG_DIR);
 
@@ -290,6 +318,9 @@ static int reload()
 		return -1;
 	}
 
+	for (ent = configs; ent; ent = ent->next)
+		deactivate_layers(ent->kbd);
+
 	free_configs();
 	load_configs(dh);
 
-- 
2.43.0


From d0313b4fc562da0b140580c3eb4581a1e702c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 14/66] fix: do not truncate layer names of the maximum length

The trailing newline was lost and the listener consequently dropped.
---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index 1c41976..e15fd45 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -141,7 +141,7 @@ fail:
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From fc691bc1313c9955fc2f24e37ac0601ca692e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 15/66] fix: do not count disconnected clients towards the
 listener limit

---
 src/daemon.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index e15fd45..1739ed2 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -78,6 +78,27 @@ static void send_key(uint8_t code, uint8_t state)
 	}
 }
 
+/*
+ * Disconnected listeners are ordinarily detected on the next layer change,
+ * which may be a long way off.
+ */
+static void prune_listeners()
+{
+	size_t i;
+	size_t n = 0;
+
+	for (i = 0; i < nr_listeners; i++) {
+		char c;
+
+		if (recv(listeners[i], &c, 1, MSG_PEEK | MSG_DONTWAIT) == 0)
+			close(listeners[i]);
+		else
+			listeners[n++] = listeners[i];
+	}
+
+	nr_listeners = n;
+}
+
 static void add_listener(int con)
 {
 	struct timeval tv;
@@ -89,6 +110,9 @@ static void add_listener(int con)
 	tv.tv_usec = 50000;
 	tv.tv_sec = 0;
 
+	if (nr_listeners == ARRAY_SIZE(listeners))
+		prune_listeners();
+
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
 		if (write(con, &s, sizeof s) < 0)
-- 
2.43.0


From 0aa103ec3082835587f29dfc5b4d1558840c056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 16/66] fix: do not leak descriptors into commands

Commands which outlived the daemon held on to its lock (preventing a restart)
and to its client connections.
---
 src/daemon.c          | 1 +
 src/ipc.c             | 3 ++-
 src/vkbd/usb-gadget.c | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 1739ed2..80be317 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -694,6 +694,7 @@ static int event_handler(struct event *ev)
 				perror("accept");
 				break;
 			}
+			fcntl(con, F_SETFD, FD_CLOEXEC);
 
 			handle_client(con);
 		}
diff --git a/src/ipc.c b/src/ipc.c
index e6cbe43..f2e6491 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -57,10 +57,11 @@ int ipc_create_server()
 		perror("socket");
 		exit(-1);
 	}
+	fcntl(sd, F_SETFD, FD_CLOEXEC);
 	addr.sun_family = AF_UNIX;
 	strncpy(addr.sun_path, SOCKET_PATH, sizeof(addr.sun_path)-1);
 	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
-	lfd = open(lockpath, O_CREAT | O_RDONLY, 0600);
+	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);
 
 	if (lfd < 0) {
 		perror("open");
diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 6b9853b..e5fcd9b 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -30,7 +30,7 @@ struct hid_report {
 static int create_virtual_keyboard(void)
 {
 
-	int fd = open("/dev/hidg0", O_WRONLY | O_NONBLOCK);
+	int fd = open("/dev/hidg0", O_WRONLY | O_NONBLOCK | O_CLOEXEC);
 	if (fd < 0) {
 		perror("open");
 		exit(-1);
-- 
2.43.0


From 729cc42c900c19a46fce304b454370218f3ebc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 17/66] fix: do not continue as a second daemon if a command
 cannot be executed

---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 5d47333..a2750a2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -393,6 +393,7 @@ static void execute_command(const char *cmd)
 	dup2(fd, 2);
 
 	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
+	_exit(127);
 }
 
 static void clear_oneshot(struct keyboard *kbd)
-- 
2.43.0


From cc8a1c4b982483d345448fbcb3dc2f94f3e6471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 18/66] fix: reject malformed configs instead of crashing

Superfluous action arguments, valueless globals/aliases, empty section names
and more sections, entries or ids than supported brought down the daemon.
lettermod() was additionally parsed using an out of scope buffer.
---
 src/config.c | 32 +++++++++++++++++++++++++-------
 src/ini.c    |  9 ++++++---
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/config.c b/src/config.c
index 74383aa..a176dd2 100644
--- a/src/config.c
+++ b/src/config.c
@@ -378,6 +378,11 @@ static int config_add_layer(struct config *config, const char *s)
 	strcpy(buf, s);
 	name = strtok(buf, ":");
 
+	if (!name) {
+		err("\"%s\" is not a valid section name (ignoring)", s);
+		return -1;
+	}
+
 	if (config_get_layer_index(config, name) != -1)
 			return 1;
 
@@ -453,7 +458,8 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
 			args[(*nargs)++] = arg;
 		}
 
@@ -547,6 +553,7 @@ static int parse_descriptor(char *s,
 	int ret;
 	struct macro macro;
 	struct command cmd;
+	char buf[1024];
 
 	if (!s || !s[0]) {
 		d->op = 0;
@@ -616,8 +623,6 @@ static int parse_descriptor(char *s,
 		int i;
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
-
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
 				return -1;
@@ -736,6 +741,11 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
+		if (!ent->val) {
+			warn("line %zd: %s has no value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
@@ -771,25 +781,26 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 		struct ini_entry *ent = &section->entries[i];
 		const char *s = ent->key;
 
+		if (config->nr_ids == ARRAY_SIZE(config->ids)) {
+			warn("max ids (%d) exceeded, ignoring %s", ARRAY_SIZE(config->ids), s);
+			continue;
+		}
+
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
 		} else if (strstr(s, "m:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "k:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "-") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_EXCLUDED;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
 		} else if (strlen(s) < sizeof(config->ids[config->nr_ids].id)-1) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD | ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s);
@@ -808,6 +819,11 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
+		if (!name) {
+			warn("line %zd: %s has no value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
@@ -869,6 +885,8 @@ static int config_parse_string(struct config *config, char *content)
 			continue;
 
 		layername = strtok(section->name, ":");
+		if (!layername)
+			continue;
 
 		for (j = 0; j < section->nr_entries;j++) {
 			char entry[MAX_EXP_LEN];
diff --git a/src/ini.c b/src/ini.c
index 6029293..5c8f683 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -107,13 +107,15 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
+				if (n >= MAX_SECTIONS)
+					return NULL;
 
 				section = &ini.sections[n++];
 
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				strncpy(section->name, line+1, sizeof(section->name)-1);
+				section->name[sizeof(section->name)-1] = 0;
 				section->nr_entries = 0;
 				section->lnum = ln;
 
@@ -136,7 +138,8 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 				return NULL;
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (section->nr_entries >= MAX_SECTION_ENTRIES)
+			return NULL;
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From 7c3e01d655feaa715341a3fa78f255cd45cf7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 19/66] fix: handle read errors, missing newlines and size
 limits of config files

A read error silently truncated the config, the last line of an included file
was merged with whatever followed it, and a config of the maximum size was
terminated out of bounds.
---
 src/config.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index a176dd2..aee10df 100644
--- a/src/config.c
+++ b/src/config.c
@@ -123,16 +123,17 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
-		if (line[len-1] != '\n') {
+		if (!len || line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
-		if ((len+sz) > MAX_FILE_SZ) {
+		if ((len+sz) >= MAX_FILE_SZ) {
 			err("maximum file size exceed (%d)", MAX_FILE_SZ);
 			goto fail;
 		}
@@ -164,6 +165,20 @@ static char *read_file(const char *path)
 				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
 					sz += n;
 				close(fd);
+
+				if (n < 0) {
+					err("failed to read %s", resolved_path);
+					goto fail;
+				}
+
+				/* Leave room for the terminator and a trailing newline. */
+				if (sz >= MAX_FILE_SZ-1) {
+					err("maximum file size exceed (%d)", MAX_FILE_SZ);
+					goto fail;
+				}
+
+				if (sz && buf[sz-1] != '\n')
+					buf[sz++] = '\n';
 			}
 		} else {
 			strcpy(buf+sz, line);
@@ -171,6 +186,11 @@ static char *read_file(const char *path)
 		}
 	}
 
+	if (ferror(fh)) {
+		err("failed to read %s", path);
+		goto fail;
+	}
+
 	fclose(fh);
 
 	buf[sz] = 0;
-- 
2.43.0


From be2f80e66ff55ca39b46689408704612cf714f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 20/66] fix: derive the main loop timeout from the outstanding
 deadlines

The list of scheduled timeouts had a fixed capacity (exceeding it aborted the
daemon) and forgot about deadlines which elapsed while the event which set them
was queued.
---
 src/keyboard.c | 65 +++++++++++++++++++++++++-------------------------
 src/keyboard.h |  3 ---
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index a2750a2..02a37b0 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -452,28 +452,42 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 }
 
 
-static void schedule_timeout(struct keyboard *kbd, long timeout)
-{
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
-	kbd->timeouts[kbd->nr_timeouts++] = timeout;
-}
-
+/*
+ * Returns the time remaining until the earliest outstanding deadline, or 0 if
+ * there is none. A deadline may already have elapsed if it was set by a queued
+ * event, in which case it is due as soon as any contemporaneous events have been
+ * processed.
+ */
 static long calculate_main_loop_timeout(struct keyboard *kbd, long time)
 {
 	size_t i;
-	long timeout = 0;
 	size_t n = 0;
+	long expiries[3];
+	long timeout = 0;
 
-	for (i = 0; i < kbd->nr_timeouts; i++)
-		if (kbd->timeouts[i] > time) {
-			if (!timeout || kbd->timeouts[i] < timeout)
-				timeout = kbd->timeouts[i];
+	if (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION)
+		expiries[n++] = kbd->chord.last_code_time + kbd->config.chord_interkey_timeout;
+	else if (kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT)
+		expiries[n++] = kbd->chord.last_code_time + kbd->config.chord_hold_timeout;
 
-			kbd->timeouts[n++] = kbd->timeouts[i];
-		}
+	if (kbd->pending_key.code) {
+		/* Supersedes anything below. */
+		expiries[n++] = kbd->pending_key.expire;
+	} else {
+		if (kbd->oneshot_timeout)
+			expiries[n++] = kbd->oneshot_timeout;
+		if (kbd->active_macro && kbd->macro_timeout)
+			expiries[n++] = kbd->macro_timeout;
+	}
+
+	for (i = 0; i < n; i++) {
+		long remaining = expiries[i] > time ? expiries[i] - time : 2;
+
+		if (!timeout || remaining < timeout)
+			timeout = remaining;
+	}
 
-	kbd->nr_timeouts = n;
-	return timeout ? timeout - time : 0;
+	return timeout;
 }
 
 static long process_descriptor(struct keyboard *kbd, uint8_t code,
@@ -579,8 +593,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->pending_key.action2.op = OP_LAYER;
 			kbd->pending_key.action2.args[0].idx = layer;
 			kbd->pending_key.expire = time+d->args[2].timeout;
-
-			schedule_timeout(kbd, kbd->pending_key.expire);
 		}
 
 		break;
@@ -660,10 +672,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 		} else {
 			if (kbd->oneshot_latch) {
 				kbd->layer_state[idx].oneshot_depth++;
-				if (kbd->config.oneshot_timeout) {
+				if (kbd->config.oneshot_timeout)
 					kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;
-					schedule_timeout(kbd, kbd->oneshot_timeout);
-				}
 			} else {
 				deactivate_layer(kbd, idx);
 				update_mods(kbd, -1, 0);
@@ -692,8 +702,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->active_macro = macro;
 			kbd->active_macro_layer = dl;
 
-			kbd->macro_timeout = time + timeout;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			kbd->macro_timeout = timeout ? time + timeout : 0;
 		}
 
 		break;
@@ -723,8 +732,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->pending_key.dl = dl;
 			kbd->pending_key.expire = time + d->args[1].timeout;
 			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;
-
-			schedule_timeout(kbd, kbd->pending_key.expire);
 		}
 
 		break;
@@ -941,7 +948,6 @@ static int handle_chord(struct keyboard *kbd,
 			case 1:
 				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
 				kbd->chord.last_code_time = time;
-				schedule_timeout(kbd, time + interkey_timeout);
 				return 1;
 			default:
 			case 2:
@@ -949,7 +955,6 @@ static int handle_chord(struct keyboard *kbd,
 
 				if (hold_timeout) {
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					schedule_timeout(kbd, time + hold_timeout);
 				} else {
 					return resolve_chord(kbd);
 				}
@@ -961,7 +966,6 @@ static int handle_chord(struct keyboard *kbd,
 				if (kbd->chord.match) {
 					long timeleft = hold_timeout - interkey_timeout;
 					if (timeleft > 0) {
-						schedule_timeout(kbd, time + timeleft);
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					} else {
 						return resolve_chord(kbd);
@@ -989,7 +993,6 @@ static int handle_chord(struct keyboard *kbd,
 				kbd->chord.last_code_time = time;
 
 				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
-				schedule_timeout(kbd, time + interkey_timeout);
 				return 1;
 			default:
 			case 2:
@@ -997,7 +1000,6 @@ static int handle_chord(struct keyboard *kbd,
 
 				if (hold_timeout) {
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					schedule_timeout(kbd, time + hold_timeout);
 				} else {
 					return resolve_chord(kbd);
 				}
@@ -1140,10 +1142,9 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 		if (code) {
 			kbd->active_macro = NULL;
 			update_mods(kbd, -1, 0);
-		} else if (time >= kbd->macro_timeout) {
+		} else if (kbd->macro_timeout && time >= kbd->macro_timeout) {
 			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);
-			kbd->macro_timeout = time+kbd->macro_repeat_interval;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			kbd->macro_timeout = kbd->macro_repeat_interval ? time + kbd->macro_repeat_interval : 0;
 		}
 	}
 
diff --git a/src/keyboard.h b/src/keyboard.h
index 9d522f1..82c64f8 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -67,9 +67,6 @@ struct keyboard {
 
 	long last_simple_key_time;
 
-	long timeouts[64];
-	size_t nr_timeouts; 
-
 	struct active_chord {
 		uint8_t active;
 		struct chord chord;
-- 
2.43.0


From 119d399d99bbf68a8adfa073688f329ea6dc1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 21/66] fix: tolerate an excess of keys while a decision is
 pending

Filling the queue of a pending tap/hold key or chord, or actuating more chords
than supported, aborted the daemon.
---
 src/keyboard.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 02a37b0..566da64 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -861,6 +861,7 @@ static int resolve_chord(struct keyboard *kbd)
 		size_t i;
 		uint8_t code = 0;
 
+		/* If too many chords are already active the keys are processed individually. */
 		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {
 			struct active_chord *ac = &kbd->active_chords[i];
 			if (!ac->active) {
@@ -873,10 +874,10 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
@@ -1023,6 +1024,9 @@ static int handle_chord(struct keyboard *kbd,
 					return abort_chord(kbd);
 		}
 
+		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+			return abort_chord(kbd);
+
 		return 1;
 	}
 
@@ -1086,6 +1090,10 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 			}
 	}
 
+	/* Too much activity to keep track of, treat it as a timeout. */
+	if (!action.op && kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue))
+		action = kbd->pending_key.action2;
+
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-- 
2.43.0


From 5e3521d68f478b1c1e42501aff3b7806d2c46ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 22/66] fix: keep layer activations balanced across swap()

Swapping away from a toggled layer into one which was already toggled, or while
the (otherwise inert) toggle key was still held, left a layer permanently active.
---
 src/keyboard.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 566da64..faaba4d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -755,8 +755,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
-				activate_layer(kbd, 0, idx);
-				kbd->layer_state[idx].toggled = 1;
+				if (!kbd->layer_state[idx].toggled) {
+					activate_layer(kbd, 0, idx);
+					kbd->layer_state[idx].toggled = 1;
+				}
 				update_mods(kbd, -1, 0);
 			} else if (kbd->layer_state[dl].oneshot_depth) {
 				deactivate_layer(kbd, dl);
@@ -770,8 +772,23 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					uint8_t code = kbd->cache[i].code;
 					int layer = kbd->cache[i].layer;
 					int type = kbd->config.layers[layer].type;
+					int held;
+
+					/* Only keys which deactivate the layer when released. */
+					switch (kbd->cache[i].d.op) {
+					case OP_LAYER:
+					case OP_LAYERM:
+					case OP_OVERLOAD:
+					case OP_ONESHOT:
+					case OP_ONESHOTM:
+						held = 1;
+						break;
+					default:
+						held = 0;
+						break;
+					}
 
-					if (code && layer == dl && type == LT_NORMAL && layer != 0) {
+					if (code && held && layer == dl && type == LT_NORMAL && layer != 0) {
 						ce = &kbd->cache[i];
 						break;
 					}
-- 
2.43.0


From 64205305f0e8ef471d970338c581fc9766c690ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 23/66] fix: only release keys which are held by a macro

Delays between held keys were mistaken for key codes.
---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..ad6f129 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From dc2cb927c12061c8d3858ece6d9451c4660db6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 24/66] fix: do not overwrite a chord with one of its subsets

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index aee10df..4654eed 100644
--- a/src/config.c
+++ b/src/config.c
@@ -238,7 +238,7 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 				}
 		}
 
-		if (nm == n)
+		if (nm == n && n == chord->sz)
 			return &chord->d;
 	}
 
-- 
2.43.0


From c932d34e0638bbb536a990cd7c356bbe197b58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 25/66] fix: preserve the meaning of held keys across 'bind
 reset'

---
 src/keyboard.c | 21 +++++++++++++++++++--
 src/keyboard.h |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index faaba4d..9677044 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -346,7 +346,8 @@ static int check_chord_match(struct keyboard *kbd, const struct chord **chord, i
 			if (ret == 2 &&
 				maxts <= kbd->layer_state[idx].activation_time) {
 				*chord_layer = (int)idx;
-				*chord = &layer->chords[i];
+				kbd->chord.match_copy = layer->chords[i];
+				*chord = &kbd->chord.match_copy;
 
 				full_match = 1;
 				maxts = kbd->layer_state[idx].activation_time;
@@ -1236,7 +1237,23 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
-		memcpy(&kbd->config, kbd->original_config, sizeof(struct config));
+		size_t i;
+		int busy = kbd->pending_key.code || kbd->active_macro ||
+			   kbd->chord.state != CHORD_INACTIVE;
+
+		for (i = 0; i < CACHE_SIZE; i++)
+			if (kbd->cache[i].code)
+				busy = 1;
+
+		/*
+		 * The auxiliary tables may still be referenced by keys which
+		 * are currently held down.
+		 */
+		if (busy)
+			memcpy(kbd->config.layers, kbd->original_config->layers, sizeof(kbd->config.layers));
+		else
+			memcpy(&kbd->config, kbd->original_config, sizeof(struct config));
+
 		return 0;
 	} else {
 		return config_add_entry(&kbd->config, exp);
diff --git a/src/keyboard.h b/src/keyboard.h
index 82c64f8..514f03b 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -78,6 +78,7 @@ struct keyboard {
 		size_t queue_sz;
 
 		const struct chord *match;
+		struct chord match_copy; /* The binding may change before the chord is resolved. */
 		int match_layer;
 
 		uint8_t start_code;
-- 
2.43.0


From c3260a31623c41666516c356beda63b479946046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 26/66] fix: do not drop usb-gadget reports if the endpoint is
 busy

---
 src/vkbd/usb-gadget.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index e5fcd9b..68b6e74 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -10,6 +10,8 @@
 #include <string.h>
 #include <fcntl.h>
 #include <unistd.h>
+#include <errno.h>
+#include <poll.h>
 #include "../keys.h"
 #include "usb-gadget.h"
 
@@ -42,15 +44,23 @@ static int create_virtual_keyboard(void)
 static void send_hid_report(const struct vkbd *vkbd)
 {
 
-	struct hid_report report;
+	struct hid_report report = {0};
 
 	for (int i = 0; i < 6; i++)
 		report.hid_code[i] = keys[i];
 
 	report.hid_mods = mods;
 
-	write(vkbd->fd, &report, sizeof(report));
+	/*
+	 * The endpoint is busy until the host has collected the previous
+	 * report, give it a chance to do so rather than dropping state.
+	 */
+	while (write(vkbd->fd, &report, sizeof(report)) < 0 && errno == EAGAIN) {
+		struct pollfd pfd = { .fd = vkbd->fd, .events = POLLOUT };
 
+		if (poll(&pfd, 1, 50) <= 0)
+			break;
+	}
 }
 
 static uint8_t get_modifier(int code)
-- 
2.43.0


From fa2792239a5bc46184b8756cfa9d0e3892eefe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 27/66] fix: handle messages from the compositor which arrive
 in pieces

---
 scripts/keyd-application-mapper | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 91c4c93..136d797 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -194,13 +194,24 @@ class Wayland():
         self.sock.sendall(struct.pack(b'II', object_id, opcode))
         self.sock.sendall(payload)
 
+    def recv_exact(self, n):
+        data = b''
+
+        while len(data) < n:
+            chunk = self.sock.recv(n - len(data))
+            if not chunk:
+                raise EOFError('compositor closed the connection')
+            data += chunk
+
+        return data
+
     def recv_msg(self):
-        (object_id, evcode) = struct.unpack('II', self.sock.recv(8))
+        (object_id, evcode) = struct.unpack('II', self.recv_exact(8))
 
         size = evcode >> 16
         evcode = evcode & 0xFFFF
 
-        data = self.sock.recv(size-8)
+        data = self.recv_exact(size-8)
 
         return (object_id, evcode, data)
 
-- 
2.43.0


From eaf181b245a8077b7cf621f33ccb7ba3114dfba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 28/66] fix: do not confuse windows which share a title and
 application id

---
 scripts/keyd-application-mapper | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 136d797..c431457 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -269,7 +269,7 @@ class Wlroots():
                 windows[obj]['appid'] = self.wl.read_string(payload)
             elif event == 4:
                 # zwlr_foreign_toplevel_handle_v1::state event
-                if active_window == windows[obj]:
+                if active_window is windows[obj]:
                     active_window = None
                 window_is_active = False
 
@@ -284,13 +284,13 @@ class Wlroots():
 
                 if window_is_active:
                     active_window = windows[obj]
-            elif event == 5 and active_window == windows[obj]:
+            elif event == 5 and active_window is windows[obj]:
                 # zwlr_foreign_toplevel_handle_v1::done event
                 self.on_window_change(active_window['appid'], active_window['title'])
             elif event == 6:
                 # zwlr_foreign_toplevel_handle_v1::closed event
                 closed_window = windows.pop(obj)
-                if closed_window == active_window:
+                if closed_window is active_window:
                     active_window = None
 
 class Cosmic():
-- 
2.43.0


From d34ed7ec2fa3cde61a2c8963733002db09d63703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 29/66] fix: let the first activated layer take precedence over
 the layout

---
 src/keyboard.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 9677044..993d8dc 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -14,8 +14,11 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 
 static long get_time()
 {
-	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	/*
+	 * Close enough :/. Using a syscall is unnecessary (1 is the activation
+	 * time of layouts, which are occluded by any subsequent layer).
+	 */
+	static long time = 2;
 	return time++;
 }
 
-- 
2.43.0


From 6dd0754e1604efa16dcc9dd05d5f7920ba3a8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 30/66] fix: do not drop the first unicode codepoint of the
 compose table

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index ad6f129..ceb3954 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
-- 
2.43.0


From a86a4072afd950379b4723f9a765863cc21320c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 31/66] fix: track the panic sequence per device

---
 src/device.c |  1 +
 src/device.h |  3 +++
 src/evloop.c | 26 +++++++++++++++++++-------
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/device.c b/src/device.c
index 798603c..4c90b3c 100644
--- a/src/device.c
+++ b/src/device.c
@@ -189,6 +189,7 @@ static int device_init(const char *path, struct device *dev)
 		memset(dev->_keys, 0, sizeof dev->_keys);
 		dev->_syncing = 0;
 		dev->_removed = 0;
+		dev->panic_keys = 0;
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
diff --git a/src/device.h b/src/device.h
index a8bfbac..aa7fb21 100644
--- a/src/device.h
+++ b/src/device.h
@@ -41,6 +41,9 @@ struct device {
 	uint8_t _syncing;
 	uint8_t _removed;
 
+	/* The keys of the panic sequence which are held down. */
+	uint8_t panic_keys;
+
 	/* Reserved for the user. */
 	void *data;
 };
diff --git a/src/evloop.c b/src/evloop.c
index 76d5a54..2531987 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -8,22 +8,34 @@ static size_t nr_aux_fds = 0;
 struct device device_table[MAX_DEVICES];
 size_t device_table_sz;
 
-static void panic_check(uint8_t code, uint8_t pressed)
+/* A key may be held on one device while it is released on another. */
+static void panic_check(struct device *dev, uint8_t code, uint8_t pressed)
 {
-	static uint8_t enter, backspace, escape;
+	size_t i;
+	uint8_t mask = 0;
+	uint8_t held = 0;
+
 	switch (code) {
 	case KEYD_ENTER:
-		enter = pressed;
+		mask = 0x1;
 		break;
 	case KEYD_BACKSPACE:
-		backspace = pressed;
+		mask = 0x2;
 		break;
 	case KEYD_ESC:
-		escape = pressed;
+		mask = 0x4;
 		break;
 	}
 
-	if (backspace && enter && escape)
+	if (pressed)
+		dev->panic_keys |= mask;
+	else
+		dev->panic_keys &= ~mask;
+
+	for (i = 0; i < device_table_sz; i++)
+		held |= device_table[i].panic_keys;
+
+	if (held == 0x7)
 		die("panic sequence detected");
 }
 
@@ -104,7 +116,7 @@ int evloop(int (*event_handler) (struct event *ev))
 					} else {
 						//Handle device event
 						if (devev->type == DEV_KEY && !device_table[i].is_virtual)
-							panic_check(devev->code, devev->pressed);
+							panic_check(&device_table[i], devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From e30fe18d6828e581afd44a10a9ff296adf9e14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 32/66] fix: enable the voice command key on the virtual
 keyboard

---
 src/vkbd/uinput.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..f856107 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -84,6 +84,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
-- 
2.43.0


From ee6a9d27056e96778da5a1c4794b45bfcfde1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 33/66] fix: forget panic keys which were released before a
 device is grabbed

---
 src/device.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device.c b/src/device.c
index 4c90b3c..596770d 100644
--- a/src/device.c
+++ b/src/device.c
@@ -367,7 +367,9 @@ int device_grab(struct device *dev)
 	while (read(dev->fd, &ev, sizeof(ev)) > 0) {
 	}
 
+	/* Whatever was held before the grab has been released. */
 	memset(dev->_keys, 0, sizeof dev->_keys);
+	dev->panic_keys = 0;
 	dev->grabbed = 1;
 	return 0;
 }
-- 
2.43.0


From 792f932854158d6aad9b19c9ec54a873412f30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 34/66] fix: deliver the release of a nested tap action through
 the event logic

Tapping an overload() key whose tap action is itself time dependent
(timeout(), overloadt(), overloadi()) left the chosen key pressed: the
physical release had already been consumed by the time the nested
action was resolved.
---
 src/keyboard.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 993d8dc..638e90a 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -658,8 +658,15 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
 				} else {
+					/*
+					 * The action may itself be time dependent, so the
+					 * release has to go through the regular event logic.
+					 */
+					struct cache_entry ce = { .code = code, .d = *action, .dl = dl };
+
+					cache_set(kbd, code, &ce);
 					process_descriptor(kbd, code, action, dl, 1, time);
-					process_descriptor(kbd, code, action, dl, 0, time);
+					process_event(kbd, code, 0, time);
 				}
 			}
 		}
-- 
2.43.0


From 1c1716af226cb1b71d38d248b4a7cc5654dd2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 35/66] fix: do not count a key struck on two keyboards twice
 when matching chords

---
 src/keyboard.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 638e90a..ed29fa3 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1009,6 +1009,14 @@ static int handle_chord(struct keyboard *kbd,
 			return 0;
 		}
 
+		/*
+		 * The same key may be struck on several keyboards, it must not be
+		 * mistaken for one of the missing constituents of the chord.
+		 */
+		for (i = 0; pressed && i < kbd->chord.queue_sz; i++)
+			if (kbd->chord.queue[i].code == code)
+				return 1;
+
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed)
-- 
2.43.0


From 3a3c76ad80328c6ce3ee1a4c859e0d136e8f9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 36/66] fix: do not leave modifiers of a oneshot layer or of
 clearm() pressed

toggle() dropped the active oneshot layers only after the modifiers had
been updated, and clearm() never restored them after running its macro,
so they stayed pressed until the next key event.
---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index ed29fa3..775f37b 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -629,6 +629,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			clear(kbd);
 			macro = &kbd->config.macros[d->args[0].idx];
 			execute_macro(kbd, dl, macro);
+			update_mods(kbd, -1, 0);
 		}
 		break;
 	case OP_CLEAR:
@@ -729,8 +730,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				deactivate_layer(kbd, idx);
 
-			update_mods(kbd, -1, 0);
 			clear_oneshot(kbd);
+			update_mods(kbd, -1, 0);
 		}
 
 		break;
-- 
2.43.0


From df542a76a1da15424db2195df1002292bc07b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 37/66] fix: release the action chosen by an overloadi() nested
 in another one

---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 775f37b..7f10b5c 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -571,13 +571,14 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				action = &kbd->config.descriptors[d->args[0].idx];
 
-			process_descriptor(kbd, code, action, dl, 1, time);
+			/* Precedes the press, since the action may itself be an overloadi(). */
 			for (i = 0; i < CACHE_SIZE; i++) {
 				if (code == kbd->cache[i].code) {
 					kbd->cache[i].d = *action;
 					break;
 				}
 			}
+			process_descriptor(kbd, code, action, dl, 1, time);
 		}
 		break;
 	case OP_OVERLOAD_TIMEOUT_TAP:
-- 
2.43.0


From a948b029510bc40d6614bede978c85248409cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 38/66] fix: keep the order of keys which are held back while a
 chord is undecided

---
 src/keyboard.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 7f10b5c..6c6e75e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1154,8 +1154,19 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		});
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
-		/* Flush queued events */
-		kbd_process_events(kbd, queue, queue_sz);
+		/*
+		 * Flush queued events. These precede the events of a chord which
+		 * is still undecided, and must not be appended to it.
+		 */
+		if (kbd->chord.state == CHORD_INACTIVE) {
+			kbd_process_events(kbd, queue, queue_sz);
+		} else {
+			int state = kbd->chord.state;
+
+			kbd->chord.state = CHORD_RESOLVING;
+			kbd_process_events(kbd, queue, queue_sz);
+			kbd->chord.state = state;
+		}
 	}
 
 	return 1;
-- 
2.43.0


From 29732ea1460cc35e7dcc86de3758fa4ef2b11330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 39/66] fix: release the modifiers of a macro which is tapped
 through overload()

---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 6c6e75e..76b37e4 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -659,6 +659,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					 */
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
+					update_mods(kbd, dl, 0);
 				} else {
 					/*
 					 * The action may itself be time dependent, so the
-- 
2.43.0


From 7e78e4b7ea7e0ed574693a7372383059f0505e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 40/66] fix: prune disconnected listeners regardless of unread
 data

A connection whose peer hung up with unread data reports an error (or
stale input) instead of an end of file.
---
 src/daemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 80be317..734ce33 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -88,9 +88,9 @@ static void prune_listeners()
 	size_t n = 0;
 
 	for (i = 0; i < nr_listeners; i++) {
-		char c;
+		struct pollfd pfd = {.fd = listeners[i]};
 
-		if (recv(listeners[i], &c, 1, MSG_PEEK | MSG_DONTWAIT) == 0)
+		if (poll(&pfd, 1, 0) > 0 && (pfd.revents & (POLLHUP | POLLERR)))
 			close(listeners[i]);
 		else
 			listeners[n++] = listeners[i];
-- 
2.43.0


From ebbd033e251f9bf48740a616f69a09667c8d11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 41/66] fix: apply the bindings of maximized and retitled
 windows under cosmic

The activated state is not necessarily the first one of a window, and
a change of its title (or application id) may affect the bindings which
match it.
---
 scripts/keyd-application-mapper | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index c431457..f6f33c7 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -303,17 +303,40 @@ class Cosmic():
 
     def run(self):
         windows = {}
+        active_window = None
+
         while True:
             (obj, event, payload) = self.wl.recv_msg()
+            if obj == 4 and event == 0:
+                # zcosmic_toplevel_info_v1::toplevel event
+                windows[struct.unpack('I', payload)[0]] = {'title': '', 'appid': ''}
+                continue
+
             if obj not in windows:
-                windows[obj]={}
+                continue
 
-            if event == 2:
+            if event == 0:
+                # zcosmic_toplevel_handle_v1::closed event
+                if windows.pop(obj) is active_window:
+                    active_window = None
+            elif event == 2:
+                # zcosmic_toplevel_handle_v1::title event
                 windows[obj]['title'] = self.wl.read_string(payload)
-            if event == 3:
+            elif event == 3:
+                # zcosmic_toplevel_handle_v1::app_id event
                 windows[obj]['appid'] = self.wl.read_string(payload)
-            if event == 8  and payload[0] > 0 and payload[4] == 2:
-                self.on_window_change(windows[obj].get('appid', ''), windows[obj].get('title', ''))
+            elif event == 8:
+                # zcosmic_toplevel_handle_v1::state event
+                array_size = struct.unpack('I', payload[0:4])[0]
+
+                # zcosmic_toplevel_handle_v1::state enum -> activated
+                if 2 in struct.unpack(f'{array_size // 4}I', payload[4:4+array_size]):
+                    active_window = windows[obj]
+                elif active_window is windows[obj]:
+                    active_window = None
+
+            if event in (2, 3, 8) and active_window is windows[obj]:
+                self.on_window_change(active_window['appid'], active_window['title'])
 
 class XMonitor():
     def __init__(self, on_window_change):
-- 
2.43.0


From 67a32067632a803049dab86b72d0b7484636670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 42/66] fix: do not miss focus changes under gnome

select() knows nothing about lines which have already been buffered, the
focus changes they describe were not applied before the next one. Titles
may contain tabs.
---
 scripts/keyd-application-mapper | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index f6f33c7..9e53d60 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -477,24 +477,31 @@ NOTE:
             exit(0)
 
     def run(self):
-        fh = open(self.fifo_path)
+        # Keeping the fifo open for writing prevents us from
+        # reaching the end of it if the shell is restarted.
+        fd = os.open(self.fifo_path, os.O_RDWR)
+        partial_line = b''
         last_cls = ''
         last_title = ''
 
-        for line in new_interruptible_generator(fh.fileno(), fh.readline, None):
-            if line == None:
+        for data in new_interruptible_generator(fd, lambda: os.read(fd, 4096), None):
+            if data == None:
                 self.on_window_change(last_cls, last_title)
                 continue
 
-            try:
-                (cls, title) = line.strip('\n').split('\t')
-                last_cls = cls
-                last_title = title
-            except:
-                cls = ''
-                title = ''
+            # A read may return several lines, or a part of one.
+            *lines, partial_line = (partial_line + data).split(b'\n')
+
+            for line in lines:
+                try:
+                    (cls, title) = line.decode('utf8', 'replace').split('\t', 1)
+                    last_cls = cls
+                    last_title = title
+                except:
+                    cls = ''
+                    title = ''
 
-            self.on_window_change(cls, title)
+                self.on_window_change(cls, title)
 
 def get_monitor(on_window_change):
     monitors = [
-- 
2.43.0


From 5fe321ba2f55d0c1ae69ab3be7122e1b1442863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 43/66] fix: survive an unreadable app.conf

Editors commonly replace a file instead of overwriting it, a focus change
in between terminated the mapper.
---
 scripts/keyd-application-mapper | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 9e53d60..d7a5eae 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -578,12 +578,16 @@ def on_window_change(cls, title):
     cls = normalize_class(cls)
     title = normalize_title(title)
 
-    mtime = os.path.getmtime(CONFIG_PATH)
-
-    if mtime != last_mtime:
-        print(CONFIG_PATH + ': Updated, reloading config...')
-        config = parse_config(CONFIG_PATH)
-        last_mtime = mtime
+    # The file may be absent (or incomplete) while it is being replaced.
+    try:
+        mtime = os.path.getmtime(CONFIG_PATH)
+
+        if mtime != last_mtime:
+            print(CONFIG_PATH + ': Updated, reloading config...')
+            config = parse_config(CONFIG_PATH)
+            last_mtime = mtime
+    except Exception as e:
+        print(f'{CONFIG_PATH}: failed to reload config: {e}')
 
     if args.verbose:
         print(f'Active window: {cls}|{title}')
-- 
2.43.0


From ad7f390814851ba2dc5a666e9f7e3560edb95435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 44/66] fix: report keys which did not fit into an earlier
 usb-gadget report

---
 src/vkbd/usb-gadget.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 68b6e74..f1e486c 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -115,10 +115,15 @@ static int update_modifier_state(int code, int state)
 
 static void update_key_state(uint16_t code, int state)
 {
+	static uint8_t held[256] = {0};
+
 	int i;
+	int j;
 	int set = 0;
 	uint8_t hid_code = hid_table[code];
 
+	held[hid_code] = state;
+
 	for (i = 0; i < 6; i++) {
 		if (keys[i] == hid_code) {
 			set = 1;
@@ -134,6 +139,24 @@ static void update_key_state(uint16_t code, int state)
 			}
 		}
 	}
+
+	/* Report keys which did not fit into the report when they were struck. */
+	for (i = 1; i < 256 && !state; i++) {
+		int free_slot = -1;
+
+		if (!held[i])
+			continue;
+
+		for (j = 0; j < 6; j++) {
+			if (keys[j] == i)
+				break;
+			if (!keys[j])
+				free_slot = j;
+		}
+
+		if (j == 6 && free_slot != -1)
+			keys[free_slot] = i;
+	}
 }
 
 struct vkbd *vkbd_init(const char *name)
-- 
2.43.0


From 6196d38f660cd61b1b365a1b86335c1b13c58000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 45/66] fix: do not send truncated input when stdin cannot be
 read

keyd do and keyd input treated a read error as the end of the input and
executed whatever had been read until then.
---
 src/keyd.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index d5033b2..cb79e10 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -114,8 +114,16 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		while (1) {
 			ssize_t n;
 
-			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
+			n = read(0, buf+sz, bufsz-sz);
+
+			if (n < 0) {
+				perror("read");
+				exit(-1);
+			}
+
+			if (n == 0)
 				break;
+
 			sz += n;
 
 			if (bufsz == sz)
-- 
2.43.0


From 79cac482dd4e2532c2e8a2850dfadb09603f2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 46/66] fix: do not accept an empty key name

The left modifiers had an empty string as their alternate name, so that an
empty name was taken for a key (e.g "C-" was C-leftcontrol instead of an
error) and list-keys printed empty lines.
---
 src/keys.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keys.c b/src/keys.c
index 77d055f..d4db658 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -44,7 +44,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_LEFTBRACE] = { "[", "leftbrace", "{" },
 	[KEYD_RIGHTBRACE] = { "]", "rightbrace", "}" },
 	[KEYD_ENTER] = { "enter", NULL, NULL },
-	[KEYD_LEFTCTRL] = { "leftcontrol", "", NULL },
+	[KEYD_LEFTCTRL] = { "leftcontrol", NULL, NULL },
 	[KEYD_IS_LEVEL3_SHIFT] = { "iso-level3-shift", NULL, NULL }, //Oddly missing from input-event-codes.h, appears to be used as altgr in an english keymap on X
 	[KEYD_A] = { "a", NULL, "A" },
 	[KEYD_S] = { "s", NULL, "S" },
@@ -58,7 +58,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SEMICOLON] = { ";", "semicolon", ":" },
 	[KEYD_APOSTROPHE] = { "'", "apostrophe", "\"" },
 	[KEYD_GRAVE] = { "`", "grave", "~" },
-	[KEYD_LEFTSHIFT] = { "leftshift", "", NULL },
+	[KEYD_LEFTSHIFT] = { "leftshift", NULL, NULL },
 	[KEYD_BACKSLASH] = { "\\", "backslash", "|" },
 	[KEYD_Z] = { "z", NULL, "Z" },
 	[KEYD_X] = { "x", NULL, "X" },
@@ -72,7 +72,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SLASH] = { "/", "slash", "?" },
 	[KEYD_RIGHTSHIFT] = { "rightshift", NULL, NULL },
 	[KEYD_KPASTERISK] = { "kpasterisk", NULL, NULL },
-	[KEYD_LEFTALT] = { "leftalt", "", NULL },
+	[KEYD_LEFTALT] = { "leftalt", NULL, NULL },
 	[KEYD_SPACE] = { "space", NULL, NULL },
 	[KEYD_CAPSLOCK] = { "capslock", NULL, NULL },
 	[KEYD_F1] = { "f1", NULL, NULL },
@@ -140,7 +140,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_HANGEUL] = { "hangeul", NULL, NULL },
 	[KEYD_HANJA] = { "hanja", NULL, NULL },
 	[KEYD_YEN] = { "yen", NULL, NULL },
-	[KEYD_LEFTMETA] = { "leftmeta", "", NULL },
+	[KEYD_LEFTMETA] = { "leftmeta", NULL, NULL },
 	[KEYD_RIGHTMETA] = { "rightmeta", NULL, NULL },
 	[KEYD_COMPOSE] = { "compose", NULL, NULL },
 	[KEYD_STOP] = { "stop", NULL, NULL },
-- 
2.43.0


From 557a468098eaf6f324dffcc85b7bc2d14049c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 47/66] fix: enforce the maximum number of composite layer
 constituents

The count which was checked never changed, so that the constituents of a
layer with more than 8 of them were written past the end of the array.
---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 4654eed..9fea50a 100644
--- a/src/config.c
+++ b/src/config.c
@@ -335,7 +335,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -353,7 +352,7 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
 				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
-- 
2.43.0


From 86ecb14abbce7bfb230e13739907962ecbe70733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 48/66] fix: accept . as an action in bind expressions without
 a layer

"a = ." was taken for a binding of the layer "a = ".
---
 src/config.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 9fea50a..221fd9f 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1022,7 +1022,7 @@ int config_get_layer_index(const struct config *config, const char *name)
  */
 int config_add_entry(struct config *config, const char *exp)
 {
-	char *keyname, *descstr, *dot, *paren, *s;
+	char *keyname, *descstr, *dot, *paren, *eq, *s;
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
@@ -1040,8 +1040,10 @@ int config_add_entry(struct config *config, const char *exp)
 
 	dot = strchr(s, '.');
 	paren = strchr(s, '(');
+	/* The key may itself be =. */
+	eq = s[0] ? strchr(s+1, '=') : NULL;
 
-	if (dot && dot != s && (!paren || dot < paren)) {
+	if (dot && dot != s && (!paren || dot < paren) && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From c5b0b3e72583ebed278f7ece1ba1417ff34d1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 49/66] fix: do not install bindings which exceed the maximum
 length

They were truncated, which could leave a valid but different action (e.g a
command cut off after a closing parenthesis).
---
 src/config.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 221fd9f..0432cc3 100644
--- a/src/config.c
+++ b/src/config.c
@@ -916,7 +916,12 @@ static int config_parse_string(struct config *config, char *content)
 				continue;
 			}
 
-			snprintf(entry, sizeof entry, "%s.%s = %s", layername, ent->key, ent->val);
+			if (snprintf(entry, sizeof entry, "%s.%s = %s",
+				     layername, ent->key, ent->val) >= (int)sizeof entry) {
+				keyd_log("\tr{ERROR:} line m{%zd}: maximum expression length (%d) exceeded\n",
+					 ent->lnum, MAX_EXP_LEN);
+				continue;
+			}
 
 			if (config_add_entry(config, entry) < 0)
 				keyd_log("\tr{ERROR:} line m{%zd}: %s\n", ent->lnum, errstr);
-- 
2.43.0


From 4ab4e64ddc5f5e0d00f4ddee2722a99cc7f5986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 50/66] fix: do not truncate macro delays which exceed 65535 ms

---
 src/macro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.h b/src/macro.h
index 9e6cd48..80b398e 100644
--- a/src/macro.h
+++ b/src/macro.h
@@ -13,7 +13,7 @@ struct macro_entry {
 		MACRO_TIMEOUT
 	} type;
 
-	uint16_t data;
+	uint32_t data;
 };
 
 /*
-- 
2.43.0


From c394de686bf324f383a8a4120ceed1ec64743137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 51/66] fix: reject bindings of + which name no key

"+ = a" was reported as a success without binding anything.
---
 src/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config.c b/src/config.c
index 0432cc3..d2c570a 100644
--- a/src/config.c
+++ b/src/config.c
@@ -279,6 +279,10 @@ static int set_layer_entry(const struct config *config,
 			keys[n++] = code;
 		}
 
+		if (!n) {
+			err("chords must contain at least one key");
+			return -1;
+		}
 
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
-- 
2.43.0


From 778cb1dac540db69b7d463513d48cc7529df700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 52/66] fix: ignore absolute axes without a range

They are permitted by the kernel (e.g for uinput devices) and caused the
daemon to die of a division by zero on the first event.
---
 src/device.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/device.c b/src/device.c
index 596770d..b3fd7db 100644
--- a/src/device.c
+++ b/src/device.c
@@ -494,12 +494,19 @@ struct device_event *device_read_event(struct device *dev)
 	case EV_ABS:
 		switch (ev.code) {
 		case ABS_X:
+			/* The kernel permits axes without a range (e.g of uinput devices). */
+			if (dev->_maxx == dev->_minx)
+				return NULL;
+
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
+			if (dev->_maxy == dev->_miny)
+				return NULL;
+
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
 			devev.x = 0;
-- 
2.43.0


From de52b22772f91ad662fd2b8a123f609b47446696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 53/66] fix: take the start of an axis into account when
 scaling absolute positions

Positions were offset on devices whose axes do not start at 0, and garbage
on those with negative ones.
---
 src/device.c | 14 ++++++++++----
 src/device.h |  8 ++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/device.c b/src/device.c
index b3fd7db..a3ff0a8 100644
--- a/src/device.c
+++ b/src/device.c
@@ -410,6 +410,12 @@ static int next_sync_event(struct device *dev, struct input_event *ev)
 	return 0;
 }
 
+/* Express the given axis position relative to a resolution of 1024. */
+static int32_t scale_abs(int32_t value, int32_t min, int32_t max)
+{
+	return (((int64_t)value - min) * 1024) / ((int64_t)max - min);
+}
+
 /*
  * Read a device event from the given device or return
  * NULL if none are available (may happen in the
@@ -495,20 +501,20 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			/* The kernel permits axes without a range (e.g of uinput devices). */
-			if (dev->_maxx == dev->_minx)
+			if (dev->_maxx <= dev->_minx)
 				return NULL;
 
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
+			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
-			if (dev->_maxy == dev->_miny)
+			if (dev->_maxy <= dev->_miny)
 				return NULL;
 
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
+			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
 			devev.x = 0;
 
 			break;
diff --git a/src/device.h b/src/device.h
index aa7fb21..d4f1849 100644
--- a/src/device.h
+++ b/src/device.h
@@ -30,10 +30,10 @@ struct device {
 	char path[256];
 
 	/* Internal. */
-	uint32_t _maxx;
-	uint32_t _maxy;
-	uint32_t _minx;
-	uint32_t _miny;
+	int32_t _maxx;
+	int32_t _maxy;
+	int32_t _minx;
+	int32_t _miny;
 
 	/* The (evdev) keys reported as being down, used to resynchronize after a loss of events. */
 	uint8_t _keys[KEY_CNT / 8];
-- 
2.43.0


From c06ff9af92af465c5c635f82a8dd6692619805eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 54/66] fix: forward absolute positions at the edge of an axis

A position of 0 was taken for the absence of movement along that axis.
---
 src/device.c      | 4 ++--
 src/device.h      | 3 +++
 src/vkbd/uinput.c | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/device.c b/src/device.c
index a3ff0a8..429acd6 100644
--- a/src/device.c
+++ b/src/device.c
@@ -506,7 +506,7 @@ struct device_event *device_read_event(struct device *dev)
 
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
-			devev.y = 0;
+			devev.y = DEV_ABS_NONE;
 
 			break;
 		case ABS_Y:
@@ -515,7 +515,7 @@ struct device_event *device_read_event(struct device *dev)
 
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
-			devev.x = 0;
+			devev.x = DEV_ABS_NONE;
 
 			break;
 		default:
diff --git a/src/device.h b/src/device.h
index d4f1849..5e4bf00 100644
--- a/src/device.h
+++ b/src/device.h
@@ -48,6 +48,9 @@ struct device {
 	void *data;
 };
 
+/* The position along an axis which a DEV_MOUSE_MOVE_ABS event says nothing about. */
+#define DEV_ABS_NONE INT32_MIN
+
 struct device_event {
 	enum {
 		DEV_KEY,
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index f856107..734dbcf 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -307,7 +307,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 {
 	struct input_event ev;
 
-	if (x) {
+	if (x != DEV_ABS_NONE) {
 		ev.type = EV_ABS;
 		ev.code = ABS_X;
 		ev.value = x;
@@ -318,7 +318,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 		xwrite(vkbd->pfd, &ev, sizeof(ev));
 	}
 
-	if (y) {
+	if (y != DEV_ABS_NONE) {
 		ev.type = EV_ABS;
 		ev.code = ABS_Y;
 		ev.value = y;
-- 
2.43.0


From d61f2d637c8fae942dc1ea6d89afc6e25da1f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 55/66] fix: do not leave the terminal in non-blocking mode
 when the monitor ends

---
 src/monitor.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index 8e461bb..0aec0a7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -24,9 +24,15 @@ static void cleanup()
 	/* Drain STDIN (useful for scripting). */
 	set_tflags(ICANON, 0);
 	char buf[4096];
-	fcntl(0, F_SETFL, O_NONBLOCK);
+	int flags = fcntl(0, F_GETFL);
+
+	fcntl(0, F_SETFL, flags | O_NONBLOCK);
 	while(read(0, buf, sizeof buf) > 0) {}
 
+	/* The terminal is shared with whatever started us. */
+	if (flags != -1)
+		fcntl(0, F_SETFL, flags);
+
 	set_tflags(ICANON|ECHO, 1);
 }
 
-- 
2.43.0


From 15654dea4e5e69d93c135701adee99eec1a5b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 56/66] fix: restore the terminal if the monitor is interrupted
 while it starts

---
 src/monitor.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/monitor.c b/src/monitor.c
index 0aec0a7..3f5785d 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -94,6 +94,9 @@ int monitor(int argc, char *argv[])
 	if (argc == 2 && !strcmp(argv[1], "-t"))
 		time_flag = 1;
 
+	/* Has to be in place before the terminal is touched. */
+	atexit(cleanup);
+
 	if (isatty(1))
 		set_tflags(ECHO, 0);
 
@@ -109,8 +112,6 @@ int monitor(int argc, char *argv[])
 	setvbuf(stdout, NULL, _IOLBF, 0);
 	setvbuf(stderr, NULL, _IOLBF, 0);
 
-	atexit(cleanup);
-
 	evloop(event_handler);
 
 	return 0;
-- 
2.43.0


From e6d2bdfd963abc0e41a30593db33b4c33ac7d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 57/66] fix: keep each message of the gnome extension on one
 line

---
 data/gnome-extension-45/extension.js | 9 ++++++---
 data/gnome-extension/extension.js    | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 0d1968b..1d92232 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -20,10 +20,13 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+function send(cls, title) {
 	if (!pipe)
 		return;
 
+	// Titles may contain newlines.
+	const msg = `${cls}	${title}`.replace(/\n/g, ' ') + '\n';
+
 	try {
 		pipe.write(msg, null);
 	} catch {
@@ -45,12 +48,12 @@ export default class KeydExtension extends Extension {
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
 
-			send(`${cls}	${title}\n`);
+			send(cls, title);
 		});
 
 		Main.layoutManager.connectObject(
 			'system-modal-opened', () => {
-				send(`system-modal	${global.stage.get_title()}\n`);
+				send('system-modal', global.stage.get_title());
 			},
 			this
 		);
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index a11f4b6..9cf546d 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -19,10 +19,13 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+function send(cls, title) {
 	if (!pipe)
 		return;
 
+	// Titles may contain newlines.
+	const msg = `${cls}	${title}`.replace(/\n/g, ' ') + '\n';
+
 	try {
 		pipe.write(msg, null);
 	} catch {
@@ -45,12 +48,12 @@ function init() {
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
 
-				send(`${cls}	${title}\n`);
+				send(cls, title);
 			});
 
 			Main.layoutManager.connectObject(
 				'system-modal-opened', () => {
-					send(`system-modal	${global.stage.get_title()}\n`);
+					send('system-modal', global.stage.get_title());
 				},
 				this
 			);
-- 
2.43.0


From d6e4d38f6ef5f92e65ff3d61ccabc888d8559527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 58/66] fix: report the focus once the pipe of the gnome
 extension is open

---
 data/gnome-extension-45/extension.js | 34 ++++++++++++++++++++++++----
 data/gnome-extension/extension.js    | 34 ++++++++++++++++++++++++----
 2 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 1d92232..35abd5e 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -5,7 +5,11 @@ import Gio from 'gi://Gio';
 import { Extension } from 'resource:///org/gnome/shell/extensions/extension.js';
 
 let file = Gio.File.new_for_path(makePipe());
-let pipe = file.append_to_async(0, 0, null, on_pipe_open);
+let pipe = null;
+let opening = false;
+let pending = null; // The latest message, until it has been written.
+
+openPipe();
 
 function makePipe() {
 	let runtime_dir = GLib.getenv('XDG_RUNTIME_DIR');
@@ -20,25 +24,45 @@ function makePipe() {
 	return path;
 }
 
-function send(cls, title) {
-	if (!pipe)
+function openPipe() {
+	if (opening)
 		return;
 
+	opening = true;
+	file.append_to_async(0, 0, null, on_pipe_open);
+}
+
+function send(cls, title) {
 	// Titles may contain newlines.
 	const msg = `${cls}	${title}`.replace(/\n/g, ' ') + '\n';
 
+	pending = msg;
+	flush();
+}
+
+function flush() {
+	if (!pipe) {
+		openPipe();
+		return;
+	}
+
 	try {
-		pipe.write(msg, null);
+		pipe.write(pending, null);
+		pending = null;
 	} catch {
 		log('pipe closed, reopening...');
 		pipe = null;
-		file.append_to_async(0, 0, null, on_pipe_open);
+		openPipe();
 	}
 }
 
 function on_pipe_open(file, res) {
 	log('pipe opened');
+	opening = false;
 	pipe = file.append_to_finish(res);
+
+	if (pending)
+		flush();
 }
 
 export default class KeydExtension extends Extension {
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index 9cf546d..82f0f18 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -4,7 +4,11 @@ const Gio = imports.gi.Gio;
 const Main = imports.ui.main;
 
 let file = Gio.File.new_for_path(makePipe());
-let pipe = file.append_to_async(0, 0, null, on_pipe_open);
+let pipe = null;
+let opening = false;
+let pending = null; // The latest message, until it has been written.
+
+openPipe();
 
 function makePipe() {
 	let runtime_dir = GLib.getenv('XDG_RUNTIME_DIR');
@@ -19,25 +23,45 @@ function makePipe() {
 	return path;
 }
 
-function send(cls, title) {
-	if (!pipe)
+function openPipe() {
+	if (opening)
 		return;
 
+	opening = true;
+	file.append_to_async(0, 0, null, on_pipe_open);
+}
+
+function send(cls, title) {
 	// Titles may contain newlines.
 	const msg = `${cls}	${title}`.replace(/\n/g, ' ') + '\n';
 
+	pending = msg;
+	flush();
+}
+
+function flush() {
+	if (!pipe) {
+		openPipe();
+		return;
+	}
+
 	try {
-		pipe.write(msg, null);
+		pipe.write(pending, null);
+		pending = null;
 	} catch {
 		log('pipe closed, reopening...');
 		pipe = null;
-		file.append_to_async(0, 0, null, on_pipe_open);
+		openPipe();
 	}
 }
 
 function on_pipe_open(file, res) {
 	log('pipe opened');
+	opening = false;
 	pipe = file.append_to_finish(res);
+
+	if (pending)
+		flush();
 }
 
 function init() {
-- 
2.43.0


From d5af0186ffe9fb7f7bec82598471982740c885c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:27 +0000
Subject: [PATCH 59/66] fix: let go of the shell when the gnome extension is
 disabled

---
 data/gnome-extension-45/extension.js | 6 +++++-
 data/gnome-extension/extension.js    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 35abd5e..a1c8e60 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -67,7 +67,7 @@ function on_pipe_open(file, res) {
 
 export default class KeydExtension extends Extension {
 	enable() {
-		Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
+		this.focusHandler = Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
 			const win = global.display.focus_window;
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
@@ -86,6 +86,10 @@ export default class KeydExtension extends Extension {
 	}
 
 	disable() {
+		Shell.WindowTracker.get_default().disconnect(this.focusHandler);
+		Main.layoutManager.disconnectObject(this);
+		pending = null;
+
 		GLib.spawn_command_line_async('pkill -f keyd-application-mapper');
 	}
 }
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index 82f0f18..075ee8c 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -67,7 +67,7 @@ function on_pipe_open(file, res) {
 function init() {
 	return {
 		enable: function() {
-			Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
+			this.focusHandler = Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
 				const win = global.display.focus_window;
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
@@ -86,6 +86,10 @@ function init() {
 		},
 
 		disable: function() {
+			Shell.WindowTracker.get_default().disconnect(this.focusHandler);
+			Main.layoutManager.disconnectObject(this);
+			pending = null;
+
 			GLib.spawn_command_line_async('pkill -f keyd-application-mapper');
 		}
 	}
-- 
2.43.0


From 9bb6d5edfd5b084e8e81b8673a5fa0ff50fe3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:46 +0000
Subject: [PATCH 60/66] fix: type the capital U with a diacritic in shipped
 layouts
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The layout generator took keysym names like Udiaeresis and Uacute for
code points, which left control characters (or ¬) in place of the letter.
---
 layouts/at              | 2 +-
 layouts/az              | 2 +-
 layouts/de              | 2 +-
 layouts/dz              | 4 ++--
 layouts/ee              | 2 +-
 layouts/epo             | 2 +-
 layouts/hu              | 6 +++---
 layouts/ie              | 2 +-
 layouts/nl              | 2 +-
 layouts/tm              | 2 +-
 layouts/tr              | 4 ++--
 layouts/za              | 4 ++--
 scripts/dump-xkb-config | 2 +-
 13 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/layouts/at b/layouts/at
index a0dac82..2264211 100644
--- a/layouts/at
+++ b/layouts/at
@@ -63,7 +63,7 @@ altgr = layer(at_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = '
 ] = *
 a = A
diff --git a/layouts/az b/layouts/az
index 27925cf..5c5c801 100644
--- a/layouts/az
+++ b/layouts/az
@@ -89,7 +89,7 @@ s = S
 t = T
 u = U
 v = V
-w = 
+w = Ü
 x = X
 y = Y
 z = Z
diff --git a/layouts/de b/layouts/de
index 3314f47..a6b5e01 100644
--- a/layouts/de
+++ b/layouts/de
@@ -63,7 +63,7 @@ altgr = layer(de_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = '
 ] = *
 a = A
diff --git a/layouts/dz b/layouts/dz
index 151cb07..fb0d437 100644
--- a/layouts/dz
+++ b/layouts/dz
@@ -161,7 +161,7 @@ f = ‚
 g = Ǧ
 h = Ḥ
 i = Î
-j = 
+j = Ü
 k = Ï
 l = Ŀ
 m = …
@@ -172,7 +172,7 @@ q = Æ
 r = Ṛ
 s = Ṣ
 t = Ṭ
-u = 
+u = Û
 v = Ɣ
 w = Ẓ
 x = ”
diff --git a/layouts/ee b/layouts/ee
index 6c67c31..45adfff 100644
--- a/layouts/ee
+++ b/layouts/ee
@@ -63,7 +63,7 @@ altgr = layer(ee_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = *
 ] = Õ
 a = A
diff --git a/layouts/epo b/layouts/epo
index 21ddeb9..52251f4 100644
--- a/layouts/epo
+++ b/layouts/epo
@@ -92,7 +92,7 @@ u = U
 v = V
 w = Ĝ
 x = Ĉ
-y = 
+y = Ŭ
 z = Z
 
 [epo_altgr:G]
diff --git a/layouts/hu b/layouts/hu
index cfe40f4..2a47d00 100644
--- a/layouts/hu
+++ b/layouts/hu
@@ -51,7 +51,7 @@ altgr = layer(hu_altgr)
 [hu_shift:S]
 ' = Á
 , = ?
-- = 
+- = Ü
 . = :
 / = _
 1 = '
@@ -66,8 +66,8 @@ altgr = layer(hu_altgr)
 ; = É
 = = Ó
 [ = Ő
-\ = 
-] = ¬
+\ = Ű
+] = Ú
 a = A
 b = B
 c = C
diff --git a/layouts/ie b/layouts/ie
index 8fd4dc3..1fb55df 100644
--- a/layouts/ie
+++ b/layouts/ie
@@ -167,7 +167,7 @@ q = Œ
 r = ‰
 s = ẞ
 t = Þ
-u = ¬
+u = Ú
 x = ∼
 y = µ
 z = 〉
diff --git a/layouts/nl b/layouts/nl
index d9423f9..0f90ebf 100644
--- a/layouts/nl
+++ b/layouts/nl
@@ -166,7 +166,7 @@ q = Ω
 r = ®
 s = ẞ
 t = Þ
-u = 
+u = Ü
 v = ‘
 w = §
 x = >
diff --git a/layouts/tm b/layouts/tm
index 75fbe75..add9d56 100644
--- a/layouts/tm
+++ b/layouts/tm
@@ -91,7 +91,7 @@ t = T
 u = U
 v = Ý
 w = W
-x = 
+x = Ü
 y = Y
 z = Z
 
diff --git a/layouts/tr b/layouts/tr
index 66dc959..c73d0cc 100644
--- a/layouts/tr
+++ b/layouts/tr
@@ -67,7 +67,7 @@ altgr = layer(tr_altgr)
 = = _
 [ = Ğ
 \ = ;
-] = 
+] = Ü
 a = A
 b = B
 c = C
@@ -150,7 +150,7 @@ n = ’
 o = Ô
 q = Ω
 r = ®
-u = 
+u = Û
 v = ‚
 x = >
 y = ¥
diff --git a/layouts/za b/layouts/za
index 7905088..f9fc8a4 100644
--- a/layouts/za
+++ b/layouts/za
@@ -164,9 +164,9 @@ q = Ω
 r = Ê
 s = Š
 t = Ṱ
-u = 
+u = Ü
 v = ‘
 w = §
 x = >
-y = 
+y = Û
 z = <
diff --git a/scripts/dump-xkb-config b/scripts/dump-xkb-config
index b241746..9987346 100755
--- a/scripts/dump-xkb-config
+++ b/scripts/dump-xkb-config
@@ -67,7 +67,7 @@ sub sym_to_char {
 	$sym = $_[0];
 	return "" if (!$sym);
 
-	if ($sym =~ /U([0-9A-Fa-f]+)/) {
+	if ($sym =~ /^U([0-9A-Fa-f]{4,})$/) {
 		 return chr(hex($1));
 	} elsif ($symmap{$sym}) {
 		 $symmap{$sym};
-- 
2.43.0


From a62ca807fb17c4ee26c0574610956de297efd452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 61/66] fix: refuse an overlong binding instead of aborting

---
 src/keyd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index cb79e10..a56ad65 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -10,7 +10,10 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 {
 	struct ipc_message msg;
 
-	assert(sz <= sizeof(msg.data));
+	if (sz > sizeof(msg.data)) {
+		fprintf(stderr, "ERROR: maximum message size exceeded\n");
+		return 1;
+	}
 
 	msg.type = type;
 	msg.sz = sz;
-- 
2.43.0


From 33e50a3b8d22f232bcac2e5c8f3097aca20a2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:08 +0000
Subject: [PATCH 62/66] fix: examples: macos: 'alt' is a layer, not a key

---
 examples/macos.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/macos.conf b/examples/macos.conf
index ce25722..7f1f97d 100644
--- a/examples/macos.conf
+++ b/examples/macos.conf
@@ -19,7 +19,7 @@
 leftalt = layer(meta_mac)
 
 # Swap meta/alt
-leftmeta = alt
+leftmeta = layer(alt)
 
 
 # meta_mac modifier layer; inherits from 'Ctrl' modifier layer
-- 
2.43.0


From 05e16c541aa94b140c3ffe727d2f2e609b7773c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:08 +0000
Subject: [PATCH 63/66] fix: ini: read '[ = ]' as a binding of the [ key

It was taken for a section heading, which broke the shipped il and sn layouts.
---
 src/ini.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ini.c b/src/ini.c
index 5c8f683..795bbf2 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -106,7 +106,9 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 
 		switch (line[0]) {
 		case '[':
-			if (line[len-1] == ']') {
+			/* '[ = ]' binds the key called '['. */
+			if (line[len-1] == ']' &&
+			    line[1 + strspn(line+1, " \t")] != '=') {
 				if (n >= MAX_SECTIONS)
 					return NULL;
 
-- 
2.43.0


From 6e8fdc734e1c731b9474c7e551c1116640c33b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:04 +0000
Subject: [PATCH 64/66] fix: strike keys in macros and text which are already
 held

A key of a macro, a unicode sequence or 'keyd input' which was down already
(e.g. typed over a key still held) was dropped as a duplicate press.
---
 src/daemon.c   | 48 ++++++++++++++++++++++++++++++++++--------------
 src/keyboard.c |  3 +++
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 734ce33..e4b6a2c 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -51,8 +51,21 @@ static void clear_vkbd()
 		}
 }
 
+static int is_modifier(uint8_t code)
+{
+	size_t i;
+
+	for (i = 0; i < ARRAY_SIZE(modifiers); i++)
+		if (modifiers[i].key == code)
+			return 1;
+
+	return code == KEYD_RIGHTSHIFT || code == KEYD_RIGHTCTRL || code == KEYD_RIGHTMETA;
+}
+
 static void send_key(uint8_t code, uint8_t state)
 {
+	uint8_t held = keystate[code];
+
 	keystate[code] = state;
 
 	switch (code) {
@@ -73,6 +86,13 @@ static void send_key(uint8_t code, uint8_t state)
 				vkbd_mouse_scroll(vkbd, -1, 0);
 			break;
 		default:
+			/*
+			 * A key which is already down must be released before
+			 * it can be struck again (E.G by a macro).
+			 */
+			if (state && held && !is_modifier(code))
+				vkbd_send_key(vkbd, code, 0);
+
 			vkbd_send_key(vkbd, code, state);
 			break;
 	}
@@ -409,23 +429,23 @@ static int input(char *buf, size_t sz, uint32_t timeout)
 			found = 1;
 			if (!parse_key_sequence(s, &code, &mods)) {
 				if (mods & MOD_SHIFT) {
-					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 1);
-					vkbd_send_key(vkbd, code, 1);
-					vkbd_send_key(vkbd, code, 0);
-					vkbd_send_key(vkbd, KEYD_LEFTSHIFT, 0);
+					send_key(KEYD_LEFTSHIFT, 1);
+					send_key(code, 1);
+					send_key(code, 0);
+					send_key(KEYD_LEFTSHIFT, 0);
 				} else {
-					vkbd_send_key(vkbd, code, 1);
-					vkbd_send_key(vkbd, code, 0);
+					send_key(code, 1);
+					send_key(code, 0);
 				}
 			} else if ((char)codepoint == ' ') {
-				vkbd_send_key(vkbd, KEYD_SPACE, 1);
-				vkbd_send_key(vkbd, KEYD_SPACE, 0);
+				send_key(KEYD_SPACE, 1);
+				send_key(KEYD_SPACE, 0);
 			} else if ((char)codepoint == '\n') {
-				vkbd_send_key(vkbd, KEYD_ENTER, 1);
-				vkbd_send_key(vkbd, KEYD_ENTER, 0);
+				send_key(KEYD_ENTER, 1);
+				send_key(KEYD_ENTER, 0);
 			} else if ((char)codepoint == '\t') {
-				vkbd_send_key(vkbd, KEYD_TAB, 1);
-				vkbd_send_key(vkbd, KEYD_TAB, 0);
+				send_key(KEYD_TAB, 1);
+				send_key(KEYD_TAB, 0);
 			} else {
 				found = 0;
 			}
@@ -441,8 +461,8 @@ static int input(char *buf, size_t sz, uint32_t timeout)
 			unicode_get_sequence(idx, codes);
 
 			for (i = 0; i < 4; i++) {
-				vkbd_send_key(vkbd, codes[i], 1);
-				vkbd_send_key(vkbd, codes[i], 0);
+				send_key(codes[i], 1);
+				send_key(codes[i], 0);
 			}
 		}
 		buf+=csz;
diff --git a/src/keyboard.c b/src/keyboard.c
index 76b37e4..7fa366d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -167,6 +167,9 @@ static void execute_macro(struct keyboard *kbd, int dl, const struct macro *macr
 		uint8_t code = macro->entries[0].data;
 		uint8_t mods = macro->entries[0].data >> 8;
 
+		if (kbd->keystate[code])
+			send_key(kbd, code, 0);
+
 		update_mods(kbd, dl, mods);
 		send_key(kbd, code, 1);
 		send_key(kbd, code, 0);
-- 
2.43.0


From c20d1ec689b58a160c77cd65eb76bccd1568b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:19 +0000
Subject: [PATCH 65/66] Revert "fix: examples: macos: 'alt' is a layer, not a
 key"

This reverts commit 33e50a3b8d22f232bcac2e5c8f3097aca20a2adc.
---
 examples/macos.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/macos.conf b/examples/macos.conf
index 7f1f97d..ce25722 100644
--- a/examples/macos.conf
+++ b/examples/macos.conf
@@ -19,7 +19,7 @@
 leftalt = layer(meta_mac)
 
 # Swap meta/alt
-leftmeta = layer(alt)
+leftmeta = alt
 
 
 # meta_mac modifier layer; inherits from 'Ctrl' modifier layer
-- 
2.43.0


From 7c72030addfbc60e844c25a2b8198cbf7f2ca1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:51 +0000
Subject: [PATCH 66/66] fix: terminate the names of devices which have a long
 one

The kernel does not terminate a name which fills the buffer, what followed
it (the path of the event node) became part of the device's id.
---
 src/device.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device.c b/src/device.c
index 429acd6..cb77c8c 100644
--- a/src/device.c
+++ b/src/device.c
@@ -140,6 +140,9 @@ static int device_init(const char *path, struct device *dev)
 		goto fail;
 	}
 
+	/* Long names are truncated without a terminator. */
+	dev->name[sizeof(dev->name)-1] = 0;
+
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
-- 
2.43.0

