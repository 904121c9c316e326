From a6cc5ae8df089f424c045ecef4df578fa90d04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 01/62] fix: enforce the limit on constituents of a composite
 layer

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 74383aa..bd4b3a5 100644
--- a/src/config.c
+++ b/src/config.c
@@ -315,7 +315,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -333,7 +332,7 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
 				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
-- 
2.43.0


From c30d167d477b769f79e7a3c988bc5e4ccb67e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 02/62] fix: reject empty section names instead of
 dereferencing NULL

---
 src/config.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/config.c b/src/config.c
index bd4b3a5..f5b97a9 100644
--- a/src/config.c
+++ b/src/config.c
@@ -377,6 +377,11 @@ static int config_add_layer(struct config *config, const char *s)
 	strcpy(buf, s);
 	name = strtok(buf, ":");
 
+	if (!name) {
+		err("section name is empty (ignoring)");
+		return -1;
+	}
+
 	if (config_get_layer_index(config, name) != -1)
 			return 1;
 
-- 
2.43.0


From 0c4df6e4e19e1087d3648fd72b7aa28691e5b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 03/62] fix: leave room for the terminator when a configuration
 fills the file buffer

---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index f5b97a9..7b86285 100644
--- a/src/config.c
+++ b/src/config.c
@@ -132,7 +132,7 @@ static char *read_file(const char *path)
 			}
 		}
 
-		if ((len+sz) > MAX_FILE_SZ) {
+		if ((len+sz) >= MAX_FILE_SZ) {
 			err("maximum file size exceed (%d)", MAX_FILE_SZ);
 			goto fail;
 		}
@@ -161,7 +161,7 @@ static char *read_file(const char *path)
 				perror("open");
 			} else {
 				int n;
-				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
+				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)
 					sz += n;
 				close(fd);
 			}
-- 
2.43.0


From e1da355da430d5a34646de1d26f607f0a3b79ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 04/62] fix: do not read before the line buffer when a line
 starts with NUL

---
 src/config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config.c b/src/config.c
index 7b86285..b46cb2d 100644
--- a/src/config.c
+++ b/src/config.c
@@ -123,6 +123,9 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
+		if (!len)
+			continue;
+
 		if (line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
-- 
2.43.0


From 30ce8ba9e39b3a3d18ead82cb6f2326471c0df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 05/62] fix: keep the lettermod expansion buffer alive while
 its arguments are used

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index b46cb2d..165a6c9 100644
--- a/src/config.c
+++ b/src/config.c
@@ -554,6 +554,7 @@ static int parse_descriptor(char *s,
 	int ret;
 	struct macro macro;
 	struct command cmd;
+	char buf[1024];
 
 	if (!s || !s[0]) {
 		d->op = 0;
@@ -623,8 +624,6 @@ static int parse_descriptor(char *s,
 		int i;
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
-
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
 				return -1;
-- 
2.43.0


From c9dd8ecce3fc53eef738131feddec681e578013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 06/62] fix: refuse actions with too many arguments instead of
 aborting

---
 src/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 165a6c9..e39c8d9 100644
--- a/src/config.c
+++ b/src/config.c
@@ -460,7 +460,9 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
+
 			args[(*nargs)++] = arg;
 		}
 
-- 
2.43.0


From 13908fa8db3ad01a24ac080a472183b4e81cc69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 07/62] fix: do not dereference the missing value of a global
 option or alias

---
 src/config.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/config.c b/src/config.c
index e39c8d9..3dcda46 100644
--- a/src/config.c
+++ b/src/config.c
@@ -744,6 +744,11 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
+		if (!ent->val) {
+			warn("line %zd: %s requires a value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
@@ -816,6 +821,11 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
+		if (!name) {
+			warn("line %zd: %s requires a value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
-- 
2.43.0


From 999e087769dd700582f0eac357f58bd7c90a3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 08/62] fix: a binding for a chord must not replace a larger
 chord containing it

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 3dcda46..512eb77 100644
--- a/src/config.c
+++ b/src/config.c
@@ -221,7 +221,7 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 				}
 		}
 
-		if (nm == n)
+		if (nm == n && n == chord->sz)
 			return &chord->d;
 	}
 
-- 
2.43.0


From ad3b7289a26862b13036fb69a7034c8e401799bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 09/62] fix: refuse bindings which name no key

---
 src/config.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/config.c b/src/config.c
index 512eb77..de7b97d 100644
--- a/src/config.c
+++ b/src/config.c
@@ -240,6 +240,11 @@ static int set_layer_entry(const struct config *config,
 	size_t i;
 	int found = 0;
 
+	if (!key[0]) {
+		err("missing key");
+		return -1;
+	}
+
 	if (strchr(key, '+')) {
 		//TODO: Handle aliases
 		char *tok;
@@ -262,6 +267,10 @@ static int set_layer_entry(const struct config *config,
 			keys[n++] = code;
 		}
 
+		if (!n) {
+			err("%s is not a valid key", key);
+			return -1;
+		}
 
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
-- 
2.43.0


From 82f3df7e4edd2478211ce38e8d58405cbe4786c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 10/62] fix: ignore surplus device ids instead of aborting

---
 src/config.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index de7b97d..697cf6b 100644
--- a/src/config.c
+++ b/src/config.c
@@ -795,23 +795,21 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
+		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {
+			warn("max ids (%d) exceeded, ignoring %s", ARRAY_SIZE(config->ids), s);
 		} else if (strstr(s, "m:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "k:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "-") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_EXCLUDED;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
 		} else if (strlen(s) < sizeof(config->ids[config->nr_ids].id)-1) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD | ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s);
-- 
2.43.0


From 5ef331757996039436e1d9209930f4772450ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 11/62] fix: default_layout must be able to hold any layer name

---
 src/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.h b/src/config.h
index 0d77832..69052dc 100644
--- a/src/config.h
+++ b/src/config.h
@@ -144,7 +144,7 @@ struct config {
 
 	uint8_t layer_indicator;
 	uint8_t disable_modifier_guard;
-	char default_layout[MAX_LAYER_NAME_LEN];
+	char default_layout[MAX_LAYER_NAME_LEN+1];
 };
 
 int config_parse(struct config *config, const char *path);
-- 
2.43.0


From 59efad2d5f95b92ea7684ea65a938df7e26db4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 12/62] fix: refuse files with too many sections or entries,
 terminate long section names

---
 src/ini.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ini.c b/src/ini.c
index 6029293..5c8f683 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -107,13 +107,15 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
+				if (n >= MAX_SECTIONS)
+					return NULL;
 
 				section = &ini.sections[n++];
 
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				strncpy(section->name, line+1, sizeof(section->name)-1);
+				section->name[sizeof(section->name)-1] = 0;
 				section->nr_entries = 0;
 				section->lnum = ln;
 
@@ -136,7 +138,8 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 				return NULL;
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (section->nr_entries >= MAX_SECTION_ENTRIES)
+			return NULL;
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From 14298a7111554ba5def8a8947fba6f91f09f5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 13/62] fix: do not abort on truncated UTF-8

---
 src/string.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..8d890b2 100644
--- a/src/string.c
+++ b/src/string.c
@@ -15,24 +15,29 @@ int utf8_read_char(const char *_s, uint32_t *code)
 		return 0;
 
 	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
+		if (!s[1] || !s[2] || !s[3])
+			goto invalid;
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
 	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
+		if (!s[1] || !s[2])
+			goto invalid;
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
 	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
+		if (!s[1])
+			goto invalid;
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
 	} else {
 		*code = s[0] & 0x7F;
 		return 1;
 	}
+
+invalid:
+	/* Truncated sequence: consume one byte (U+FFFD). */
+	*code = 0xFFFD;
+	return 1;
 }
 
 int utf8_strlen(const char *s)
-- 
2.43.0


From 44da8732611b5c937e6dfc122510fc78bbad893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 14/62] fix: do not read past the end of a key sequence ending
 in a modifier

---
 src/keys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keys.c b/src/keys.c
index 77d055f..f3dcc7a 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -353,7 +353,7 @@ int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
 
 	uint8_t mods = 0;
 
-	while (c[1] == '-') {
+	while (c[0] && c[1] == '-') {
 		switch (*c) {
 		case 'C':
 			mods |= MOD_CTRL;
-- 
2.43.0


From a314083c92ce562e4b7f7c45db5baeec315cb290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 15/62] fix: the empty string is not a name of four different
 keys

---
 src/keys.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keys.c b/src/keys.c
index f3dcc7a..defc8a6 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -44,7 +44,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_LEFTBRACE] = { "[", "leftbrace", "{" },
 	[KEYD_RIGHTBRACE] = { "]", "rightbrace", "}" },
 	[KEYD_ENTER] = { "enter", NULL, NULL },
-	[KEYD_LEFTCTRL] = { "leftcontrol", "", NULL },
+	[KEYD_LEFTCTRL] = { "leftcontrol", NULL, NULL },
 	[KEYD_IS_LEVEL3_SHIFT] = { "iso-level3-shift", NULL, NULL }, //Oddly missing from input-event-codes.h, appears to be used as altgr in an english keymap on X
 	[KEYD_A] = { "a", NULL, "A" },
 	[KEYD_S] = { "s", NULL, "S" },
@@ -58,7 +58,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SEMICOLON] = { ";", "semicolon", ":" },
 	[KEYD_APOSTROPHE] = { "'", "apostrophe", "\"" },
 	[KEYD_GRAVE] = { "`", "grave", "~" },
-	[KEYD_LEFTSHIFT] = { "leftshift", "", NULL },
+	[KEYD_LEFTSHIFT] = { "leftshift", NULL, NULL },
 	[KEYD_BACKSLASH] = { "\\", "backslash", "|" },
 	[KEYD_Z] = { "z", NULL, "Z" },
 	[KEYD_X] = { "x", NULL, "X" },
@@ -72,7 +72,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SLASH] = { "/", "slash", "?" },
 	[KEYD_RIGHTSHIFT] = { "rightshift", NULL, NULL },
 	[KEYD_KPASTERISK] = { "kpasterisk", NULL, NULL },
-	[KEYD_LEFTALT] = { "leftalt", "", NULL },
+	[KEYD_LEFTALT] = { "leftalt", NULL, NULL },
 	[KEYD_SPACE] = { "space", NULL, NULL },
 	[KEYD_CAPSLOCK] = { "capslock", NULL, NULL },
 	[KEYD_F1] = { "f1", NULL, NULL },
@@ -140,7 +140,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_HANGEUL] = { "hangeul", NULL, NULL },
 	[KEYD_HANJA] = { "hanja", NULL, NULL },
 	[KEYD_YEN] = { "yen", NULL, NULL },
-	[KEYD_LEFTMETA] = { "leftmeta", "", NULL },
+	[KEYD_LEFTMETA] = { "leftmeta", NULL, NULL },
 	[KEYD_RIGHTMETA] = { "rightmeta", NULL, NULL },
 	[KEYD_COMPOSE] = { "compose", NULL, NULL },
 	[KEYD_STOP] = { "stop", NULL, NULL },
-- 
2.43.0


From e130e08201f12097b50923348bd60d967225013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 16/62] fix: leave room for the terminator when colorizing long
 messages

---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index f326631..f299e40 100644
--- a/src/log.c
+++ b/src/log.c
@@ -19,7 +19,7 @@ static const char *colorize(const char *s)
 	size_t n  = 0;
 	int inside_escape = 0;
 
-	for (i = 0; s[i] != 0 && n < sizeof(buf); i++) {
+	for (i = 0; s[i] != 0 && n < sizeof(buf)-1; i++) {
 		if (s[i+1] == '{') {
 			int escape_num = 0;
 
-- 
2.43.0


From 1a7fa2f75cb1a7f50b148397f7d26cd8d9eedbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 17/62] fix: do not release pauses inside held groups as keys

---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..ad6f129 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From 4b542ac99732ed929e7727d68c20503fc48040c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 18/62] fix: macros can produce the first character of the
 unicode table

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index ad6f129..ceb3954 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
-- 
2.43.0


From a3fdbf6935b866be14e4a7c4a1233bfa297e9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 19/62] fix: do not abort when too many timeouts are pending

---
 src/keyboard.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..2245013 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -453,8 +453,21 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 
 static void schedule_timeout(struct keyboard *kbd, long timeout)
 {
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
-	kbd->timeouts[kbd->nr_timeouts++] = timeout;
+	size_t i;
+	size_t last = 0;
+
+	if (kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts)) {
+		kbd->timeouts[kbd->nr_timeouts++] = timeout;
+		return;
+	}
+
+	/* The table is full, keep the most imminent timeouts. */
+	for (i = 1; i < ARRAY_SIZE(kbd->timeouts); i++)
+		if (kbd->timeouts[i] > kbd->timeouts[last])
+			last = i;
+
+	if (timeout < kbd->timeouts[last])
+		kbd->timeouts[last] = timeout;
 }
 
 static long calculate_main_loop_timeout(struct keyboard *kbd, long time)
-- 
2.43.0


From 8a4b518b631776e21ed352c86d701aeca64b0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 20/62] fix: resolve a pending key when its event queue is full
 instead of aborting

---
 src/keyboard.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 2245013..c172f51 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1049,8 +1049,6 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	if (code) {
 		struct key_event *ev;
 
-		assert(kbd->pending_key.queue_sz < ARRAY_SIZE(kbd->pending_key.queue));
-
 		if (!pressed) {
 			size_t i;
 			int found = 0;
@@ -1073,7 +1071,8 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	}
 
 
-	if (time >= kbd->pending_key.expire) {
+	if (time >= kbd->pending_key.expire ||
+	    kbd->pending_key.queue_sz >= ARRAY_SIZE(kbd->pending_key.queue)) {
 		action = kbd->pending_key.action2;
 	} else if (code == kbd->pending_key.code) {
 		if (kbd->pending_key.tap_expiry && time >= kbd->pending_key.tap_expiry) {
-- 
2.43.0


From 367fae3b54ce3f27f654a816c311871a8b3d7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 21/62] fix: give up on a chord when its event queue is full
 instead of aborting

---
 src/keyboard.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index c172f51..4e94299 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -309,8 +309,6 @@ static void enqueue_chord_event(struct keyboard *kbd, uint8_t code, uint8_t pres
 	if (!code)
 		return;
 
-	assert(kbd->chord.queue_sz < ARRAY_SIZE(kbd->chord.queue));
-
 	kbd->chord.queue[kbd->chord.queue_sz].code = code;
 	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;
 	kbd->chord.queue[kbd->chord.queue_sz].timestamp = time;
@@ -990,7 +988,7 @@ static int handle_chord(struct keyboard *kbd,
 
 		enqueue_chord_event(kbd, code, pressed, time);
 
-		if (!pressed)
+		if (!pressed || kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))
 			return abort_chord(kbd);
 
 		switch (check_chord_match(kbd, &kbd->chord.match, &kbd->chord.match_layer)) {
@@ -1025,6 +1023,9 @@ static int handle_chord(struct keyboard *kbd,
 
 		enqueue_chord_event(kbd, code, pressed, time);
 
+		if (kbd->chord.queue_sz >= ARRAY_SIZE(kbd->chord.queue))
+			return abort_chord(kbd);
+
 		if (!pressed) {
 			size_t i;
 
-- 
2.43.0


From a6e7deae8c01b7d7936752475503e0401fe9afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 22/62] fix: do not abort when too many chords are held

---
 src/keyboard.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 4e94299..c902da2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -876,10 +876,11 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		/* No free slot: treat the events as ordinary key strokes. */
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
-- 
2.43.0


From b5300475f5ea2689121fd8a99c20a21478b31466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 23/62] fix: a child started for command() never continues as a
 second daemon

---
 src/keyboard.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index c902da2..c62003d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -365,21 +365,29 @@ static int check_chord_match(struct keyboard *kbd, const struct chord **chord, i
 static void execute_command(const char *cmd)
 {
 	int fd;
+	pid_t pid;
 
 	dbg("executing command: %s", cmd);
 
-	if (fork()) {
-		wait(NULL);
+	pid = fork();
+
+	if (pid < 0) {
+		perror("fork");
+		return;
+	} else if (pid) {
+		waitpid(pid, NULL, 0);
 		return;
 	}
+
+	/* A failed fork also ends up here. */
 	if (fork())
-		exit(0);
+		_exit(0);
 
 	fd = open("/dev/null", O_RDWR);
 
 	if (fd < 0) {
 		perror("open");
-		exit(-1);
+		_exit(-1);
 	}
 
 	close(0);
@@ -391,6 +399,7 @@ static void execute_command(const char *cmd)
 	dup2(fd, 2);
 
 	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
+	_exit(-1);
 }
 
 static void clear_oneshot(struct keyboard *kbd)
-- 
2.43.0


From 1e3e6c167a49b54b819d1caa1b15a680a7f91783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 24/62] fix: update modifiers after toggle has consumed pending
 oneshot layers

---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index c62003d..0ee716f 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -728,8 +728,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				deactivate_layer(kbd, idx);
 
-			update_mods(kbd, -1, 0);
 			clear_oneshot(kbd);
+			update_mods(kbd, -1, 0);
 		}
 
 		break;
-- 
2.43.0


From 0aaca2482aea3412447b0df27fca60f7081460f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 25/62] fix: do not wrap layer activation counts after 256
 oneshot taps

---
 src/keyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..13f3870 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -117,9 +117,9 @@ struct keyboard {
 	struct {
 		long activation_time;
 
-		uint8_t active;
+		uint32_t active;
 		uint8_t toggled;
-		uint8_t oneshot_depth;
+		uint32_t oneshot_depth;
 	} layer_state[MAX_LAYERS];
 
 	uint8_t keystate[256];
-- 
2.43.0


From 98bd0ad3204bcfa06ed95e66c7bc6e0c7660cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 26/62] fix: do not truncate change messages of layers with
 long names

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..faf972a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -135,7 +135,7 @@ fail:
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From c087d80b27ea1e77c73c4c889852efd59870639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 27/62] fix: forget the active keyboard when its configuration
 is discarded

---
 src/daemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index faf972a..1af057e 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -283,6 +283,8 @@ static void reload()
 {
 	size_t i;
 
+	active_kbd = NULL;
+
 	free_configs();
 	load_configs();
 
-- 
2.43.0


From 3e5202b2c925e5496795aa86668a9386cc3a572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 28/62] fix: scroll mode turns horizontal motion into
 horizontal scrolling

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index 1af057e..e43fb4b 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -528,7 +528,7 @@ static int event_handler(struct event *ev)
 					kbd->scroll.x %= kbd->scroll.sensitivity;
 
 					vkbd_mouse_scroll(vkbd, 0, -1*yticks);
-					vkbd_mouse_scroll(vkbd, 0, xticks);
+					vkbd_mouse_scroll(vkbd, xticks, 0);
 				} else {
 					vkbd_mouse_move(vkbd, ev->devev->x, ev->devev->y);
 				}
-- 
2.43.0


From 26afd6bdbc2d2ceb585790be65bbe40570cb8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 29/62] fix: clients can no longer stall or terminate the
 daemon

---
 src/daemon.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index e43fb4b..7ac9c5d 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -86,7 +86,8 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		if (write(con, s, sizeof(s)-1) < 0)
+			perror("write");
 
 		close(con);
 		return;
@@ -301,7 +302,8 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
+	if (write(con, &msg, sizeof msg) < 0)
+		perror("write");
 	close(con);
 }
 
@@ -315,7 +317,8 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
+	if (write(con, &msg, sizeof msg) < 0)
+		perror("write");
 	close(con);
 
 	va_end(args);
@@ -389,8 +392,16 @@ static int input(char *buf, size_t sz, uint32_t timeout)
 static void handle_client(int con)
 {
 	struct ipc_message msg;
+	struct timeval tv = { .tv_sec = 1 };
 
-	xread(con, &msg, sizeof msg);
+	/* Clients must not be able to stall or terminate the daemon. */
+	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
+	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
+
+	if (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -585,7 +596,7 @@ static int event_handler(struct event *ev)
 			int con = accept(ipcfd, NULL, 0);
 			if (con < 0) {
 				perror("accept");
-				exit(-1);
+				break;
 			}
 
 			handle_client(con);
-- 
2.43.0


From a3921590e1f34228ff1a648f32f80d93f636bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 30/62] fix: do not terminate when the LED of a vanished device
 is set

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..f41b963 100644
--- a/src/device.c
+++ b/src/device.c
@@ -583,5 +583,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* The device may have disappeared. */
+	if (write(dev->fd, &ev, sizeof ev) < 0)
+		perror("write");
 }
-- 
2.43.0


From 7f87801b815f075092a3c41071314b89258aef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 31/62] fix: close the device when its initialisation fails

---
 src/device.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/device.c b/src/device.c
index f41b963..26ea56f 100644
--- a/src/device.c
+++ b/src/device.c
@@ -137,13 +137,13 @@ static int device_init(const char *path, struct device *dev)
 
 	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
 		keyd_log("ERROR: could not fetch device name of %s\n", dev->path);
-		return -1;
+		goto fail;
 	}
 
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
-			return -1;
+			goto fail;
 		}
 
 		dev->_minx = absinfo.minimum;
@@ -151,7 +151,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
-			return -1;
+			goto fail;
 		}
 
 		dev->_miny = absinfo.minimum;
@@ -165,7 +165,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
-			return -1;
+			goto fail;
 		}
 
 		strncpy(dev->path, path, sizeof(dev->path)-1);
@@ -188,11 +188,10 @@ static int device_init(const char *path, struct device *dev)
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
-	} else {
-		close(fd);
-		return -1;
 	}
 
+fail:
+	close(fd);
 	return -1;
 }
 
-- 
2.43.0


From 2066f8a779de7cddb1f6de6079c5842532adb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 32/62] fix: close the descriptor of a removed device

---
 src/device.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device.c b/src/device.c
index 26ea56f..00c9a3f 100644
--- a/src/device.c
+++ b/src/device.c
@@ -391,6 +391,7 @@ struct device_event *device_read_event(struct device *dev)
 		if (errno == EAGAIN) {
 			return NULL;
 		} else {
+			close(dev->fd);
 			dev->fd = -1;
 			devev.type = DEV_REMOVED;
 			return &devev;
-- 
2.43.0


From b5f4a9ad1dc3e6254edbd6673f95be883d9c5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 33/62] fix: digitizer tool events are not key strokes of
 unrelated keys

---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 00c9a3f..c63d866 100644
--- a/src/device.c
+++ b/src/device.c
@@ -548,8 +548,8 @@ struct device_event *device_read_event(struct device *dev)
 				default:
 					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP)) {
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
-						return NULL;
 					}
+					return NULL;
 			}
 		}
 
-- 
2.43.0


From 63ac4952f7c68786c0bc6abc33a72b7d491a84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 34/62] fix: do not repeat the previous event for unknown
 absolute axes

---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index c63d866..ade832d 100644
--- a/src/device.c
+++ b/src/device.c
@@ -453,7 +453,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
-- 
2.43.0


From 760df44a4eaa5580d97632a427f74b8081b8f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 35/62] fix: do not divide by zero for devices which report an
 empty axis range

---
 src/device.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device.c b/src/device.c
index ade832d..2557026 100644
--- a/src/device.c
+++ b/src/device.c
@@ -441,12 +441,16 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
+			if (dev->_maxx == dev->_minx)
+				return NULL;
 			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
+			if (dev->_maxy == dev->_miny)
+				return NULL;
 			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
 			devev.x = 0;
 
-- 
2.43.0


From 9204c5b28b47c56d285ff317c5af2ef0e92b1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 36/62] fix: ignore surplus devices instead of aborting

---
 src/device.c | 3 ++-
 src/evloop.c | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index 2557026..0242b27 100644
--- a/src/device.c
+++ b/src/device.c
@@ -225,7 +225,8 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
+			if (n >= MAX_DEVICES)
+				break;
 			struct device_worker *w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..d1eda74 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -131,7 +131,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz >= MAX_DEVICES) {
+					keyd_log("ERROR: too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From f085d59ecf37bd5f3ebc27c48e93e04760b9f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 37/62] fix: only key events count towards the panic sequence

---
 src/evloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index d1eda74..70c087f 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -103,7 +103,8 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY)
+							panic_check(devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 47f2e227535e66c0b870354376ba293e4f4dcc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 38/62] fix: commands do not inherit the control socket, its
 connections or the lock

---
 src/daemon.c | 2 ++
 src/ipc.c    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 7ac9c5d..9c8bc5e 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -599,6 +599,8 @@ static int event_handler(struct event *ev)
 				break;
 			}
 
+			fcntl(con, F_SETFD, FD_CLOEXEC);
+
 			handle_client(con);
 		}
 		break;
diff --git a/src/ipc.c b/src/ipc.c
index e6cbe43..53d9b53 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -47,7 +47,7 @@ int ipc_connect()
 int ipc_create_server()
 {
 	char lockpath[PATH_MAX];
-	int sd = socket(AF_UNIX, SOCK_STREAM, 0);
+	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 	int lfd;
 	struct sockaddr_un addr = {0};
 
@@ -60,7 +60,7 @@ int ipc_create_server()
 	addr.sun_family = AF_UNIX;
 	strncpy(addr.sun_path, SOCKET_PATH, sizeof(addr.sun_path)-1);
 	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
-	lfd = open(lockpath, O_CREAT | O_RDONLY, 0600);
+	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);
 
 	if (lfd < 0) {
 		perror("open");
-- 
2.43.0


From e624ff0d42c97f5dd75d4a08ccb124c52f829128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 39/62] fix: declare KEY_VOICECOMMAND on the virtual keyboard

---
 src/vkbd/uinput.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..f856107 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -84,6 +84,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
-- 
2.43.0


From 16c249b499142e753e5952fc945c61a472d1883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 40/62] fix: stop reading the input on error

---
 src/keyd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..3dca2dd 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -112,7 +112,7 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		}
 	} else {
 		while (1) {
-			size_t n;
+			ssize_t n;
 
 			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
 				break;
-- 
2.43.0


From c12edde3ca98b5f804f24a136624495be8245e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 41/62] fix: swapping a toggled layer for one which is already
 toggled no longer leaves it stuck

---
 src/keyboard.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 0ee716f..8fe00b8 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -767,8 +767,12 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
-				activate_layer(kbd, 0, idx);
-				kbd->layer_state[idx].toggled = 1;
+				/* The new layer may already be toggled on. */
+				if (!kbd->layer_state[idx].toggled) {
+					activate_layer(kbd, 0, idx);
+					kbd->layer_state[idx].toggled = 1;
+				}
+
 				update_mods(kbd, -1, 0);
 			} else if (kbd->layer_state[dl].oneshot_depth) {
 				deactivate_layer(kbd, dl);
-- 
2.43.0


From 295f7c7107fc4641a80bdbd9b708a6e6eada963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 42/62] fix: the tap action of an overloaded key is released
 properly when it defers its decision

---
 src/keyboard.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 8fe00b8..98f6f96 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -661,8 +661,17 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
 				} else {
+					/*
+					 * The action may defer its decision, so it has to be
+					 * released in the same way as the one of a physical key.
+					 */
+					cache_set(kbd, code, &(struct cache_entry) {
+						.d = *action,
+						.dl = dl,
+						.layer = 0,
+					});
 					process_descriptor(kbd, code, action, dl, 1, time);
-					process_descriptor(kbd, code, action, dl, 0, time);
+					process_event(kbd, code, 0, time);
 				}
 			}
 		}
-- 
2.43.0


From 4601ebd918f40b13020fb768c8a8fc901cfdea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 43/62] fix: a repeated down event does not resolve a pending
 key

---
 src/keyboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 98f6f96..84a60e6 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1070,6 +1070,10 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 	struct descriptor action = {0};
 
+	/* Repeated down events of held keys are not key strokes. */
+	if (code && pressed && cache_get(kbd, code))
+		return 0;
+
 	if (code) {
 		struct key_event *ev;
 
-- 
2.43.0


From a318c9f7219119c089d0fb684f9f96631e045ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 44/62] fix: pressing a single key of a chord repeatedly does
 not activate it

---
 src/keyboard.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 84a60e6..5f90ff2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -306,9 +306,19 @@ static int chord_event_match(struct chord *chord, struct key_event *events, size
 
 static void enqueue_chord_event(struct keyboard *kbd, uint8_t code, uint8_t pressed, long time)
 {
+	size_t i;
+
 	if (!code)
 		return;
 
+	/* Discard repeated events of the same key. */
+	for (i = kbd->chord.queue_sz; i > 0; i--)
+		if (kbd->chord.queue[i-1].code == code) {
+			if (kbd->chord.queue[i-1].pressed == pressed)
+				return;
+			break;
+		}
+
 	kbd->chord.queue[kbd->chord.queue_sz].code = code;
 	kbd->chord.queue[kbd->chord.queue_sz].pressed = pressed;
 	kbd->chord.queue[kbd->chord.queue_sz].timestamp = time;
-- 
2.43.0


From 0a6ca2435177925c1a706971273b8fe1a1fca2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 45/62] fix: a timeout which elapses together with another
 event is not lost

---
 src/daemon.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 9c8bc5e..95f74ff 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -493,13 +493,18 @@ static int event_handler(struct event *ev)
 	static int timeout = 0;
 	struct key_event kev = {0};
 
-	timeout -= ev->timestamp - last_time;
-	last_time = ev->timestamp;
+	/* A pending timeout must not be dropped before it has been processed. */
+	if (timeout > 0) {
+		timeout -= ev->timestamp - last_time;
+		timeout = timeout < 1 ? 1 : timeout;
+	}
 
-	timeout = timeout < 0 ? 0 : timeout;
+	last_time = ev->timestamp;
 
 	switch (ev->type) {
 	case EV_TIMEOUT:
+		timeout = 0;
+
 		if (!active_kbd)
 			return 0;
 
-- 
2.43.0


From 40b82093fe1cb13942aef4aefac48edc467ba28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 46/62] fix: using one keyboard does not drop the pending
 timeouts of another one

---
 src/daemon.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 95f74ff..a722c8e 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -487,11 +487,21 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 	return kbd_process_events(kbd, &kev, 1);
 }
 
+/* The earlier of two timeouts, 0 if there is none. */
+static long min_timeout(long a, long b)
+{
+	if (a <= 0 || (b > 0 && b < a))
+		return b;
+
+	return a;
+}
+
 static int event_handler(struct event *ev)
 {
 	static int last_time = 0;
 	static int timeout = 0;
 	struct key_event kev = {0};
+	struct config_ent *ent;
 
 	/* A pending timeout must not be dropped before it has been processed. */
 	if (timeout > 0) {
@@ -505,13 +515,12 @@ static int event_handler(struct event *ev)
 	case EV_TIMEOUT:
 		timeout = 0;
 
-		if (!active_kbd)
-			return 0;
-
 		kev.code = 0;
 		kev.timestamp = ev->timestamp;
 
-		timeout = kbd_process_events(active_kbd, &kev, 1);
+		/* Keyboards other than the active one may have pending timeouts too. */
+		for (ent = configs; ent; ent = ent->next)
+			timeout = min_timeout(timeout, kbd_process_events(ent->kbd, &kev, 1));
 		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
@@ -526,7 +535,7 @@ static int event_handler(struct event *ev)
 				kev.pressed = ev->devev->pressed;
 				kev.timestamp = ev->timestamp;
 
-				timeout = kbd_process_events(kbd, &kev, 1);
+				timeout = min_timeout(timeout, kbd_process_events(kbd, &kev, 1));
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -556,16 +565,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp));
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp));
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp));
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp));
 				}
 				break;
 			default:
@@ -573,7 +582,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				timeout = min_timeout(timeout, process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp));
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
-- 
2.43.0


From 6e54c7e09d19b0fa90afcdd42b10146447f08e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 47/62] fix: release the modifiers of a clearm() macro

---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 5f90ff2..8cbd4ad 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -642,6 +642,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			clear(kbd);
 			macro = &kbd->config.macros[d->args[0].idx];
 			execute_macro(kbd, dl, macro);
+			update_mods(kbd, dl, 0);
 		}
 		break;
 	case OP_CLEAR:
-- 
2.43.0


From 9e260f236b3efaa6e5173c72b45726fd78a80a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 48/62] fix: release the modifiers of a macro which is tapped
 through overload()

---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 8cbd4ad..5e4574a 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -671,6 +671,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					 */
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
+					update_mods(kbd, dl, 0);
 				} else {
 					/*
 					 * The action may defer its decision, so it has to be
-- 
2.43.0


From c5cc1cff0abf1a517597fbea14aaff334485423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 49/62] fix: the PROG keys of a device are not wheel events

---
 src/device.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 0242b27..8e58f37 100644
--- a/src/device.c
+++ b/src/device.c
@@ -472,7 +472,10 @@ struct device_event *device_read_event(struct device *dev)
 		if (ev.value == 2)
 			return NULL;
 
-		if (ev.code >= 256) {
+		/* The codes of the PROG keys are used for wheel events internally (see keys.h). */
+		if (ev.code >= 256 ||
+		    ev.code == KEY_PROG1 || ev.code == KEY_PROG2 ||
+		    ev.code == KEY_PROG3 || ev.code == KEY_PROG4) {
 			switch (ev.code) {
 				/*
                                  * Shifted fn keys on laptops which support it.
-- 
2.43.0


From eaff06233169d5550a6791a6060cf41e925e5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 50/62] fix: scale absolute positions relative to the axis
 minimum

---
 src/device.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index 8e58f37..7adf3b9 100644
--- a/src/device.c
+++ b/src/device.c
@@ -444,7 +444,7 @@ struct device_event *device_read_event(struct device *dev)
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			if (dev->_maxx == dev->_minx)
 				return NULL;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
+			devev.x = ((int64_t)ev.value - (int32_t)dev->_minx) * 1024 / (dev->_maxx - dev->_minx);
 			devev.y = 0;
 
 			break;
@@ -452,7 +452,7 @@ struct device_event *device_read_event(struct device *dev)
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			if (dev->_maxy == dev->_miny)
 				return NULL;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
+			devev.y = ((int64_t)ev.value - (int32_t)dev->_miny) * 1024 / (dev->_maxy - dev->_miny);
 			devev.x = 0;
 
 			break;
-- 
2.43.0


From 28b31cda9afc71494996a3a52e4dfe2bee39ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 51/62] fix: do not swallow absolute positions at the edge of
 an axis

---
 src/device.c      | 4 ++--
 src/device.h      | 5 ++++-
 src/vkbd/uinput.c | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/device.c b/src/device.c
index 7adf3b9..085949b 100644
--- a/src/device.c
+++ b/src/device.c
@@ -445,7 +445,7 @@ struct device_event *device_read_event(struct device *dev)
 			if (dev->_maxx == dev->_minx)
 				return NULL;
 			devev.x = ((int64_t)ev.value - (int32_t)dev->_minx) * 1024 / (dev->_maxx - dev->_minx);
-			devev.y = 0;
+			devev.y = -1;
 
 			break;
 		case ABS_Y:
@@ -453,7 +453,7 @@ struct device_event *device_read_event(struct device *dev)
 			if (dev->_maxy == dev->_miny)
 				return NULL;
 			devev.y = ((int64_t)ev.value - (int32_t)dev->_miny) * 1024 / (dev->_maxy - dev->_miny);
-			devev.x = 0;
+			devev.x = -1;
 
 			break;
 		default:
diff --git a/src/device.h b/src/device.h
index 0a12699..19cb66e 100644
--- a/src/device.h
+++ b/src/device.h
@@ -45,7 +45,10 @@ struct device_event {
 		DEV_LED,
 
 		DEV_MOUSE_MOVE,
-		/* All absolute values are relative to a resolution of 1024x1024. */
+		/*
+		 * All absolute values are relative to a resolution of 1024x1024,
+		 * an axis which has not changed is negative.
+		 */
 		DEV_MOUSE_MOVE_ABS,
 		DEV_MOUSE_SCROLL,
 
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index f856107..20390cc 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -307,7 +307,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 {
 	struct input_event ev;
 
-	if (x) {
+	if (x >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_X;
 		ev.value = x;
@@ -318,7 +318,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 		xwrite(vkbd->pfd, &ev, sizeof(ev));
 	}
 
-	if (y) {
+	if (y >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_Y;
 		ev.value = y;
-- 
2.43.0


From 6f284de550ba2ae0fff40f50c0a0db430b588fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 52/62] fix: close the connection of each control request (keyd
 bind opened one per binding)

---
 src/keyd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyd.c b/src/keyd.c
index 3dca2dd..e968b0d 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -26,6 +26,7 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 
 	xwrite(con, &msg, sizeof msg);
 	xread(con, &msg, sizeof msg);
+	close(con);
 
 	if (msg.sz) {
 		xwrite(1, msg.data, msg.sz);
-- 
2.43.0


From b4af5867833d499a81bbcc415caa638638b624c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 53/62] fix: close the virtual pointer along with the virtual
 keyboard

---
 src/vkbd/uinput.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index 20390cc..1f28bc7 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -347,6 +347,7 @@ void free_vkbd(struct vkbd *vkbd)
 {
 	if (vkbd) {
 		close(vkbd->fd);
+		close(vkbd->pfd);
 		free(vkbd);
 	}
 }
-- 
2.43.0


From 58a903594dcbdfe2cce405d58145a0eb6c294b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 54/62] fix: keep included text without a final newline apart
 from the line after it

---
 src/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config.c b/src/config.c
index 697cf6b..7ae4982 100644
--- a/src/config.c
+++ b/src/config.c
@@ -167,6 +167,10 @@ static char *read_file(const char *path)
 				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)
 					sz += n;
 				close(fd);
+
+				/* The included text must not run into the line after it. */
+				if (sz > 0 && sz < MAX_FILE_SZ-1 && buf[sz-1] != '\n')
+					buf[sz++] = '\n';
 			}
 		} else {
 			strcpy(buf+sz, line);
-- 
2.43.0


From 159e6fe0ff5d66dfba0c39a8eedb8c762d9fcbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 55/62] fix: treat every non-zero value of a switch in [global]
 as set

---
 src/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 7ae4982..22b23a1 100644
--- a/src/config.c
+++ b/src/config.c
@@ -767,7 +767,7 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
 			config->macro_sequence_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "disable_modifier_guard"))
-			config->disable_modifier_guard = atoi(ent->val);
+			config->disable_modifier_guard = atoi(ent->val) != 0;
 		else if (!strcmp(ent->key, "oneshot_timeout"))
 			config->oneshot_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "chord_hold_timeout"))
@@ -780,7 +780,7 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 		else if (!strcmp(ent->key, "macro_repeat_timeout"))
 			config->macro_repeat_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "layer_indicator"))
-			config->layer_indicator = atoi(ent->val);
+			config->layer_indicator = atoi(ent->val) != 0;
 		else if (!strcmp(ent->key, "overload_tap_timeout"))
 			config->overload_tap_timeout = atoi(ent->val);
 		else
-- 
2.43.0


From a5fb0cb114da84f51de4118c4a95e2d957cf3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 56/62] fix: do not take the text before a '.' in the value of
 a binding for a layer

---
 src/config.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 22b23a1..58bb74d 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1014,7 +1014,7 @@ int config_get_layer_index(const struct config *config, const char *name)
  */
 int config_add_entry(struct config *config, const char *exp)
 {
-	char *keyname, *descstr, *dot, *paren, *s;
+	char *keyname, *descstr, *dot, *paren, *eq, *s;
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
@@ -1032,8 +1032,10 @@ int config_add_entry(struct config *config, const char *exp)
 
 	dot = strchr(s, '.');
 	paren = strchr(s, '(');
+	/* An initial = is a key (see parse_kvp). */
+	eq = s[0] ? strchr(s+1, '=') : NULL;
 
-	if (dot && dot != s && (!paren || dot < paren)) {
+	if (dot && dot != s && (!paren || dot < paren) && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From d1f62ee9439f8ea77a1ff17227a432643141cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 57/62] fix: say why a binding is refused when no configuration
 is loaded

---
 src/daemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon.c b/src/daemon.c
index a722c8e..9e9ef9a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -455,6 +455,7 @@ static void handle_client(int con)
 
 		msg.data[msg.sz] = 0;
 
+		err("no configuration is loaded");
 		for (ent = configs; ent; ent = ent->next) {
 			if (!kbd_eval(ent->kbd, msg.data))
 				success = 1;
-- 
2.43.0


From 2409f9bfbe43b1a60a5f36b4d1e202e80b0b431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 58/62] fix: do not take a chord with a repeated key for
 another chord

---
 src/config.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/config.c b/src/config.c
index 58bb74d..f08afc5 100644
--- a/src/config.c
+++ b/src/config.c
@@ -216,16 +216,19 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 		size_t nm = 0;
 		struct chord *chord = &layer->chords[i];
 
+		if (n != chord->sz)
+			continue;
+
+		/* Every key has to be in both of them (one may be repeated). */
 		for (j = 0; j < n; j++) {
-			size_t k;
-			for (k = 0; k < chord->sz; k++)
-				if (keys[j] == chord->keys[k]) {
-					nm++;
-					break;
-				}
+			if (memchr(chord->keys, keys[j], n))
+				nm++;
+
+			if (memchr(keys, chord->keys[j], n))
+				nm++;
 		}
 
-		if (nm == n && n == chord->sz)
+		if (nm == 2*n)
 			return &chord->d;
 	}
 
-- 
2.43.0


From 8f65b717eb0aef0dfaa7e9a8e323e10374bbd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 59/62] fix: do not let a binding of the il and sn layouts pass
 for a section

---
 layouts/il | 2 +-
 layouts/sn | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/il b/layouts/il
index 594f77c..3216fff 100644
--- a/layouts/il
+++ b/layouts/il
@@ -16,7 +16,7 @@
 9 = 9
 ; = ף
 = = =
-[ = ]
+leftbrace = ]
 \ = \
 ] = [
 a = ש
diff --git a/layouts/sn b/layouts/sn
index 51b26e8..5ed5307 100644
--- a/layouts/sn
+++ b/layouts/sn
@@ -155,7 +155,7 @@ z = ł
 9 = Ç
 ; = º
 = = ¾
-[ = ]
+leftbrace = ]
 ] = ê
 a = Ω
 b = ‘
-- 
2.43.0


From bd23567c2c04cf5a697f6898c31a2a406e8dec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 60/62] fix: terminate a last line which has no newline (its
 copy overran the file buffer)

---
 src/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.c b/src/config.c
index f08afc5..db33f96 100644
--- a/src/config.c
+++ b/src/config.c
@@ -132,6 +132,7 @@ static char *read_file(const char *path)
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
-- 
2.43.0


From 827e3d17338058597732a30dcb2982f33823b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 61/62] fix: the first layer to be activated is not hidden by
 the default layout

---
 src/keyboard.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 5e4574a..5965236 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -14,8 +14,8 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 
 static long get_time()
 {
-	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	/* Close enough :/. Using a syscall is unnecessary. (0 and 1 are the times of main and of layouts) */
+	static long time = 2;
 	return time++;
 }
 
-- 
2.43.0


From 9b31cbc8eb87a25ad3372448665c955d95128fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:58 +0000
Subject: [PATCH 62/62] fix: do not cut times to 32 bits (after 25 days of
 uptime pending deadlines were missed)

---
 src/daemon.c   | 4 ++--
 src/evloop.c   | 2 +-
 src/keyboard.c | 2 +-
 src/keyboard.h | 2 +-
 src/keyd.h     | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 9e9ef9a..a95e297 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -474,7 +474,7 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -499,7 +499,7 @@ static long min_timeout(long a, long b)
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
+	static long last_time = 0;
 	static int timeout = 0;
 	struct key_event kev = {0};
 	struct config_ent *ent;
diff --git a/src/evloop.c b/src/evloop.c
index 70c087f..88fdb7b 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -57,7 +57,7 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
+		long start_time;
 		int elapsed;
 
 		pfds[0].fd = monfd;
diff --git a/src/keyboard.c b/src/keyboard.c
index 5965236..c5c2dd0 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1240,7 +1240,7 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 {
 	size_t i = 0;
 	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout_ts = 0;
 
 	while (i != n) {
 		const struct key_event *ev = &events[i];
diff --git a/src/keyboard.h b/src/keyboard.h
index 13f3870..5acad11 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..2ab177b 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
-- 
2.43.0

