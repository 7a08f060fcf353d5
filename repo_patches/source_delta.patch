From 3f46bd1279d547e1d18d20352306b033bdcaec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 001/123] fix: keep the eZ80 mode selected by .assume across
 #include and run()

run_first_pass() is also used for included files and code buffers, so the
default mode has to be initialised once per assembly instead.
---
 main.cpp     | 1 +
 pass_one.cpp | 3 ---
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..6ede104 100644
--- a/main.cpp
+++ b/main.cpp
@@ -57,6 +57,7 @@ int run_assembly()
 	old_line_num = 0;
 	in_macro = 0;
 	line_num = 0;
+	adl_mode = (mode & MODE_EZ80) != 0;
 #ifdef USE_BUILTIN_FCREATE
 	cur_buf = 0;
 #endif
diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..1accebe 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -116,9 +116,6 @@ void do_listing_for_line (char *ptr) {
 void run_first_pass (char *ptr) {
 	line_num = 1;
 	pass_one = true;
-	if (mode & MODE_EZ80) {
-		adl_mode = true;
-	}
 
 	while (!error_occurred && *ptr != '\0') {
 
-- 
2.43.0


From 7b18a8910e7beaad9e2277cab6f970da924110dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 002/123] fix: encode rst with a forward-referenced operand

The second pass added 0xC7 before write_arg() did, so every deferred rst
operand was rejected; it also wrote to the wrong output position.
---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..dd24297 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From 2b7e6741bba56d1d83eec58bf10ed3b42014682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 003/123] fix: exit with an error status when an unresolved
 symbol was reported

Errors collected in error sessions were printed without affecting the exit
status, so a program with undefined labels assembled 'successfully'.
---
 errors.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.cpp b/errors.cpp
index a67300a..73e4e27 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -45,6 +45,9 @@ static void PrintSPASMError(const LPERRORINSTANCE lpError)
 			printf("%s\n", lpError->lpszAnnotation);
 		}
 
+		EXIT_STATUS severity = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+		if (exit_code < severity) exit_code = severity;
+
 		printf("%s\n", lpError->lpszErrorText);
 #ifdef WINVER
 		OutputDebugString(lpError->lpszErrorText);
-- 
2.43.0


From 2d12c48e6f8f5b676b2ba96501efe5d8b6363c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 004/123] fix: keep literals and negative labels intact in
 deferred expressions

When an operand had to wait for the second pass, expand_expr() replaced names
inside character literals and hex numbers, truncated label values of ten or
more characters and pasted negative values next to a preceding sign.
---
 utils.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..f3f953a 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -814,6 +814,26 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			eb_append (new_expr, block_start, expr - block_start);
 		}
 
+		//copy literal characters and hex numbers as they are, they may look like names
+		if (*expr == '\'' && expr[1] != '\0') {
+			block_start = expr++;
+			if (*expr == '\\' && expr[1] != '\0')
+				expr++;
+			expr++;
+			if (*expr == '\'')
+				expr++;
+
+			eb_append (new_expr, block_start, expr - block_start);
+			continue;
+		} else if (*expr == '$') {
+			block_start = expr++;
+			while (isalnum ((unsigned char) *expr))
+				expr++;
+
+			eb_append (new_expr, block_start, expr - block_start);
+			continue;
+		}
+
 		//get the next name and look it up
 		name = skip_to_name_end (expr);
 		name_len = name - expr;
@@ -842,8 +862,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
-				snprintf (buf, sizeof(buf), "%d", label->value);
+				//parenthesize negative values, so that they can't run into a preceding sign
+				char buf[16];
+				snprintf (buf, sizeof(buf), label->value < 0 ? "(%d)" : "%d", label->value);
 				eb_append (new_expr, buf, -1);
 				expr += name_len;
 			//otherwise, it might be a forward ref, so just write the name
-- 
2.43.0


From 8d798dd99117a77561e963bada2d3b0b03e82e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 005/123] fix: evaluate macros in deferred expressions as in
 immediate ones

A #define used next to a forward reference was pasted into the saved
expression as bare text, so its operators mixed with the surrounding ones and
the value differed from the one it has when everything is known.
---
 pass_two.cpp |  2 +-
 utils.cpp    | 23 ++++++++++++++++++-----
 utils.h      |  2 +-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index dd24297..e02524e 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -64,7 +64,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		   expression for the second pass */
 
 		//store the contents of the expanded expression for the second pass
-		new_expr->expr = expand_expr (expr);
+		new_expr->expr = expand_expr (expr, true, true);
 
 		//and write a blank value in its place
 		if (type == ARG_ADDR_OFFSET) {
diff --git a/utils.cpp b/utils.cpp
index f3f953a..ed0c19b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -784,10 +784,12 @@ int strnlen (const char *str, int maxlen) {
 /*
  * Fully expands the text of an expression by
  * replacing all macros and labels with their
- * text replacements
+ * text replacements. In a numeric expression,
+ * a macro stands for its value, so it's kept
+ * apart from what's around it
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local) {
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool numeric) {
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -854,7 +856,18 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local);
+
+				int old_line_num = line_num;
+				char *value = numeric ? parse_define (define) : NULL;
+				line_num = old_line_num;
+				if (value != NULL) {
+					eb_append (new_expr, "(", 1);
+					expand_expr_full (value, new_expr, depth + 1, search_local, numeric);
+					eb_append (new_expr, ")", 1);
+					free (value);
+				} else {
+					expand_expr_full (define->contents, new_expr, depth + 1, search_local, numeric);
+				}
 				remove_arg_set (args);
 				if (error_occurred) {
 					free(name);
@@ -891,13 +904,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 }
 
 
-char *expand_expr (const char *expr, bool search_local) {
+char *expand_expr (const char *expr, bool search_local, bool numeric) {
 	expand_buf *new_expr;
 	char *new_expr_text;
 
 	new_expr = eb_init(strlen(expr) * 2);
 
-	expand_expr_full (expr, new_expr, 0, search_local);
+	expand_expr_full (expr, new_expr, 0, search_local, numeric);
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
diff --git a/utils.h b/utils.h
index 2d25844..e628f6c 100644
--- a/utils.h
+++ b/utils.h
@@ -50,7 +50,7 @@ bool define_with_value (const char *name, const int value);
 int strnlen (const char *str, int maxlen);
 #endif
 
-char *expand_expr (const char *expr, bool search_local = true);
+char *expand_expr (const char *expr, bool search_local = true, bool numeric = false);
 
 extern char *curr_input_file;
 extern int line_num;
-- 
2.43.0


From 14664e31533b70e0021e7859d56aee462686a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 006/123] fix: report the error when a macro call is followed
 by more of a failing expression

---
 directive.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..1e0e6b0 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -658,9 +658,14 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				read_expr (&name_end, name, "(");
 				//printf("Looking up %s\n", name);
 				next = name_end;
-				read_expr (&next, NULL, ")");
+				if (*next == '(') {
+					next++;
+					read_expr (&next, NULL, ")");
+					if (*next == ')') next++;
+				}
 				
-				if (*next != '\0')
+				// the macro call must be the whole argument, not just the start of it
+				if (*skip_whitespace (next) != '\0')
 					goto echo_error;
 
 				if ((define = search_defines (name))) {
-- 
2.43.0


From 58b79380368b22d42ee554a6a742d958c2737876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 007/123] fix: report a division by zero in eval() and macro
 arguments where it happens

---
 utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index ed0c19b..adcad8b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -234,6 +234,9 @@ char *eval (const char *expr)
 
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
+	// unlike an unknown name, this can't be put right by evaluating it again later
+	if (!fResult && IsErrorInSPASMErrorSession(session, SPASM_ERR_DIVIDE_BY_ZERO))
+		ReplaySPASMErrorSession(session);
 	EndSPASMErrorSession(session);
 	if (fResult)
 	{
-- 
2.43.0


From fec116c1c28fba023266cc8e3da6156156a59154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:19 +0000
Subject: [PATCH 008/123] fix: reject malformed numeric literals instead of
 evaluating a part of them

---
 parser.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index ea53f75..63fa1a1 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -656,8 +656,22 @@ static const char *parse_num_full (const char *expr, int *value, int depth) {
  */
 static bool conv_generic(const char *str, const char *end, int *output_num,
                   int base, int error_code) {
-	char *ep;
-	long long value = _strtoi64(str, &ep, base);
+	const char *ep = str;
+	long long value = 0;
+
+	// every character has to be a digit: strtoll would also take blanks, signs and 0x
+	for (; ep < end; ep++) {
+		int digit = isdigit ((unsigned char) *ep) ? *ep - '0' : toupper ((unsigned char) *ep) - 'A' + 10;
+		if (!isalnum ((unsigned char) *ep) || digit >= base)
+			break;
+		if (value <= UINT_MAX)
+			value = value * base + digit;
+	}
+
+	if (str >= end) {
+		SetLastSPASMError(SPASM_ERR_VALUE_EXPECTED);
+		return false;
+	}
 
 	if (ep < end) {
 		char *number = strndup(str, end - str);
@@ -666,7 +680,7 @@ static bool conv_generic(const char *str, const char *end, int *output_num,
 		return false;
 	}
 
-	if (value < INT_MIN || value > UINT_MAX) {
+	if (value > UINT_MAX) {
 		char *number = strndup(str, end - str);
 		SetLastSPASMError(SPASM_ERR_INTEGER_OVERFLOW, number);
 		free(number);
-- 
2.43.0


From cca4e5117e281afd8867934b342b7f36060d6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 009/123] fix: treat character literals as unsigned and do not
 read past an unfinished one

---
 parser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 63fa1a1..45a3412 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -275,8 +275,8 @@ static const char *parse_single_num (const char *expr, int *value) {
 		//Handle literal chars in single quotes
 		case '\'':
 		{
-			*value = *(++expr);
-			if (*value == '\\') {
+			*value = (unsigned char) *(++expr);
+			if (*value == '\\' && expr[1] != '\0') {
 				switch (toupper (*(++expr))) {
 					case 'N': 	*value = '\n'; break;
 					case '\\': 	*value = '\\'; break;
@@ -285,10 +285,15 @@ static const char *parse_single_num (const char *expr, int *value) {
 					case 'T': 	*value = '\t'; break;
 					case '\'': 	*value = '\''; break;
 					case '#': 	*value = rand () & 0xFF; break;
-					default: 	*value = *expr;
+					default: 	*value = (unsigned char) *expr;
 				}
 			}
 
+			if (*expr == '\0') {
+				SetLastSPASMError(SPASM_ERR_VALUE_EXPECTED);
+				return NULL;
+			}
+
 			if (*(++expr) != '\'') {
 				show_warning ("Literal char is missing single quote at end");
 			} else {
-- 
2.43.0


From e352632abaef4af0332825ae90c9444f2684a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 010/123] fix: recognise literal characters and escapes when
 looking for the end of a line

---
 utils.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index adcad8b..8241117 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -92,17 +92,31 @@ char *skip_to_name_end (const char *ptr) {
 }
 
 char *skip_to_line_end (const char *ptr) {
-	bool in_escape = false, in_quotes = false;
+	bool in_quotes = false;
 
 	if (ptr == NULL)
 		return NULL;
 
 	while (*ptr && *ptr != '\n' && *ptr != '\r' && (*ptr != ';' || in_quotes)) {
-		if (*ptr == '\\') in_escape = true;
-		else if (*ptr == '\"' && !in_escape) in_quotes = !in_quotes;
-		else in_escape = false;
+		const char *next = ptr + 1;
+
+		if (*ptr == '\"')
+			in_quotes = !in_quotes;
+		else if (*ptr == '\\' && (in_quotes || *next == '\"')) {
+			//an escaped character, never ends the string
+			if (*next && *next != '\n' && *next != '\r')
+				next++;
+		} else if (*ptr == '\'' && !in_quotes) {
+			//a literal character, even a quote or a semicolon
+			if (*next == '\\')
+				next++;
+			if (*next && *next != '\n' && *next != '\r' && next[1] == '\'')
+				next += 2;
+			else
+				next = ptr + 1;
+		}
 
-		ptr++;
+		ptr = next;
 	}
 
 	return (char *) ptr;
-- 
2.43.0


From 40b2b514219418e364e55cb9e9d09942a84f71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 011/123] fix: group the value of a macro in an argument that
 refers to a later symbol

---
 pass_two.cpp |  2 +-
 utils.cpp    | 26 +++++++++++++++++---------
 utils.h      |  9 ++++++++-
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index e02524e..5695355 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -64,7 +64,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		   expression for the second pass */
 
 		//store the contents of the expanded expression for the second pass
-		new_expr->expr = expand_expr (expr, true, true);
+		new_expr->expr = expand_expr (expr, true, EXPAND_NUMBER);
 
 		//and write a blank value in its place
 		if (type == ARG_ADDR_OFFSET) {
diff --git a/utils.cpp b/utils.cpp
index 8241117..edcccce 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -251,6 +251,7 @@ char *eval (const char *expr)
 	// unlike an unknown name, this can't be put right by evaluating it again later
 	if (!fResult && IsErrorInSPASMErrorSession(session, SPASM_ERR_DIVIDE_BY_ZERO))
 		ReplaySPASMErrorSession(session);
+	bool fForward = !IsSPASMErrorSessionFatal(session);
 	EndSPASMErrorSession(session);
 	if (fResult)
 	{
@@ -264,7 +265,7 @@ char *eval (const char *expr)
 	}
 	else
 	{
-		expr_value = expand_expr (expr);
+		expr_value = expand_expr (expr, true, fForward ? EXPAND_ARG : EXPAND_TEXT);
 	}
 	return expr_value;
 }
@@ -806,7 +807,8 @@ int strnlen (const char *str, int maxlen) {
  * apart from what's around it
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool numeric) {
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, EXPAND_USE use) {
+	const char *const expr_start = expr;
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -863,6 +865,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			//if it's a define, recursively expand its contents
 			if ((define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
+				const char *prev = expr - 1;
+				while (prev >= expr_start && isspace ((unsigned char) *prev))
+					prev--;
 
 				if (define->num_args > 0) {
 					expr = parse_args (expr + name_len, define, &args);
@@ -875,15 +880,18 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 
 				int old_line_num = line_num;
-				char *value = numeric ? parse_define (define) : NULL;
+				char *value = use != EXPAND_TEXT ? parse_define (define) : NULL;
 				line_num = old_line_num;
 				if (value != NULL) {
-					eb_append (new_expr, "(", 1);
-					expand_expr_full (value, new_expr, depth + 1, search_local, numeric);
-					eb_append (new_expr, ")", 1);
+					//an argument may stand for part of an operand such as (ix+1), so only group
+					//its value where that makes a difference: to the right of an operator
+					bool group = use == EXPAND_NUMBER || (prev >= expr_start && strchr ("=+-*<>|&/%^~", *prev));
+					if (group) eb_append (new_expr, "(", 1);
+					expand_expr_full (value, new_expr, depth + 1, search_local, use);
+					if (group) eb_append (new_expr, ")", 1);
 					free (value);
 				} else {
-					expand_expr_full (define->contents, new_expr, depth + 1, search_local, numeric);
+					expand_expr_full (define->contents, new_expr, depth + 1, search_local, use);
 				}
 				remove_arg_set (args);
 				if (error_occurred) {
@@ -921,13 +929,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 }
 
 
-char *expand_expr (const char *expr, bool search_local, bool numeric) {
+char *expand_expr (const char *expr, bool search_local, EXPAND_USE use) {
 	expand_buf *new_expr;
 	char *new_expr_text;
 
 	new_expr = eb_init(strlen(expr) * 2);
 
-	expand_expr_full (expr, new_expr, 0, search_local, numeric);
+	expand_expr_full (expr, new_expr, 0, search_local, use);
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
diff --git a/utils.h b/utils.h
index e628f6c..88268e2 100644
--- a/utils.h
+++ b/utils.h
@@ -50,7 +50,14 @@ bool define_with_value (const char *name, const int value);
 int strnlen (const char *str, int maxlen);
 #endif
 
-char *expand_expr (const char *expr, bool search_local = true, bool numeric = false);
+// what the expanded text is going to be used for
+typedef enum {
+	EXPAND_TEXT,		// text that replaces the original
+	EXPAND_ARG,			// macro argument, a number or the operand of an instruction
+	EXPAND_NUMBER		// expression to be evaluated
+} EXPAND_USE;
+
+char *expand_expr (const char *expr, bool search_local = true, EXPAND_USE use = EXPAND_TEXT);
 
 extern char *curr_input_file;
 extern int line_num;
-- 
2.43.0


From 21d1e7eee6f1004a8c06687281252daf21ee4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 012/123] fix: decide conditions and $ in deferred macro calls
 as at the call

---
 utils.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index edcccce..7f63872 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -851,7 +851,14 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			while (isalnum ((unsigned char) *expr))
 				expr++;
 
-			eb_append (new_expr, block_start, expr - block_start);
+			if (use == EXPAND_ARG && expr == block_start + 1) {
+				//the address of the call, not of the place where the argument gets used
+				char buf[16];
+				snprintf (buf, sizeof(buf), "%u", program_counter);
+				eb_append (new_expr, buf, -1);
+			} else {
+				eb_append (new_expr, block_start, expr - block_start);
+			}
 			continue;
 		}
 
@@ -880,9 +887,28 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 
 				int old_line_num = line_num;
+				int session = StartSPASMErrorSession();
 				char *value = use != EXPAND_TEXT ? parse_define (define) : NULL;
+				bool undecided = GetSPASMErrorSessionErrorCount(session) > 0 && !IsSPASMErrorSessionFatal(session);
+				if (!undecided)
+					ReplaySPASMErrorSession(session);
+				EndSPASMErrorSession(session);
 				line_num = old_line_num;
-				if (value != NULL) {
+				if (undecided) {
+					//a condition in the macro depends on something not known yet, so leave the call
+					//for later, with the arguments it has now
+					int i;
+					free (value);
+					eb_append (new_expr, name, name_len);
+					for (i = 0; i < define->num_args; i++) {
+						define_t *arg = search_local_defines (define->args[i]);
+						if (arg == NULL || arg->contents == NULL)
+							break;
+						eb_append (new_expr, i == 0 ? "(" : ",", 1);
+						eb_append (new_expr, arg->contents, -1);
+					}
+					if (i > 0) eb_append (new_expr, ")", 1);
+				} else if (value != NULL) {
 					//an argument may stand for part of an operand such as (ix+1), so only group
 					//its value where that makes a difference: to the right of an operator
 					bool group = use == EXPAND_NUMBER || (prev >= expr_start && strchr ("=+-*<>|&/%^~", *prev));
-- 
2.43.0


From ee9ebc4153c6d8d3c5e79e0f2873364822ef1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 013/123] fix: accept a macro that lists several values when
 one of them is a later symbol

---
 directive.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 1e0e6b0..ae96836 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -519,6 +519,42 @@ void show_define (define_t *define) {
 }
 
 
+/*
+ * Checks if an argument is just a macro (or
+ * a call) that stands for several arguments
+ */
+
+static bool is_list_macro (const char *word)
+{
+	char name[256];
+	char *name_end = (char *) word, *next;
+	define_t *define;
+	list_t *args = NULL;
+	bool is_list = false;
+	int old_line_num = line_num;
+
+	read_expr (&name_end, name, "(");
+	if ((define = search_defines (name)) == NULL || define->contents == NULL)
+		return false;
+
+	int session = StartSPASMErrorSession();
+	next = parse_args (name_end, define, &args);
+	if (next != NULL && *skip_whitespace (next) == '\0') {
+		char *expr = parse_define (define);
+		if (expr != NULL) {
+			arg_context_t context = ARG_CONTEXT_INITIALIZER;
+			const char *list = expr;
+			extract_arg_string(&list, &context);
+			is_list = extract_arg_string(&list, &context) != NULL;
+			free (expr);
+		}
+	}
+	line_num = old_line_num;
+	remove_arg_set (args);
+	EndSPASMErrorSession(session);
+	return is_list;
+}
+
 /*
  * Parses a list of values and strings,
  * either prints them to the output,
@@ -616,7 +652,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 				ReplaySPASMErrorSession(session);
 			}
-			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE)
+			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE && !is_list_macro(word))
 			{
 				switch (type) 
 				{
-- 
2.43.0


From cc1946e17f67532fb4f39b20153b6f02e9a89536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 014/123] fix: stay inside the output buffer when writing and
 seeking

---
 directive.cpp | 10 +++++++---
 pass_one.cpp  |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index ae96836..90229c8 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -444,12 +444,16 @@ addinstr_fail:
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
-			if (value > program_counter && (value - program_counter > output_buf_size - (out_ptr - output_contents)))
+			long new_pos = (long) (out_ptr - output_contents) + value - (long) program_counter;
+			if (value < 0 || new_pos > (long) output_buf_size) {
 				show_fatal_error ("Seek location %d out of bounds", value);
-			else if (value < program_counter && (value - (int) program_counter + (out_ptr - output_contents) < 0))
+				break;
+			} else if (new_pos < 0) {
 				show_fatal_error ("Seek value %d too small", value);
+				break;
+			}
 		
-			out_ptr += value - ((int) program_counter);
+			out_ptr = output_contents + new_pos;
 			//printf("base: %p; ptr: %p\n", output_contents, out_ptr);
 			program_counter = value;
 			break;
diff --git a/pass_one.cpp b/pass_one.cpp
index 1accebe..211b49e 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -37,6 +37,13 @@ const char *built_in_fcreate = "Built-in fcreate";
 
 int write_out (int val) {
 
+	//don't run past the end of the output buffer
+	if (out_ptr >= output_contents + output_buf_size) {
+		if (!error_occurred)
+			show_fatal_error ("Output is too large - must be %u bytes or less", output_buf_size);
+		return val;
+	}
+
 	//write hex data if listing mode is on
 	if (mode & MODE_LIST && listing_on) {
 		char text[4];
-- 
2.43.0


From 605be52aa11933c851489f58acca623a5b64729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 015/123] fix: write no output after a fatal error, and clear
 the output buffer

---
 main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 6ede104..4a5daff 100644
--- a/main.cpp
+++ b/main.cpp
@@ -121,6 +121,9 @@ int run_assembly()
 	ReplayFatalSPASMErrorSession(first_pass_session);
 	EndSPASMErrorSession(first_pass_session);
 	
+	//there's nothing complete to write after a fatal error
+	if (error_occurred)
+		return exit_code;
 	
 	//free include dirs when done
 	if ((mode & MODE_COMMANDLINE) == 0)
@@ -141,6 +144,9 @@ int run_assembly()
 		ReplaySPASMErrorSession(second_pass_session);
 		EndSPASMErrorSession(second_pass_session);
 
+		if (error_occurred)
+			return exit_code;
+
 		if (mode & MODE_SYMTABLE) {
 			int symtable_session = StartSPASMErrorSession();
 			char* fileName = change_extension(output_filename, "lab");
@@ -444,7 +450,8 @@ int main (int argc, char **argv)
 		init_storage();
 		is_storage_initialized = true;
 	}
-	output_contents = (unsigned char *) malloc(output_buf_size);
+	//cleared, since .seek can leave bytes that nothing gets written to
+	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
 
 	int error = run_assembly();
-- 
2.43.0


From 53007513cec148cb3d802c68fb9c2806ab1483c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 016/123] fix: report an unknown value where it is needed at
 once

---
 directive.cpp | 12 ++++++------
 errors.h      |  2 ++
 parser.cpp    | 19 +++++++++++++++++++
 parser.h      |  1 +
 pass_one.cpp  |  2 +-
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 90229c8..7c43d5d 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -77,7 +77,7 @@ char *handle_directive (const char *ptr) {
 			bool fResult = read_expr(&ptr, value_str, "");
 			if (fResult == true)
 			{
-				if (parse_num(value_str, &value) == true)
+				if (parse_num_now(value_str, &value) == true)
 				{
 					if (value < 0)
 					{
@@ -104,14 +104,14 @@ char *handle_directive (const char *ptr) {
 			//listing_on = false;
 
 			read_expr (&ptr, szSize, ",");
-			parse_num (szSize, &size);
+			parse_num_now (szSize, &size);
 			ptr = skip_whitespace (ptr);
 			if (*ptr == ',')
 				ptr++;
 
 			if (read_expr (&ptr, szFill, "")) {
 				//if there's a value to fill the block with, then handle that
-				parse_num (szFill, &fill_value);
+				parse_num_now (szFill, &fill_value);
 			} else {
 				//otherwise use 0
 				fill_value = 0;
@@ -365,8 +365,7 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			if (!parse_num (value_str, &value) && parser_forward_ref_err) {
-			} else {
+			if (parse_num_now (value_str, &value)) {
 				if (last_label == NULL)
 					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
 				else
@@ -440,7 +439,8 @@ addinstr_fail:
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			parse_num (value_str, (int *) &value);
+			if (!parse_num_now (value_str, (int *) &value))
+				break;
 
 			//printf("value_str: %s\npc: %d\n", value_str, program_counter);
 
diff --git a/errors.h b/errors.h
index 6f8843d..3ba6ebb 100644
--- a/errors.h
+++ b/errors.h
@@ -43,6 +43,7 @@ SPASMERROR, *LPSPASMERROR;
 #define SPASM_ERR_RECURSION_DEPTH			0x129
 #define SPASM_ERR_LABEL_CONFLICT			0x130
 #define SPASM_ERR_INVALID_INDEX_OFFSET		0x131
+#define SPASM_ERR_VALUE_NOT_KNOWN			0x132
 
 #define SPASM_ERR_INVALID_DECIMAL_DIGIT		0x200
 #define SPASM_ERR_INVALID_HEX_DIGIT			0x201
@@ -114,6 +115,7 @@ SPASMERROR g_ErrorCodes[]
 	{SPASM_ERR_RECURSION_DEPTH,			_T("Expression is too deep (only %d levels allowed)")},
 	{SPASM_ERR_LABEL_CONFLICT,			_T("Conflicting definition of '%s' at %s:%d")},
 	{SPASM_ERR_INVALID_INDEX_OFFSET,	_T("Index offset is expected to begin with '+' or '-' or be missing")},
+	{SPASM_ERR_VALUE_NOT_KNOWN,			_T("The value of '%s' has to be known here, but isn't yet")},
 
 	{SPASM_ERR_INVALID_DECIMAL_DIGIT,	_T("Invalid digit '%c' in the decimal number '%s'")},
 	{SPASM_ERR_INVALID_HEX_DIGIT,		_T("Invalid digit '%c' in the hexadecimal number '%s'")},
diff --git a/parser.cpp b/parser.cpp
index 45a3412..941b28b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -125,6 +125,25 @@ bool parse_num (const char *expr, int *value) {
 	return (result != NULL);
 }
 
+/*
+ * Parses an expression that is needed
+ * at once, so that it's an error if it
+ * refers to something defined later
+ */
+
+bool parse_num_now (const char *expr, int *value) {
+	int session = StartSPASMErrorSession();
+	bool fResult = parse_num (expr, value);
+	bool fUnknown = !fResult && !IsSPASMErrorSessionFatal(session);
+	if (!fUnknown)
+		ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+
+	if (fUnknown)
+		SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, expr);
+	return fResult;
+}
+
 /*
  * Parses expression,
  * ignoring errors
diff --git a/parser.h b/parser.h
index 6cb90f9..ffe1d8e 100644
--- a/parser.h
+++ b/parser.h
@@ -8,6 +8,7 @@
 extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
+bool parse_num_now (const char *expr, int *value);
 char *parse_define (define_t *define);
 int parse_f (const char *expr);
 bool conv_hex (const char *start, const char *end, int *output_num);
diff --git a/pass_one.cpp b/pass_one.cpp
index 211b49e..1979eff 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -249,7 +249,7 @@ char *run_first_pass_line_sec (char *ptr) {
 		ptr++;
 		read_expr (&ptr, value_str, "");
 
-		if (parse_num (value_str, &value) == true)
+		if (parse_num_now (value_str, &value) == true)
 		{
 			if (last_label == NULL) {
 				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-- 
2.43.0


From acd39fffae7e5319087440976ab49a8b918a26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 017/123] fix: report stray conditionals after a skipped branch

---
 parser.cpp |  3 ++
 preop.cpp  | 86 +++++++++++++++++++++++++++++++++++++++++++++---------
 preop.h    |  2 ++
 3 files changed, 77 insertions(+), 14 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 941b28b..8f7d0f2 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -176,6 +176,7 @@ char *parse_define (define_t *define)
 {
 	char *curr_line = define->contents;
 	char *lpszResult = NULL;
+	size_t if_level = get_if_level();
 
 	while (curr_line != NULL && *curr_line && !error_occurred) {
 		char *next_line = curr_line;
@@ -195,6 +196,8 @@ char *parse_define (define_t *define)
 		line_num++;
 	}
 
+	//the #ENDIFs after the value aren't reached
+	set_if_level(if_level);
 	return lpszResult;
 }
 
diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..ccbd359 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -1,5 +1,7 @@
 #include "stdafx.h"
 
+#include <vector>
+
 #include "preop.h"
 #include "spasm.h"
 #include "utils.h"
@@ -17,10 +19,11 @@ static char *handle_preop_include (char *ptr);
 char *handle_preop_import (char *ptr);
 char *handle_preop_if (char *ptr);
 static char *skip_until (char *ptr, int *line, int argc, ...);
+static char *skip_to_endif (char *ptr);
 
 extern bool case_sensitive;
 static define_t *last_define = NULL;
-static int nIfLevel = 0;
+static std::vector<bool> if_levels;	//open #IFs, true for those that are past their #ELSE
 static bool fInMacro = false;
 
 /*
@@ -75,19 +78,22 @@ char *handle_preop (char *ptr) {
 		}
 		case 2: //IF
 		{
-			nIfLevel++;
+			if_levels.push_back(false);
 			ptr = handle_preop_if (ptr);
 			break;
 		}
 		case 6: // ELIF
 			{
-				if (nIfLevel == 0)
+				if (if_levels.empty())
 				{
 					SetLastSPASMError(SPASM_ERR_ELIF_WITHOUT_IF);
 				}
-				int session = StartSPASMErrorSession();
-				ptr = skip_until(ptr, &line_num, 1, "#endif");
-				EndSPASMErrorSession(session);
+				else
+				{
+					if (if_levels.back())
+						SetLastSPASMError(SPASM_ERR_STRAY_PREOP, preops[preop]);
+					ptr = skip_to_endif (ptr);
+				}
 				break;
 			}
 		case 3: //IFDEF
@@ -102,7 +108,7 @@ char *handle_preop (char *ptr) {
 				return ptr;
 			}
 
-			nIfLevel++;
+			if_levels.push_back(false);
 			name_end = skip_to_name_end (ptr);
 			name = strndup (ptr, name_end - ptr);
 			//if it's defined, do all the normal #if stuff
@@ -125,7 +131,7 @@ char *handle_preop (char *ptr) {
 				return ptr;
 			}
 
-			nIfLevel++;
+			if_levels.push_back(false);
 			name_end = skip_to_name_end (ptr);
 			name = strndup (ptr, name_end - ptr);
 
@@ -138,23 +144,24 @@ char *handle_preop (char *ptr) {
 		}
 		case 5: //ELSE
 		{
-			if (nIfLevel == 0)
+			if (if_levels.empty())
 			{
 				SetLastSPASMError(SPASM_ERR_STRAY_PREOP, preops[preop]);
 			}
 			else
 			{
-				int session = StartSPASMErrorSession();
-				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
-				EndSPASMErrorSession(session);
+				if (if_levels.back())
+					SetLastSPASMError(SPASM_ERR_STRAY_PREOP, preops[preop]);
+				if_levels.back() = true;
+				ptr = skip_to_endif (ptr);
 			}
 			break;
 		}
 		case 7: //ENDIF
 		{
-			if (nIfLevel > 0)
+			if (!if_levels.empty())
 			{
-				nIfLevel--;
+				if_levels.pop_back();
 			}
 			else
 			{
@@ -659,16 +666,67 @@ char *do_if (char *ptr, int condition)
 		char *result = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
 		if (line_has_word(result, _T("#else"), 5))
 		{
+			if (!if_levels.empty())
+				if_levels.back() = true;
 			result = next_code_line(result) - 1;
 		}
 		else if (line_has_word(result, _T("#elif"), 5))
 		{
 			result = handle_preop_if(skip_whitespace(result) + 5);
 		}
+		else if (line_has_word(result, _T("#endif"), 6))
+		{
+			if (!if_levels.empty())
+				if_levels.pop_back();
+		}
 		return result;
 	}
 }
 
+/*
+ * Skips the branches of the current #IF
+ * that come after the one that was taken,
+ * returns pointer to the #ENDIF
+ */
+
+static char *skip_to_endif (char *ptr)
+{
+	int session = StartSPASMErrorSession();
+	ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
+	EndSPASMErrorSession(session);
+
+	while (line_has_word(ptr, _T("#else"), 5) || line_has_word(ptr, _T("#elif"), 5))
+	{
+		bool fElse = line_has_word(ptr, _T("#else"), 5);
+		if (if_levels.back())
+			SetLastSPASMError(SPASM_ERR_STRAY_PREOP, fElse ? _T("else") : _T("elif"));
+		if (fElse)
+			if_levels.back() = true;
+
+		session = StartSPASMErrorSession();
+		ptr = skip_until (skip_whitespace(ptr) + 5, &line_num, 3, "#else", "#elif", "#endif");
+		EndSPASMErrorSession(session);
+	}
+
+	if_levels.pop_back();
+	return ptr;
+}
+
+/*
+ * The number of open #IFs, to return to
+ * when the rest of a text isn't processed
+ */
+
+size_t get_if_level(void)
+{
+	return if_levels.size();
+}
+
+void set_if_level(size_t level)
+{
+	if_levels.resize(level);
+}
+
 /*
  * Parses argument definitions
  * for a macro, returns a pointer
diff --git a/preop.h b/preop.h
index 258127e..080ee63 100644
--- a/preop.h
+++ b/preop.h
@@ -3,6 +3,8 @@
 
 #include "storage.h"
 char *handle_preop (char *ptr);
+size_t get_if_level(void);
+void set_if_level(size_t level);
 char *parse_arg_defs (const char *ptr, define_t *define);
 
 #endif
-- 
2.43.0


From 0bff8796f026237d269dbc2f4bdea651c6b5adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 018/123] fix: assemble what follows a skipped #endif on the
 same line

---
 preop.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index ccbd359..4987444 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -678,6 +678,7 @@ char *do_if (char *ptr, int condition)
 		{
 			if (!if_levels.empty())
 				if_levels.pop_back();
+			result = skip_whitespace(result) + 6;
 		}
 		return result;
 	}
@@ -708,6 +709,9 @@ static char *skip_to_endif (char *ptr)
 		EndSPASMErrorSession(session);
 	}
 
+	if (line_has_word(ptr, _T("#endif"), 6))
+		ptr = skip_whitespace(ptr) + 6;
+
 	if_levels.pop_back();
 	return ptr;
 }
-- 
2.43.0


From 7a4e0091a1e474ed1467c89ef90d27a3914e391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 019/123] fix: evaluate all arguments of a macro call in the
 context of the caller

---
 storage.h | 1 +
 utils.cpp | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/storage.h b/storage.h
index fbd3063..65ba09c 100644
--- a/storage.h
+++ b/storage.h
@@ -63,6 +63,7 @@ void set_case_sensitive(bool sensitive);
 bool get_case_sensitive();
 void dump_defines();
 
+extern list_t *arg_list;
 extern hash_t *label_table;
 
 #endif
diff --git a/utils.cpp b/utils.cpp
index 7f63872..a0427d6 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -289,6 +289,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 		return (char *) ptr;
 
 	*curr_arg_set = add_arg_set();
+	list_t *caller_args = arg_list->next;
 
 	//then parse each argument and store its value
 	if (*ptr == '(') {
@@ -312,9 +313,11 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 				}
 				else
 				{
-					label_t *label = search_labels(define->name);
-					add_arg(strdup(define->args[num_args++]), eval(word), *curr_arg_set);
-					//free(evald_word);
+					//the argument belongs to the caller, so it can't see the ones before it
+					arg_list = caller_args;
+					char *value = eval(word);
+					arg_list = *curr_arg_set;
+					add_arg(strdup(define->args[num_args++]), value, *curr_arg_set);
 				}
 
 				//AddSPASMErrorSessionAnnotation(nSession, "Error during evaluation of macro '%s' argument '%s'", define->name, define->args[num_args - 1]);
-- 
2.43.0


From f750146eefcb702565a54c0585908acdab2ff837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 020/123] fix: carry on after a warning instead of failing
 without output

---
 directive.cpp | 12 ++++++++++++
 errors.cpp    |  7 ++++---
 parser.cpp    |  2 +-
 pass_one.cpp  |  2 +-
 pass_two.cpp  |  6 +++++-
 utils.cpp     |  3 ++-
 6 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 7c43d5d..1928dea 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -310,7 +310,12 @@ addinstr_fail:
 				else
 				{
 					expand_buf_t *echo = eb_init(256);
+					int internal_session = StartSPASMErrorSession();
 					parse_emit_string (expr, ES_FCREATE, echo);
+					EndSPASMErrorSession(internal_session);
+
+					//there may be warnings
+					ReplaySPASMErrorSession(session);
 
 					char *echo_string = eb_extract(echo);
 					eb_free(echo);
@@ -658,6 +663,13 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 			}
 			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE && !is_list_macro(word))
 			{
+				if (type != ES_ECHO)
+				{
+					//add_pass_two_expr evaluates it again, with the same warnings
+					EndSPASMErrorSession(session);
+					session = StartSPASMErrorSession();
+				}
+
 				switch (type) 
 				{
 				case ES_ECHO:
diff --git a/errors.cpp b/errors.cpp
index 73e4e27..3eba116 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -101,7 +101,8 @@ int GetSPASMErrorSessionErrorCount(int nSession)
 	list_t *pList = (list_t *) g_ErrorList;
 	while ((pList != NULL) && ((LPERRORINSTANCE) pList->data)->nSession == nSession)
 	{
-		if (((LPERRORINSTANCE) pList->data)->dwErrorCode != SPASM_ERR_SUCCESS)
+		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
+		if (lpError->dwErrorCode != SPASM_ERR_SUCCESS && !lpError->fIsWarning)
 		{
 			nCount++;
 		}
@@ -126,7 +127,7 @@ bool IsSPASMErrorSessionFatal(int nSession)
 	{
 		LPERRORINSTANCE lpError = (LPERRORINSTANCE) pList->data;
 		DWORD dwError = lpError->dwErrorCode;
-		if (IsSPASMErrorFatal(dwError))
+		if (IsSPASMErrorFatal(dwError) && !lpError->fIsWarning)
 		{
 			fIsFatal = true;
 			break;
@@ -253,7 +254,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(IsSPASMErrorFatal(lpErr->dwErrorCode) && !lpErr->fIsWarning) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
diff --git a/parser.cpp b/parser.cpp
index 8f7d0f2..17d7efd 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -436,9 +436,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 						if (GetSPASMErrorSessionErrorCount(session) > 0)
 						{
 							AddSPASMErrorSessionAnnotation(session, _T("Error during evaluation of macro '%s'"), define->name);
-							ReplaySPASMErrorSession(session);
 							fHasError = true;
 						}
+						ReplaySPASMErrorSession(session);
 						EndSPASMErrorSession(session);
 
 						remove_arg_set (args);
diff --git a/pass_one.cpp b/pass_one.cpp
index 1979eff..cde4b32 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -422,8 +422,8 @@ char *handle_opcode_or_macro (char *ptr) {
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
 					AddSPASMErrorSessionAnnotation(session, "Error during invocation of fcreate");
-					ReplaySPASMErrorSession(session);
 				}
+				ReplaySPASMErrorSession(session);
 				EndSPASMErrorSession(session);
 			}
 			ptr += 2;
diff --git a/pass_two.cpp b/pass_two.cpp
index 5695355..49d8779 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -34,6 +34,10 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 	{
 		expr_t *new_expr;
 
+		//it's evaluated again then, so only keep the warnings about what's expanded now
+		EndSPASMErrorSession(session);
+		session = StartSPASMErrorSession();
+
 		//if that didn't work, then add it to the pass two expression list
 		new_expr = (expr_t *)malloc (sizeof (expr_t));
 		new_expr->program_counter = program_counter;
@@ -71,7 +75,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 			type = ARG_NUM_8;
 		}
 		write_arg (0, type, inst_size, 0);
-
+		ReplaySPASMErrorSession(session);
 	}
 	else if (fResult == false)
 	{
diff --git a/utils.cpp b/utils.cpp
index a0427d6..31df758 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -249,7 +249,8 @@ char *eval (const char *expr)
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
 	// unlike an unknown name, this can't be put right by evaluating it again later
-	if (!fResult && IsErrorInSPASMErrorSession(session, SPASM_ERR_DIVIDE_BY_ZERO))
+	// and there may be warnings about an expression that has a value
+	if (fResult || IsErrorInSPASMErrorSession(session, SPASM_ERR_DIVIDE_BY_ZERO))
 		ReplaySPASMErrorSession(session);
 	bool fForward = !IsSPASMErrorSessionFatal(session);
 	EndSPASMErrorSession(session);
-- 
2.43.0


From d79d41b44e01d12cd51fee37714daf7985e2f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 021/123] fix: end an unclosed parenthesis at the end of its
 line

---
 utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 31df758..2b1869f 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -476,6 +476,9 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 				strcpy (word, "0");
 			return true;
 		}
+		// parentheses that aren't closed don't make the next lines a part of the expression
+		if ((**ptr == '\r' || **ptr == '\n') && !in_string)
+			break;
 		if (word)
 			*word_ptr++ = **ptr;
 		(*ptr)++;
-- 
2.43.0


From ef04311fa6a121ef4a0f742b4f513e00a116d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 022/123] fix: report a data value whose macro argument was not
 given

---
 directive.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 1928dea..311204c 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -725,11 +725,6 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					list_t *args = NULL;
 	
 					//handle defines
-					if (define->contents == NULL)
-					{
-						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
-					}
-					
 					if (*(name_end - 1) == '(') name_end--;
 					name_end = parse_args (name_end, define, &args);
 					if (!name_end)
@@ -776,6 +771,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						}
 						free (expr);
 					}
+					else
+					{
+						ReplaySPASMErrorSession(session);
+					}
 					remove_arg_set (args);
 				}
 				else
-- 
2.43.0


From e0c53653db759fc1a0fecde2329be3b02f0a8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:00 +0000
Subject: [PATCH 023/123] fix: assemble every line of a macro when more follows
 its call

---
 pass_one.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index cde4b32..91721d7 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -461,7 +461,13 @@ char *handle_opcode_or_macro (char *ptr) {
 						strcpy(full_line, define->contents);
 						strncat(full_line, ptr, line_end - ptr);
 
-						run_first_pass_line(full_line);
+						//the rest of the line belongs to the last line of the macro
+						char *curr_line = full_line;
+						while (curr_line != NULL && *curr_line && !error_occurred)
+						{
+							char *next_line = run_first_pass_line(curr_line);
+							curr_line = skip_to_next_line(next_line);
+						}
 						free(full_line);
 					}
 				} else {
-- 
2.43.0


From 62e58facc503ace7e6fe3c9ce5f716f50e664432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 024/123] fix: skip all surplus arguments of a macro call

---
 utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 2b1869f..1ff47ca 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -302,8 +302,9 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 			while ((word = extract_arg_string(&ptr, &context)) != NULL)
 			{
 				if (num_args >= define->num_args) {
-					SetLastSPASMWarning(SPASM_WARN_MACRO_TOO_MANY_ARGS, define->name);
-					break;
+					if (num_args++ == define->num_args)
+						SetLastSPASMWarning(SPASM_WARN_MACRO_TOO_MANY_ARGS, define->name);
+					continue;
 				}
 
 				//int nSession = StartSPASMErrorSession();
-- 
2.43.0


From 24e2633edd90bf96f58d702c44a9edb0334923d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 025/123] fix: don't take the start of a name for buf, clr, wr
 or run

---
 pass_one.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 91721d7..a1c511a 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -337,7 +337,8 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		const int name_len = name_end - name_start;
+		if (name_len == 3 && !strncasecmp (name_start, "buf", name_len) && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
@@ -348,7 +349,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
 			}
 			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+		} else if (name_len == 3 && !strncasecmp (name_start, "clr", name_len) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
@@ -356,7 +357,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
 			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+		} else if (name_len == 2 && !strncasecmp (name_start, "wr", name_len) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -366,7 +367,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
 			ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (name_len == 3 && !strncasecmp (name_start, "run", name_len) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
-- 
2.43.0


From cbbb3a5ca53e9df19a89361e3d1c4846ae50eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 026/123] fix: expand calls of macros without parameters in
 deferred expressions

---
 utils.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 1ff47ca..6bd9d9c 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -884,14 +884,10 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				while (prev >= expr_start && isspace ((unsigned char) *prev))
 					prev--;
 
-				if (define->num_args > 0) {
-					expr = parse_args (expr + name_len, define, &args);
-					if (!expr) {
-						free (name);
-						return;
-					}
-				} else {
-					expr += name_len;
+				expr = parse_args (expr + name_len, define, &args);
+				if (!expr) {
+					free (name);
+					return;
 				}
 
 				int old_line_num = line_num;
-- 
2.43.0


From e0368220cf77dad1f755ade75895f9c41d8978c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 027/123] fix: keep the names of labels in the text of a
 redefined define

---
 utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 6bd9d9c..8780a61 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -928,8 +928,8 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 					free(name);
 					return;
 				}
-			//if it's a label, write its value
-			} else if ((label = search_labels (name))) {
+			//if it's a label, write its value, except in the text of a define, which keeps the name
+			} else if (search_local && (label = search_labels (name))) {
 				//parenthesize negative values, so that they can't run into a preceding sign
 				char buf[16];
 				snprintf (buf, sizeof(buf), label->value < 0 ? "(%d)" : "%d", label->value);
-- 
2.43.0


From 41267036ef5ec0e0ee8002a2b6cfc24de5af365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 028/123] fix: report an unknown value in concat()

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 4987444..38ebcbc 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -373,7 +373,7 @@ char *handle_preop_define (const char *ptr) {
 							free(define_buffer);
 						}
 					}
-					else if (parse_num(arg, &value) == true)
+					else if (parse_num_now(arg, &value) == true)
 					{
 						char num_buf[256];
 						sprintf (num_buf, "%d", value);
-- 
2.43.0


From 4d6119320109220783d6764add0f3837cb8d0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:22 +0000
Subject: [PATCH 029/123] fix: don't keep the blanks before a comment in the
 text of a define

---
 preop.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 38ebcbc..23a7c5e 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -389,7 +389,11 @@ char *handle_preop_define (const char *ptr) {
 			
 		} else {
 			value_end = skip_to_line_end (ptr);
-			set_define (define, ptr, value_end - ptr, redefined);
+			const char *text_end = value_end;
+			//blanks before a comment aren't a part of the text
+			while (text_end > ptr && isspace ((unsigned char) text_end[-1]))
+				text_end--;
+			set_define (define, ptr, text_end - ptr, redefined);
 			ptr = value_end;
 		}
 	}
-- 
2.43.0


From a6f288967a3ceae97294e93ac43d44bb3d5d277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 030/123] fix: leave comments and line ends out of the value of
 a macro

---
 utils.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 8780a61..2ea34a8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -124,11 +124,7 @@ char *skip_to_line_end (const char *ptr) {
 
 const char *skip_to_code_line_end(const char *ptr)
 {
-	const char *next = next_code_line((char *) ptr);
-	if (*next == '\0')
-		return next;
-	while (is_end_of_code_line (--next)) ;
-	return next + 1;
+	return next_expr (ptr, "\\;\r\n");
 }
 
 char *skip_whitespace (const char *ptr) {
-- 
2.43.0


From e8443054d4577b1e04efc42d8c81e15c2c789213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 031/123] fix: take only the text of its line into a #defcont

---
 preop.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 23a7c5e..1af886a 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -253,7 +253,7 @@ char *handle_preop (char *ptr) {
 				break;
 			}
 			char *defcont_start = ptr;
-			ptr = skip_to_next_line(ptr);
+			ptr = skip_to_line_end(ptr);
 			int defcont_len = strlen(last_define->name) + (ptr - defcont_start) + 1;
 			char *new_contents = (char *) malloc(defcont_len + 1);
 			strcpy(new_contents, last_define->name);
@@ -262,7 +262,6 @@ char *handle_preop (char *ptr) {
 			new_contents[defcont_len] = '\0';
 			set_define(last_define, new_contents, -1, true);
 			free(new_contents);
-			ptr--;
 		}
 	}
 
-- 
2.43.0


From d48679975a728365229d21c085295d48c1e330f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 032/123] fix: forget the define that #defcont adds to when it
 is removed

---
 preop.cpp   | 2 +-
 storage.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 1af886a..2a0c1a0 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -22,7 +22,7 @@ static char *skip_until (char *ptr, int *line, int argc, ...);
 static char *skip_to_endif (char *ptr);
 
 extern bool case_sensitive;
-static define_t *last_define = NULL;
+define_t *last_define = NULL;
 static std::vector<bool> if_levels;	//open #IFs, true for those that are past their #ELSE
 static bool fInMacro = false;
 
diff --git a/storage.cpp b/storage.cpp
index ece6b5f..a3c7236 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -15,6 +15,7 @@
 extern char *curr_input_file;
 extern int line_num;
 extern bool error_occurred;
+extern define_t *last_define;
 
 #ifdef USE_REUSABLES
 extern unsigned int program_counter;
@@ -157,6 +158,10 @@ static void destroy_define_value (void *data) {
 	define_t *define = (define_t *)data;
 	int curr_arg;
 
+	//a #DEFCONT can't add to it anymore
+	if (define == last_define)
+		last_define = NULL;
+
 	if (define->contents)
 		free (define->contents);
 	if (define->name)
-- 
2.43.0


From 0cf2a22e41d7c4c714b7bfa325b0ecbd7dd6d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 033/123] fix: allow any number of anonymous labels

---
 storage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index a3c7236..758a8a9 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -1,4 +1,5 @@
 #include "stdafx.h"
+#include <vector>
 
 #include "spasm.h"
 #include "storage.h"
@@ -19,7 +20,7 @@ extern define_t *last_define;
 
 #ifdef USE_REUSABLES
 extern unsigned int program_counter;
-unsigned int reusables[MAX_REUSABLES];
+static std::vector<unsigned int> reusables;
 extern int total_reusables, curr_reusable;
 #endif
 
@@ -516,8 +517,9 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
  * write a new reusable label
  */
 void add_reusable() {
-	reusables[curr_reusable++] = program_counter;
-	total_reusables = curr_reusable;
+	reusables.resize(curr_reusable);
+	reusables.push_back(program_counter);
+	total_reusables = ++curr_reusable;
 }
 
 
@@ -539,7 +541,7 @@ int set_curr_reusable(int index) {
  * Search reusables
  */
 unsigned int search_reusables(int index) {
-	if (index == -1 || index >= total_reusables) {
+	if (index < 0 || index >= total_reusables) {
 		show_error("Referenced undefined reusable label");
 		return 0;
 	} else {
-- 
2.43.0


From 6f4f87657b1ae81116fa8dec501bec1ccd538b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 034/123] fix: emit all of a string that has a \0 in it, and
 report what follows its closing quote

---
 directive.cpp | 31 ++++++++++++++++++++++++-------
 utils.cpp     | 14 +++++++++-----
 utils.h       |  2 +-
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 311204c..3ed0156 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -564,6 +564,20 @@ static bool is_list_macro (const char *word)
 	return is_list;
 }
 
+/*
+ * Checks if an argument that starts with a quote
+ * is a string and nothing else
+ */
+
+static bool is_whole_string (const char *word)
+{
+	for (word++; *word != '\0' && *word != '"'; word++)
+		if (*word == '\\' && word[1] != '\0')
+			word++;
+
+	return *word == '"' && word[1] == '\0';
+}
+
 /*
  * Parses a list of values and strings,
  * either prints them to the output,
@@ -586,23 +600,26 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 		// handle strings
 		if (word[0] == '"')
 		{
-			char *next = next_expr (word, EXPR_DELIMS);
-			if (*next != '\0') 
-				goto echo_error;
+			int length;
+
+			if (!is_whole_string (word)) {
+				SetLastSPASMError(SPASM_ERR_SYNTAX);
+				continue;
+			}
 			
-			reduce_string (word);
+			reduce_string (word, &length);
 			if (type == ES_ECHO)
 			{
 				if (echo_target != NULL)
 				{
-					fprintf ((FILE *) echo_target, "%s", word);
+					fwrite (word, 1, length, (FILE *) echo_target);
 				}
 			}
 			else if (type == ES_FCREATE) {
-				eb_append((expand_buf_t *) echo_target, word, strlen(word));
+				eb_append((expand_buf_t *) echo_target, word, length);
 			} else {
 				int i;
-				for (i = 0; word[i]; i++) {
+				for (i = 0; i < length; i++) {
 					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
 						write_out (word[i]);
 	                stats_datasize++;
diff --git a/utils.cpp b/utils.cpp
index 2ea34a8..51379e9 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -561,13 +561,13 @@ char *escape_string(const char *input)
  * and reduces control characters
  */
 
-char* reduce_string (char* input) {
+char* reduce_string (char* input, int *length) {
 	char *output = input;
 
 	int quote_count = 0;
 	for (int i = 0; input[i] != '\0'; i++, output++)
 	{
-		if (input[i] == '\\')
+		if (input[i] == '\\' && input[i + 1] != '\0')
 		{
 			int value;
 			char pbuf[8] = "'\\ '";
@@ -591,13 +591,17 @@ char* reduce_string (char* input) {
 	// Count the quotes
 	if (quote_count >= 2)
 	{
-		if (input[0] == '"' && input[strlen(input) - 1] == '"')
+		if (input[0] == '"' && output[-1] == '"')
 		{
-			input[strlen(input) - 1] = '\0';
-			memmove(input, input + 1, strlen(input));
+			// there may be a \0 in the string
+			*--output = '\0';
+			memmove(input, input + 1, output-- - input);
 		}
 	}
 	
+	if (length != NULL)
+		*length = output - input;
+
 	return input;
 }
 
diff --git a/utils.h b/utils.h
index 88268e2..8fd00e2 100644
--- a/utils.h
+++ b/utils.h
@@ -31,7 +31,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **arg_local_labels);
 char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg_set);
 bool line_has_word (char *ptr, const char *word, int word_len);
 char *escape_string(const char *input);
-char *reduce_string (char* input);
+char *reduce_string(char* input, int *length = NULL);
 char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
-- 
2.43.0


From 7d59f52a9089d001507c50d3252cc85577ca3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 035/123] fix: count the lines of a string that spans several

---
 directive.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 3ed0156..dac240a 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -50,6 +50,7 @@ char *handle_directive (const char *ptr) {
 		return handle_opcode_or_macro ((char *) ptr - 1);
 
 	ptr = skip_whitespace(&ptr[name_len]);
+	const char *args_start = ptr;
 
 	switch (dir) {
 		case 0: //DB
@@ -488,6 +489,11 @@ addinstr_fail:
 		}
 	}
 
+	// a string may span several lines
+	for (; args_start < ptr; args_start++)
+		if (*args_start == '\n')
+			line_num++;
+
 	return (char *) ptr;
 }
 
-- 
2.43.0


From ea95bb85a5460d513028d0dc06c676f028f18633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 036/123] fix: add defines from the command line after all
 options are known

---
 main.cpp | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/main.cpp b/main.cpp
index 4a5daff..80596a6 100644
--- a/main.cpp
+++ b/main.cpp
@@ -262,7 +262,7 @@ int main (int argc, char **argv)
 {
 	int curr_arg = 1;
 	bool case_sensitive = false;
-	bool is_storage_initialized = false;
+	list_t *cmd_defines = NULL;
 
 	use_colors = true;
 	extern WORD user_attributes;
@@ -344,15 +344,7 @@ int main (int argc, char **argv)
 			//handle adding defines
 			case 'D':
 			{
-				char name[256];
 				char *ptr;
-				define_t *define;
-
-				if (!is_storage_initialized)
-				{
-					init_storage();
-					is_storage_initialized = true;
-				}
 
 				if (strlen (argv[curr_arg]) > 2) {
 					ptr = &argv[curr_arg][2];
@@ -365,13 +357,8 @@ int main (int argc, char **argv)
 					ptr = argv[++curr_arg];
 				}
 
-				read_expr (&ptr, name, "=");
-
-				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
-					define->contents = strdup (ptr);
-				else
-					set_define (define, "1", 1, false);
+				//added later, since the name depends on -A
+				cmd_defines = list_append (cmd_defines, ptr);
 				break;
 			}
 			case 'V':
@@ -445,11 +432,32 @@ int main (int argc, char **argv)
 		output_filename = change_extension (curr_input_file, "bin");
 	}
 
-	if (!is_storage_initialized)
-	{
-		init_storage();
-		is_storage_initialized = true;
+	init_storage();
+
+	char *input_file = curr_input_file;
+	curr_input_file = (char *) "Commandline";
+	for (list_t *node = cmd_defines; node != NULL; node = node->next) {
+		char name[256];
+		char *ptr = (char *) node->data;
+
+		read_expr (&ptr, name, "=");
+		if (*ptr == '=')
+			ptr++;
+
+		bool redefined;
+		define_t *define = add_define (strdup (name), &redefined);
+		if (define == NULL) {
+			printf ("Invalid define '%s'\n", (char *) node->data);
+			return EXIT_FATAL_ERROR;
+		}
+		if (*skip_whitespace (ptr) != '\0')
+			set_define (define, ptr, -1, redefined);
+		else
+			set_define (define, "1", 1, false);
 	}
+	list_free (cmd_defines, false, NULL);
+	curr_input_file = input_file;
+
 	//cleared, since .seek can leave bytes that nothing gets written to
 	output_contents = (unsigned char *) calloc(output_buf_size, 1);
 	ClearSPASMErrorSessions();
-- 
2.43.0


From 9de269f3e6ad60edf7fbf268b22e508074620f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 037/123] fix: end the name of a command or directive at a
 comment or backslash

---
 directive.cpp | 2 +-
 preop.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index dac240a..d9e4717 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -26,7 +26,7 @@ char *handle_directive (const char *ptr) {
 	//same deal as handle_preop, just with directives instead
 	bool valid_directive = false;
 	unsigned name_len = 0;
-	while (ptr[name_len] != 0 && !isspace(ptr[name_len])) {
+	while (!isspace((unsigned char) ptr[name_len]) && !is_end_of_code_line(&ptr[name_len])) {
 		name_len++;
 	}
 
diff --git a/preop.cpp b/preop.cpp
index 2a0c1a0..a049992 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -39,7 +39,7 @@ char *handle_preop (char *ptr) {
 
 	//first get the name
 	name_end = ptr;
-	while (*name_end != 0 && !isspace(*name_end))
+	while (!isspace((unsigned char) *name_end) && !is_end_of_code_line(name_end))
 		name_end++;
 	name = strndup (ptr, name_end - ptr);
 
-- 
2.43.0


From 2ba8be4674e13158766d5756cc7ade131a1b3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 038/123] fix: accept files of less than three bytes

---
 utils.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 51379e9..f503ea2 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -726,11 +726,7 @@ char *get_file_contents (const char *filename) {
 	const unsigned char utf8_endian_mark[] = {0xEF, 0xBB, 0xBF};
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
-		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
-		matched &= (unsigned char)c == utf8_endian_mark[i];
+		matched &= fgetc(file) == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-- 
2.43.0


From e9be4926bf8be2727b5d9d7d7055a038ba296079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 039/123] fix: assemble what follows an .addinstr on the same
 line

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index d9e4717..7658d05 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -230,7 +230,7 @@ char *handle_directive (const char *ptr) {
 			}
 
 			// You can ignore class, etc
-			ptr = skip_to_line_end (ptr);
+			ptr = (char *) skip_to_code_line_end (ptr);
 			break;
 addinstr_fail:
 			SetLastSPASMError(SPASM_ERR_INVALID_ADDINSTR);
-- 
2.43.0


From 3adb172faba40b8055e7e8995a98e1d42ecc9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:39 +0000
Subject: [PATCH 040/123] fix: look for included files beside a main file with
 a relative name

---
 main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/main.cpp b/main.cpp
index 80596a6..55f63bd 100644
--- a/main.cpp
+++ b/main.cpp
@@ -114,6 +114,16 @@ int run_assembly()
 	//add the the input file's path to the include directories
 	include_dirs = list_prepend (include_dirs, strdup (temp_path));
 
+	//which isn't always the current directory, and files beside it come first
+	if (!is_abs_path(curr_input_file)) {
+		char *dir_end = curr_input_file + strlen(curr_input_file);
+
+		while (dir_end > curr_input_file && dir_end[-1] != '\\' && dir_end[-1] != '/')
+			dir_end--;
+		if (dir_end > curr_input_file)
+			include_dirs = list_prepend (include_dirs, strndup (curr_input_file, dir_end - curr_input_file));
+	}
+
 	printf ("Pass one... \n");
 
 	int first_pass_session = StartSPASMErrorSession();
-- 
2.43.0


From e9287a10edfa911e92c544c8c465cd04d51d5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 041/123] fix: name the file that an #import can't find

---
 preop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index a049992..a60c135 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -599,10 +599,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
-- 
2.43.0


From 8ea354284d0e08cea4e903b850c7dd34332d1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 042/123] fix: don't take source text that starts with BM for a
 bitmap

---
 bitmap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..8f69952 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -145,9 +145,10 @@ bool IsFileBitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
+	size_t size = fread (&bf, 1, sizeof (BITMAPFILEHEADER), file);
 
-	if (LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M')
+	//source text can start with the same two letters, but there are no zeros in it
+	if (size > sizeof (bf.bfType) && LOBYTE(_W(bf.bfType)) == 'B' && HIBYTE(_W(bf.bfType)) == 'M' && memchr(&bf, 0, size) != NULL)
 	{
 		return true;
 	}
-- 
2.43.0


From f55cd61b5e7f3e2fd80f0a8a225c7405001e3fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 043/123] fix: don't take a directory for an included file

---
 preop.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index a60c135..2242b04 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -2,6 +2,10 @@
 
 #include <vector>
 
+#ifndef WIN32
+#include <sys/stat.h>
+#endif
+
 #include "preop.h"
 #include "spasm.h"
 #include "utils.h"
@@ -406,14 +410,20 @@ char *handle_preop_define (const char *ptr) {
  * return NULL if there's no matching path
  */
 
-char *full_path (const char *filename) {
-	list_t *dir;
-	char *full_path;
+static bool is_readable_file (const char *path) {
 #ifdef WIN32
-	if (is_abs_path(filename) && (GetFileAttributes(filename) != 0xFFFFFFFF))
+	DWORD attributes = GetFileAttributes(path);
+	return attributes != 0xFFFFFFFF && !(attributes & FILE_ATTRIBUTE_DIRECTORY);
 #else
-	if (is_abs_path(filename) && (access (filename, R_OK) == 0))
+	struct stat info;
+	return access (path, R_OK) == 0 && stat (path, &info) == 0 && !S_ISDIR(info.st_mode);
 #endif
+}
+
+char *full_path (const char *filename) {
+	list_t *dir;
+	char *full_path;
+	if (is_abs_path(filename) && is_readable_file (filename))
 		return strdup (filename);
 	
 	dir = include_dirs;
@@ -429,17 +439,9 @@ char *full_path (const char *filename) {
 		fix_filename (full_path);
 		eb_free (eb);
 		dir = dir->next;
-#ifdef WIN32
-	} while (GetFileAttributes(full_path) == 0xFFFFFFFF && dir);
-#else
-	} while (access (full_path, R_OK) && dir);
-#endif
+	} while (!is_readable_file (full_path) && dir);
 
-#ifdef WIN32
-	if (GetFileAttributes(full_path) != 0xFFFFFFFF)
-#else
-	if (access (full_path, R_OK) == 0)
-#endif
+	if (is_readable_file (full_path))
 		return full_path;
 	
 	free (full_path);
-- 
2.43.0


From 1f6a2960bb6526b9d72f8658b3e6181eb3b7ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 044/123] fix: allow a semicolon in the name of an included
 file

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 2242b04..d087fdb 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -474,7 +474,7 @@ static char *handle_preop_include (char *ptr)
 	// Without this, a line such as ' #include "ti84pce.inc ' (missing last quote) would crash spasm (SIGABRT)
 	// Bug revealed by afl-fuzz
 	for (i=0; name[i]; i++) {
-		if (name[i] != '\\' && is_end_of_code_line(name+i)) {
+		if (name[i] == '\n' || name[i] == '\r') {
 			show_error("#INCLUDE argument malformed. Did you miss a '\"'?");
 			return ptr;
 		}
-- 
2.43.0


From 44bf8fc6e473d98dfa943bb08fd8df117e9a2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:56 +0000
Subject: [PATCH 045/123] fix: write the file header of TI-85 programs and
 strings as the format requires

---
 export.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..b3a9fb4 100644
--- a/export.cpp
+++ b/export.cpp
@@ -523,8 +523,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (pnt[2],outfile);
 	fputc (fileheader[i++],outfile);
 	fputc (fileheader[i++],outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From 3ef3a52aa35ec47468077301454ea48146e4619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:58 +0000
Subject: [PATCH 046/123] fix: write correct length fields into .85S and .86S
 files

---
 export.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index b3a9fb4..ef7583a 100644
--- a/export.cpp
+++ b/export.cpp
@@ -539,14 +539,14 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		temp = size + 8 + strlen (namestring);
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		chksum = fputc((6+strlen(namestring)),outfile);
 	} else {
 		chksum = fputc(pnt[3],outfile);
-- 
2.43.0


From 761b323c7499c6150a32dd70fedbc29b59331e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 047/123] fix: cut the name of a TI-85 or TI-86 variable before
 its length is written

---
 export.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/export.cpp b/export.cpp
index ef7583a..192115a 100644
--- a/export.cpp
+++ b/export.cpp
@@ -493,6 +493,8 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 		/* The name must be capital letters and numbers */
 		if (calc < TYPE_85P) {
 			alphanumeric (namestring, calc == TYPE_8XV);
+		} else if (strlen (namestring) > 8) {
+			namestring[8] = '\0';
 		}
 	}
 	/* get size */
-- 
2.43.0


From f9689060c9150df20134ee46d6c305beb57e2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 048/123] fix: leave the directory out of the name of a TI-82
 program, and the root directory out of any

---
 export.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/export.cpp b/export.cpp
index 192115a..2eb38d8 100644
--- a/export.cpp
+++ b/export.cpp
@@ -469,25 +469,17 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
+	// Find basename(prgmname)
+	const char *baseName = prgmname + strlen(prgmname);
+	while (baseName > prgmname && baseName[-1] != '/' && baseName[-1] != '\\') {
+		baseName -= 1;
+	}
+
 	if (calc==TYPE_82P) {
 		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
+		snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
 		namestring = strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
 		// Use the base filename (no directory, if given) as the program name.
 		namestring = strdup(baseName);
 		/* The name must be capital letters and numbers */
-- 
2.43.0


From d9dea28a4edbc9e6564ffc1b79e0c1690e807e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:48 +0000
Subject: [PATCH 049/123] fix: warn about every program that is too large for
 the length fields of its file

---
 export.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/export.cpp b/export.cpp
index 2eb38d8..4595024 100644
--- a/export.cpp
+++ b/export.cpp
@@ -500,12 +500,8 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 		size += 2;
 	}
 	/* size must be smaller than z80 mem */
-	if (size > 24575) {
-		if (size > 65535) {
-			SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_64KB);
-		} else if (!(mode & MODE_EZ80)) {
-			SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_24KB);
-		}
+	if (size > 24575 && size <= 65535 && !(mode & MODE_EZ80)) {
+		SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_24KB);
 	}
 	
 	/* Lots of pointless header crap */
@@ -538,6 +534,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	} else {
 		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
+	if (temp > 65535) {
+		SetLastSPASMWarning(SPASM_WARN_SIGNER_FILE_SIZE_64KB);
+	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
-- 
2.43.0


From 0ef2d4d8e602a8d602c53f7c480b368c2170a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 050/123] fix: the checksum of a HEX page record covers both
 bytes of the page number

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 4595024..1140a4b 100644
--- a/export.cpp
+++ b/export.cpp
@@ -666,7 +666,7 @@ void intelhex (FILE* outfile, const unsigned char* buffer, int size, unsigned in
 	//We are in binary mode, we must handle carriage return ourselves.
    
 	while (bpnt < size){
-		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page)) +1));
+		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + (page >> 8) + (page & 0xFF))) +1));
 		page++;
 		address = base_address;
 		for (i = 0; bpnt < size && i < 512; i++) {
-- 
2.43.0


From ae4a44ab54362f253e9d0d996e08754fef6d22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 051/123] fix: a dot in a directory name is not the start of
 the output extension

---
 export.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/export.cpp b/export.cpp
index 1140a4b..014b314 100644
--- a/export.cpp
+++ b/export.cpp
@@ -117,7 +117,9 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 
 	//get the type from the extension of the output filename
-	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
+	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--) {
+		if (output_filename[i] == '/' || output_filename[i] == '\\') i = 1;	//no extension in the file name
+	}
 	if (i != 0) {
 		const char *ext = output_filename + i + 1;
 
@@ -159,7 +161,9 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 	char prgmname[MAX_PATH];
 	strcpy(prgmname, output_filename);
 	
-	for (i = strlen (prgmname); prgmname[i] != '.' && i; i--);
+	for (i = strlen (prgmname); prgmname[i] != '.' && i; i--) {
+		if (prgmname[i] == '/' || prgmname[i] == '\\') i = 1;
+	}
 	if (i != 0)
 		prgmname[i] = '\0';
 
-- 
2.43.0


From 6b6864398ee4c874cd2c4f977974aa1602e1f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:21 +0000
Subject: [PATCH 052/123] fix: a one-page application needs room for its
 signature too

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 014b314..8f7bb72 100644
--- a/export.cpp
+++ b/export.cpp
@@ -226,7 +226,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 
 /* Check if size will fit in mem with signature */
 	if ((tempnum = ((size+96)%16384))) {
-		if (tempnum < 97 && size > 16384)
+		if (tempnum < 97 && size + 96 > 16384)
 		{
 			free(buffer);
 			SetLastSPASMError(SPASM_ERR_SIGNER_ROOM_FOR_SIG);
-- 
2.43.0


From ca0bc20b114198eb987794fb32754c6c7f2429f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:23 +0000
Subject: [PATCH 053/123] fix: a header field cut off by the end of the
 application is missing

---
 export.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.cpp b/export.cpp
index 8f7bb72..bfb236c 100644
--- a/export.cpp
+++ b/export.cpp
@@ -260,7 +260,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 	}
 /* Pages Field: Corrects page num*/
 	pnt = findfield(0x81, buffer);
-	if (!pnt) {
+	if (!pnt || pnt >= (int) size) {
 		free(buffer);
 		SetLastSPASMError(SPASM_ERR_SIGNER_MISSING_PAGES);
 		return;
@@ -270,7 +270,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 	if (size & 0x3FFF) pages++;
 	buffer[pnt] = pages;
 /* Name Field: Can be a variable number of characters, no checking if valid */
-	if (findfield_flex(0x40, buffer, &pnt, &field_sz)) {
+	if (findfield_flex(0x40, buffer, &pnt, &field_sz) || pnt + field_sz > (int) size) {
 		free(buffer);
 		SetLastSPASMError(SPASM_ERR_SIGNER_MISSING_NAME);
 		return;
-- 
2.43.0


From a2cba7a7abc00ffc8cd596194a039a1fa37162b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 054/123] fix: a macro call does not break up the listing of
 its line

---
 pass_one.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index a1c511a..b7bad35 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -502,18 +502,6 @@ char *handle_opcode_or_macro (char *ptr) {
 							line_num++;
 						}
 
-						if ((mode & MODE_LIST) && listing_on && last_banner != old_filename) {
-							if (mode & MODE_LIST && listing_on && !listing_for_line_done)
-								do_listing_for_line (skip_to_next_line (line_start) );
-
-							listing_for_line_done = true;
-
-							char include_banner[MAX_PATH + 64];
-							snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, old_filename);
-							listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-							last_banner = old_filename;
-						}
-
 						curr_input_file = (char *) old_filename;
 						line_num = old_line_num;
 
-- 
2.43.0


From 8b682ce78c3acd3cbafd052b6d1e439191df2c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 055/123] fix: list the bytes a macro emits after an included
 file on rows of their own

---
 pass_one.cpp | 30 +++++++++++++++++++++++++-----
 pass_one.h   |  2 ++
 preop.cpp    |  4 ++--
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index b7bad35..82e6712 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -51,12 +51,15 @@ int write_out (int val) {
 		if (pass_one && listing_width >= 4) {
 			listing_width = 0;
 			listing_offset = eb_insert (listing_buf, listing_offset, NEWLINE "              ", -1);
+		} else if (pass_one && listing_for_line_done && listing_width == 0) {
+			//the line itself was listed before an included file, so start a row for the rest
+			listing_offset = eb_insert (listing_buf, listing_offset, "              ", -1);
 		} else if (!pass_one) {
 			/* If it's on the second pass, a word might
 			   span two lines, so check if we need to skip
 			   to the beginning of the next line */
 			char buf_char = eb_get_char (listing_buf, listing_offset);
-			if (buf_char == '\n' || buf_char == '\r') {
+			if (isspace ((unsigned char) buf_char)) {
 				while (isspace ((unsigned char) eb_get_char (listing_buf, listing_offset)))
 					listing_offset++;
 			}
@@ -115,6 +118,24 @@ void do_listing_for_line (char *ptr) {
 }
 
 
+/*
+ * Finishes what's listed for the current line so far:
+ * either the line itself, or the row of bytes that
+ * came after an included file
+ */
+
+void finish_listing_for_line (char *ptr) {
+	if (!(mode & MODE_LIST) || !listing_on)
+		return;
+
+	if (!listing_for_line_done)
+		do_listing_for_line (ptr);
+	else if (listing_width > 0)
+		listing_offset = eb_insert (listing_buf, listing_offset, NEWLINE, -1);
+	listing_width = 0;
+}
+
+
 /*
  * Goes through the first
  * pass on an mmapped file
@@ -148,8 +169,7 @@ void run_first_pass (char *ptr) {
 			ptr = skip_to_next_line (ptr);
 	
 			//do listing stuff for this line
-			if (mode & MODE_LIST && listing_on && !listing_for_line_done)
-				do_listing_for_line (ptr);
+			finish_listing_for_line (ptr);
 	
 			line_num++;
 		} else {
@@ -379,8 +399,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 				//make sure the listing for this line is finished up BEFORE
 				// the new file is parsed and writes its listing stuff all over
-				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
-					do_listing_for_line (skip_to_next_line (line_start));
+				finish_listing_for_line (skip_to_next_line (line_start));
 
 				if (mode & MODE_LIST && listing_on && last_banner != built_in_fcreate) {
 					char include_banner[128] = "Listing for built-in fcreate" NEWLINE;
@@ -408,6 +427,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 				if (mode & MODE_LIST && listing_on && !listing_for_line_done)
 					listing_for_line_done = true;
+				listing_width = 0;
 
 				if (mode & MODE_LIST && listing_on && last_banner != curr_input_file) {
 					char include_banner[MAX_PATH + 64];
diff --git a/pass_one.h b/pass_one.h
index a54cf62..112f4da 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -11,7 +11,9 @@ char *run_first_pass_line (char *ptr);
 int write_out (int);
 char *handle_opcode_or_macro (char *ptr);
 void do_listing_for_line (char *ptr);
+void finish_listing_for_line (char *ptr);
 
 extern bool adl_mode;
+extern int listing_width;
 
 #endif
diff --git a/preop.cpp b/preop.cpp
index d087fdb..e0cd19f 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -525,8 +525,7 @@ static char *handle_preop_include (char *ptr)
 
 		//make sure the listing for this line is finished up BEFORE
 		// the new file is parsed and writes its listing stuff all over
-		if (mode & MODE_LIST && listing_on && !listing_for_line_done)
-			do_listing_for_line (skip_to_next_line (line_start));
+		finish_listing_for_line (skip_to_next_line (line_start));
 
 		if (mode & MODE_LIST && listing_on) {
 			char include_banner[MAX_PATH + 64];
@@ -554,6 +553,7 @@ static char *handle_preop_include (char *ptr)
 
 		if (mode & MODE_LIST && listing_on && !listing_for_line_done)
 			listing_for_line_done = true;
+		listing_width = 0;
 
 		if (mode & MODE_LIST && listing_on) {
 			char include_banner[MAX_PATH + 64];
-- 
2.43.0


From 96e5e2d0093cc64f457e4c7e795deb466da8eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:47 +0000
Subject: [PATCH 056/123] fix: .nolist and .list beside code on the same line
 keep the listing intact

---
 directive.cpp | 17 ++++++++++-------
 main.cpp      |  1 +
 pass_one.cpp  |  7 +++++++
 pass_one.h    |  2 ++
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 7658d05..ae8c2bd 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -347,21 +347,24 @@ addinstr_fail:
 		{
 			//if listing was off already, then the listing
 			// for the start of this line wouldn't have been
-			// written, so make sure the end doesn't get
-			// written either
+			// written, so it's only on from the next line
 			if (!listing_on)
-				listing_for_line_done = true;
-			listing_on = true;
+				listing_on_next_line = true;
 			break;
 		}
 		case 12: //NOLIST
 		{
 			//if listing is on, then it would've written
 			// the starting stuff for this line already,
-			// so take that out
-			if ((mode & MODE_LIST) && listing_on)
-				listing_offset -= 14;
+			// so take that out, unless there's more of it
+			if ((mode & MODE_LIST) && listing_on) {
+				if (!listing_for_line_done && listing_width == 0)
+					listing_offset = listing_line_offset;
+				else
+					finish_listing_for_line (skip_to_next_line (line_start));
+			}
 			listing_on = false;
+			listing_on_next_line = false;
 			break;
 		}
 		case 13: //EQU
diff --git a/main.cpp b/main.cpp
index 55f63bd..c3974cd 100644
--- a/main.cpp
+++ b/main.cpp
@@ -53,6 +53,7 @@ int run_assembly()
 	error_occurred = false;
 	listing_offset = 0;
 	listing_for_line_done = false;
+	listing_on_next_line = false;
 	line_start = NULL;
 	old_line_num = 0;
 	in_macro = 0;
diff --git a/pass_one.cpp b/pass_one.cpp
index 82e6712..bc8d977 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -28,6 +28,8 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 
 bool adl_mode;
 int listing_width;
+int listing_line_offset;
+bool listing_on_next_line;
 const char *last_banner = NULL;
 const char *built_in_fcreate = "Built-in fcreate";
 
@@ -153,6 +155,11 @@ void run_first_pass (char *ptr) {
 			line_start = ptr;
 			old_line_num = line_num;
 			listing_for_line_done = false;
+			if (listing_on_next_line) {
+				listing_on = true;
+				listing_on_next_line = false;
+			}
+			listing_line_offset = listing_offset;
 
 			if (listing_on) {
 				char text[32];
diff --git a/pass_one.h b/pass_one.h
index 112f4da..34cbee8 100644
--- a/pass_one.h
+++ b/pass_one.h
@@ -15,5 +15,7 @@ void finish_listing_for_line (char *ptr);
 
 extern bool adl_mode;
 extern int listing_width;
+extern int listing_line_offset;
+extern bool listing_on_next_line;
 
 #endif
-- 
2.43.0


From b37b43862e5ad0f52d4104e6ee68d91b871d4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 057/123] fix: a dot in a directory name does not start the
 extension to replace

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index f503ea2..a5df9c5 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -774,7 +774,7 @@ char *change_extension (const char *filename, const char *ext) {
 	strcpy(new_fn, filename);
 	
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From cf4bc992dae0a19238a65f752db43c9765247071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:34 +0000
Subject: [PATCH 058/123] fix: execution times of adc a,l, bit n,(ix+d) and the
 undocumented Z80 instructions

---
 opcodes.cpp | 246 ++++++++++++++++++++++++++--------------------------
 1 file changed, 123 insertions(+), 123 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 4fc4c55..764a94f 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -372,7 +372,7 @@ static instr adc_instrs[] = {
 	{"A,D", {0x8A}, 1, 4, 4, false, 0x00, 1},
 	{"A,E", {0x8B}, 1, 4, 4, false, 0x00, 1},
 	{"A,H", {0x8C}, 1, 4, 4, false, 0x00, 1},
-	{"A,L", {0x8D}, 1, 7, 7, false, 0x00, 1},
+	{"A,L", {0x8D}, 1, 4, 4, false, 0x00, 1},
 	{"A,(HL)", {0x8E}, 1, 7, 7, false, 0x00, 1},
 	{"A,A", {0x8F}, 1, 4, 4, false, 0x00, 1},
 	{"A,&", {0xCE}, 1, 7, 7, false, 0x00, 2},
@@ -443,8 +443,8 @@ static instr and_instrs[] = {
 	{"&", {0xE6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr bit_instrs[] = {
-	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x46, 4},
-	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x46, 4},
+	{"^,(IX@)", {0xCB, 0xDD}, 2, 20, 20, true, 0x46, 4},
+	{"^,(IY@)", {0xCB, 0xFD}, 2, 20, 20, true, 0x46, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0x40, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0x41, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0x42, 2},
@@ -690,22 +690,22 @@ static instr scf_instrs[] = {
 	{"", {0x37}, 1, 4, 4, false, 0x00, 1}};
 
 static instr set_instrs[] = {
-	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC0, 4},
-	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC0, 4},
-	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC1, 4},
-	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC1, 4},
-	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC2, 4},
-	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC2, 4},
-	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC3, 4},
-	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC3, 4},
-	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC4, 4},
-	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC4, 4},
-	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC5, 4},
-	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC5, 4},
+	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC0, 4},
+	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC0, 4},
+	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC1, 4},
+	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC1, 4},
+	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC2, 4},
+	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC2, 4},
+	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC3, 4},
+	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC3, 4},
+	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC4, 4},
+	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC4, 4},
+	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC5, 4},
+	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC5, 4},
 	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC6, 4},
 	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC6, 4},
-	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC7, 4},
-	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC7, 4},
+	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC7, 4},
+	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC7, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0xC0, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0xC1, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0xC2, 2},
@@ -716,48 +716,48 @@ static instr set_instrs[] = {
 	{"^,A", {0xCB}, 1, 8, 8, true, 0xC7, 2}};
 
 static instr sl1_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sla_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x20, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x20, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x21, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x21, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x22, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x22, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x23, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x23, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x24, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x24, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x25, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x25, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x20, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x20, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x21, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x21, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x22, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x22, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x23, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x23, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x24, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x24, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x25, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x25, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x26, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x26, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x27, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x27, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x27, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x27, 4},
 	{"B", {0x20, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x21, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x22, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -768,48 +768,48 @@ static instr sla_instrs[] = {
 	{"A", {0x27, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sll_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sra_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x28, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x28, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x29, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x29, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x28, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x28, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x29, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x29, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2F, 4},
 	{"B", {0x28, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x29, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x2A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -820,22 +820,22 @@ static instr sra_instrs[] = {
 	{"A", {0x2F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr srl_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x38, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x38, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x39, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x39, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x38, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x38, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x39, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x39, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3F, 4},
 	{"B", {0x38, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x39, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x3A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -846,10 +846,10 @@ static instr srl_instrs[] = {
 	{"A", {0x3F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sub_instrs[] = {
-	{ "A,IXH", { 0x94, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0x94, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0x95, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0x95, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0x94, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0x94, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0x95, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0x95, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0x96, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0x96, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,B", { 0x90 }, 1, 4, 4, false, 0x00, 1 },
@@ -861,10 +861,10 @@ static instr sub_instrs[] = {
 	{ "A,(HL)", { 0x96 }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,A", { 0x97 }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,&", { 0xD6 }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0x94, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0x94, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0x95, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0x95, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0x94, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0x94, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0x95, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0x95, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0x96, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0x96, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"B", {0x90}, 1, 4, 4, false, 0x00, 1},
@@ -878,10 +878,10 @@ static instr sub_instrs[] = {
 	{"&", {0xD6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr xor_instrs[] = {
-	{ "A,IXH", { 0xAC, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0xAC, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0xAD, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0xAD, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0xAC, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0xAC, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0xAD, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0xAD, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0xAE, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0xAE, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,A", { 0xAF }, 1, 4, 4, false, 0x00, 1 },
@@ -893,10 +893,10 @@ static instr xor_instrs[] = {
 	{ "A,L", { 0xAD }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,(HL)", { 0xAE }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,&", { 0xEE }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0xAC, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0xAC, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0xAD, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0xAD, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0xAC, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0xAC, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0xAD, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0xAD, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0xAE, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0xAE, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"A", {0xAF}, 1, 4, 4, false, 0x00, 1},
-- 
2.43.0


From 011a7915ec83fe167dac13c3457ec875f23a24f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:36 +0000
Subject: [PATCH 059/123] fix: count the bytes of imported files and bitmaps as
 data

---
 preop.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index e0cd19f..0ac0444 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -503,7 +503,9 @@ static char *handle_preop_include (char *ptr)
 	
 	if (IsFileBitmap(file))
 	{
+		unsigned int start = program_counter;
 		handle_bitmap(file);
+		stats_datasize += program_counter - start;
 		fclose (file);
 		free (file_path);
 	}
@@ -616,6 +618,7 @@ char *handle_preop_import (char *ptr) {
 	{
 		write_out (c);
 		program_counter++;
+		stats_datasize++;
 	}
 
 	fclose (import_file);
-- 
2.43.0


From 513781f1941154e5c4ed3fe01e5d8ad9d94842e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:38 +0000
Subject: [PATCH 060/123] fix: the code counter mode assembles labels and
 equates like the normal mode

---
 storage.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 758a8a9..dc21dee 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -566,11 +566,6 @@ label_t *add_label (char *name, int value) {
 	label_t *new_label;
 	define_t *conflict_define;
 
-	if (mode & MODE_CODE_COUNTER) {
-		free(name);
-		return NULL;
-	}
-
 	if (!case_sensitive) {
 		char *new_name = strup (name);
 		free (name);
-- 
2.43.0


From 8092c0e2b41a816c46772e24feefbcda1d5b494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 061/123] fix: the eZ80 execution time of adc a,l

---
 opcodes_ez80.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opcodes_ez80.cpp b/opcodes_ez80.cpp
index ac17aa6..ea47781 100644
--- a/opcodes_ez80.cpp
+++ b/opcodes_ez80.cpp
@@ -388,7 +388,7 @@ static instr adc_instrs[] = {
 		{ "A,D", { 0x8A }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,E", { 0x8B }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,H", { 0x8C }, 1, 1, 1, false, 0x00, 1, 0 },
-		{ "A,L", { 0x8D }, 1, 7, 7, false, 0x00, 1, 0 },
+		{ "A,L", { 0x8D }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,(HL)", { 0x8E }, 1, 2, 2, false, 0x00, 1, 0 },
 		{ "A,A", { 0x8F }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,&", { 0xCE }, 1, 2, 2, false, 0x00, 2, 0 },
-- 
2.43.0


From 84daed56f006ad0237df41936304856ed49d0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:51 +0000
Subject: [PATCH 062/123] fix: a failed export leaves no output file

---
 errors.h   | 1 +
 export.cpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/errors.h b/errors.h
index 3ba6ebb..b9f24fa 100644
--- a/errors.h
+++ b/errors.h
@@ -152,6 +152,7 @@ SPASMERROR g_ErrorCodes[]
 void SetLastSPASMError(DWORD dwErrorCode, ...);
 void SetLastSPASMWarning(DWORD dwErrorCode, ...);
 //DWORD GetLastSPASMError();
+extern int g_nErrorSession;
 int StartSPASMErrorSession(void);
 int GetSPASMErrorSessionErrorCount(int nSession);
 bool IsSPASMErrorSessionFatal(int nSession);
diff --git a/export.cpp b/export.cpp
index bfb236c..7bd3ec2 100644
--- a/export.cpp
+++ b/export.cpp
@@ -198,6 +198,10 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 	}
 
 	fclose (outfile);
+	//the file is of no use if it couldn't be converted
+	if (IsSPASMErrorSessionFatal(g_nErrorSession))
+		remove (output_filename);
+
 	free(curr_input_file);
 	curr_input_file = NULL;
 }
-- 
2.43.0


From 9b7d03175f783acf7b425f600401683414532742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 063/123] fix: exit with the status of the errors in code
 counter mode

---
 errors.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index 3eba116..f14f913 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -30,12 +30,15 @@ int g_nErrorSession = 0;
 
 static void PrintSPASMError(const LPERRORINSTANCE lpError)
 {
+	assert(lpError != NULL);
+	EXIT_STATUS severity = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+	if (exit_code < severity) exit_code = severity;
+
 	if (mode & MODE_CODE_COUNTER)
 	{
 		return;
 	}
 
-	assert(lpError != NULL);
 	if ((lpError->dwErrorCode != SPASM_ERR_SUCCESS) || (lpError->lpszErrorText != NULL))
 	{
 		WORD orig_attributes = save_console_attributes();
@@ -45,9 +48,6 @@ static void PrintSPASMError(const LPERRORINSTANCE lpError)
 			printf("%s\n", lpError->lpszAnnotation);
 		}
 
-		EXIT_STATUS severity = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
-		if (exit_code < severity) exit_code = severity;
-
 		printf("%s\n", lpError->lpszErrorText);
 #ifdef WINVER
 		OutputDebugString(lpError->lpszErrorText);
-- 
2.43.0


From a80088097aaae2fcb1819163191bea36873e9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 064/123] fix: resolve forward references in .echo at the end

---
 directive.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index ae8c2bd..0f0b1bd 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -293,21 +293,10 @@ addinstr_fail:
 				int session = StartSPASMErrorSession();
 				parse_emit_string (expr, ES_ECHO, NULL);
 
-				if (IsSPASMErrorSessionFatal(session) == true)
+				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
 					add_pass_two_output (expr, OUTPUT_ECHO);
 				}
-				else if (GetSPASMErrorSessionErrorCount(session) > 0)
-				{
-					WORD orig_attributes = save_console_attributes();
-					set_console_attributes(COLOR_GREEN);
-					int internal_session = StartSPASMErrorSession();
-					parse_emit_string (expr, ES_ECHO, stdout);
-					restore_console_attributes(orig_attributes);
-					EndSPASMErrorSession(internal_session);
-
-					ReplaySPASMErrorSession(session);
-				}
 				else
 				{
 					expand_buf_t *echo = eb_init(256);
-- 
2.43.0


From b1889dbc4b0fa3309c44078c467b426f807f11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 065/123] fix: report values not known yet in a redirected
 .echo

---
 directive.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 0f0b1bd..beece53 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -688,6 +688,9 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				switch (type) 
 				{
 				case ES_ECHO:
+					//a file is written right away
+					if (echo_target != NULL && echo_target != stdout)
+						SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, word);
 					break;
 				case ES_BYTE: 
 					{
-- 
2.43.0


From 8f261aac55c10d6628e969dee0d0bc0f7b4e9671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 066/123] fix: the quoted name of a redirected .echo may follow
 the > directly

---
 directive.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index beece53..4b4bd3d 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -250,10 +250,17 @@ addinstr_fail:
 				char temp_filename[MAX_PATH];
 				define_t *define;
 
-				if ((++ptr)[0] == '>')
+				if ((++ptr)[0] == '>') {
 					target_format[0] = 'a';
+					ptr++;
+				}
+
+				else if (!isspace ((unsigned char) *ptr) && *ptr != '"') {
+					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
+					return NULL;
+				}
 
-				ptr = skip_whitespace (ptr + 1);
+				ptr = skip_whitespace (ptr);
 				if (is_end_of_code_line (ptr)) {
 					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
 					return NULL;
-- 
2.43.0


From 48c12d54bf51981e7e21bb59bf83cbfd3962782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:22 +0000
Subject: [PATCH 067/123] fix: count the lines of strings in macro arguments

---
 pass_one.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index bc8d977..18e6abc 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -552,6 +552,11 @@ char *handle_opcode_or_macro (char *ptr) {
 		}
 	}
 
+	// a string in the arguments may span several lines
+	for (; name_start < ptr; name_start++)
+		if (*name_start == '\n')
+			line_num++;
+
 	return ptr;
 }
 
-- 
2.43.0


From 5cd706de6305130e47e1f61d4a8169b26ba20fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:25 +0000
Subject: [PATCH 068/123] fix: an #if inside a comment block is just text

---
 preop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 0ac0444..e12fde3 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -789,13 +789,18 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 
 	int line_num_copy = line_num;
 
+	// a comment is just text
+	va_start(argp, argc);
+	bool fNesting = strcasecmp(va_arg(argp, char *), "#endcomment") != 0;
+	va_end(argp);
+
 	while (*ptr && !error_occurred) {
 		char *line = ptr;
 		char *line_end = skip_to_next_line(ptr);
 		
 		do {
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (line_has_word (line, "#IF", 3)) {
+			if (fNesting && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From 6d6dd87288b118503b5b01a6b5b04cf272348539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:27 +0000
Subject: [PATCH 069/123] fix: a redefined macro is where it was redefined

---
 storage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index dc21dee..e810a13 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -303,8 +303,9 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 		int curr_arg;
 
 		free (name);
-		//define->line_num = line_num;
-		//define->input_file = curr_input_file;
+		define->line_num = line_num;
+		free (define->input_file);
+		define->input_file = strdup (curr_input_file);
 		/* Don't clear the contents of the #define, because
 		   if it's being redefined references to itself may
 		   need to be expanded, which will require the original
-- 
2.43.0


From a6f94f22b67316673fed6fadab2a74468d16db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:43 +0000
Subject: [PATCH 070/123] fix: a macro may undefine or redefine itself

---
 pass_one.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 18e6abc..94f7134 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -293,6 +293,23 @@ char *run_first_pass_line_sec (char *ptr) {
 }
 
 
+/*
+ * Returns a copy of a file name that stays
+ * valid when the macro it belongs to is gone,
+ * for whatever has to name the file later
+ */
+
+static char *keep_file_name(const char *name)
+{
+	for (list_t *file = input_files; file != NULL; file = file->next)
+		if (strcmp((char *) file->data, name) == 0)
+			return (char *) file->data;
+
+	char *copy = strdup(name);
+	input_files = list_prepend(input_files, copy);
+	return copy;
+}
+
 static define_t *search_defines_helper(const char *name_start, size_t len)
 {
 	char *name = strndup(name_start, len);
@@ -462,6 +479,7 @@ char *handle_opcode_or_macro (char *ptr) {
 		{
 			list_t *args = NULL;
 			char *args_end;
+			char *define_name = strdup(define->name);	//the macro might #UNDEF itself
 
 			//if there are arguments, parse them
 			int session = StartSPASMErrorSession();
@@ -519,7 +537,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 						const char *old_filename = curr_input_file;
 						int old_line_num = line_num;
-						curr_input_file = define->input_file;
+						curr_input_file = keep_file_name(define->input_file);
 						line_num = define->line_num;
 	
 						while (curr_line != NULL && *curr_line && !error_occurred)
@@ -541,7 +559,8 @@ char *handle_opcode_or_macro (char *ptr) {
 			//clear the argument values
 			remove_arg_set(args);
 
-			AddSPASMErrorSessionAnnotation(session, "Error during invocation of macro '%s'", define->name);
+			AddSPASMErrorSessionAnnotation(session, "Error during invocation of macro '%s'", define_name);
+			free(define_name);
 			ReplayFatalSPASMErrorSession(session);
 			EndSPASMErrorSession(session);
 
-- 
2.43.0


From b1f98e7861a9809e802be2a387e9c342d7a357e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:45 +0000
Subject: [PATCH 071/123] fix: a list macro in data doesn't move the line
 number

---
 directive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 4b4bd3d..7db72fe 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -755,7 +755,9 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					if (!name_end)
 						return (char *) ptr;
 					
+					int old_line_num = line_num;
 					expr = parse_define (define);
+					line_num = old_line_num;
 					if (expr != NULL)
 					{
 						arg_context_t nested_context = ARG_CONTEXT_INITIALIZER;
-- 
2.43.0


From ea5dfde0eac088dcc3f4752370b61554f5176ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 072/123] fix: name the line of a #macro without #endmacro

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index e12fde3..67f7ecf 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -225,7 +225,6 @@ char *handle_preop (char *ptr) {
 				ptr = name_end;
 
 			ptr = skip_to_next_line(ptr);
-			line_num++;
 
 			macro->line_num++;
 			
@@ -233,6 +232,7 @@ char *handle_preop (char *ptr) {
 			//now find the end of the macro (at the end of the file or an #endmacro directive)
 			//ptr = skip_to_next_line (ptr);
 			macro_end = skip_until (ptr, &line_num, 1, "#endmacro");
+			line_num++;
 
 			//...and copy everything up to the end into the contents
 			set_define (macro, ptr, macro_end - ptr, false);
-- 
2.43.0


From a6f1382d0f52e407694667231d61951807f04db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:11 +0000
Subject: [PATCH 073/123] fix: name the file and line of an error inside a
 macro

---
 parser.cpp   | 5 ++++-
 pass_one.cpp | 2 +-
 preop.cpp    | 2 +-
 storage.cpp  | 6 +++---
 storage.h    | 1 +
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 17d7efd..25152a1 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -417,7 +417,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						bool fHasError = false;
 						int old_line_num = line_num;
-						line_num = define->line_num;
+						char *old_input_file = curr_input_file;
+						line_num = define->contents_line;
+						curr_input_file = define->input_file;
 
 						int session = StartSPASMErrorSession();
 						contents = parse_define (define);
@@ -432,6 +434,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						}
 
 						line_num = old_line_num;
+						curr_input_file = old_input_file;
 
 						if (GetSPASMErrorSessionErrorCount(session) > 0)
 						{
diff --git a/pass_one.cpp b/pass_one.cpp
index 94f7134..a7a29c9 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -538,7 +538,7 @@ char *handle_opcode_or_macro (char *ptr) {
 						const char *old_filename = curr_input_file;
 						int old_line_num = line_num;
 						curr_input_file = keep_file_name(define->input_file);
-						line_num = define->line_num;
+						line_num = define->contents_line;
 	
 						while (curr_line != NULL && *curr_line && !error_occurred)
 						{
diff --git a/preop.cpp b/preop.cpp
index 67f7ecf..452ecbf 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -226,7 +226,7 @@ char *handle_preop (char *ptr) {
 
 			ptr = skip_to_next_line(ptr);
 
-			macro->line_num++;
+			macro->contents_line++;
 			
 			fInMacro = true;
 			//now find the end of the macro (at the end of the file or an #endmacro directive)
diff --git a/storage.cpp b/storage.cpp
index e810a13..47b96cd 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -303,7 +303,7 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 		int curr_arg;
 
 		free (name);
-		define->line_num = line_num;
+		define->line_num = define->contents_line = line_num;
 		free (define->input_file);
 		define->input_file = strdup (curr_input_file);
 		/* Don't clear the contents of the #define, because
@@ -333,7 +333,7 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 		int curr_arg;
 
 		define->name = name;
-		define->line_num = line_num;
+		define->line_num = define->contents_line = line_num;
 		define->input_file = strdup(curr_input_file);
 		define->contents = NULL;
 		define->num_args = 0;
@@ -648,7 +648,7 @@ void add_arg(char *name, char *value, list_t *arg_set) {
 	new_arg->name = name;
 	new_arg->contents = value;
 	new_arg->num_args = 0;
-	new_arg->line_num = line_num;
+	new_arg->line_num = new_arg->contents_line = line_num;
 	new_arg->input_file = strdup(curr_input_file);
 
 	hash_insert((hash_t *) arg_set->data, new_arg);
diff --git a/storage.h b/storage.h
index 65ba09c..e69d2fa 100644
--- a/storage.h
+++ b/storage.h
@@ -17,6 +17,7 @@ typedef struct define {
 	char *name;
 	int line_num;
 	char *input_file;
+	int contents_line;	//where the contents start
 	char *contents;
 	int num_args;
 	char *args[MAX_ARGS];
-- 
2.43.0


From 305c4969328122f88a9884bcb141069608632d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 074/123] fix: directives in a comment block don't count while
 skipping

---
 preop.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 452ecbf..f311593 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -793,14 +793,20 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 	va_start(argp, argc);
 	bool fNesting = strcasecmp(va_arg(argp, char *), "#endcomment") != 0;
 	va_end(argp);
+	bool fComment = false;
 
 	while (*ptr && !error_occurred) {
 		char *line = ptr;
 		char *line_end = skip_to_next_line(ptr);
 		
 		do {
+			// The text of a comment block doesn't count
+			if (fComment) {
+				fComment = !line_has_word (line, "#ENDCOMMENT", 11);
+			} else if (fNesting && line_has_word (line, "#COMMENT", 8)) {
+				fComment = true;
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (fNesting && line_has_word (line, "#IF", 3)) {
+			} else if (fNesting && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From 4b2d094117554c20a0e07740b34c9576f396a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 075/123] fix: a redirected .echo that cannot be stored is
 reported

---
 directive.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 7db72fe..b6d4d32 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -292,6 +292,10 @@ addinstr_fail:
 				set_console_attributes (COLOR_GREEN);
 				ptr = parse_emit_string (ptr, ES_ECHO, echo_target);
 				restore_console_attributes(orig_attributes);
+
+				bool write_failed = ferror (echo_target) != 0;
+				if (fclose (echo_target) != 0 || write_failed)
+					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 			} else {
 				char expr[256];
 				read_expr (&ptr, expr, "");
@@ -835,12 +839,6 @@ echo_error:
 
 	if (type == ES_ECHO && level == 1) {
 		if (echo_target == stdout) putchar ('\n');
-		else {
-			if (echo_target != NULL)
-			{
-				fclose ((FILE *) echo_target);
-			}
-		}
 	}
 	
 	level--;
-- 
2.43.0


From c37d7824bf82a5f1334e37ed00e93da6bca257cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:30 +0000
Subject: [PATCH 076/123] fix: a program that cannot be stored completely is
 reported

---
 export.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index 7bd3ec2..61ee6ae 100644
--- a/export.cpp
+++ b/export.cpp
@@ -4,6 +4,7 @@
 /* Modified for use in SPASM by Don Straney */
 
 #include "stdafx.h"
+#include <sys/stat.h>
 
 #include "spasm.h"
 #include "utils.h"
@@ -197,9 +198,14 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 		break;
 	}
 
-	fclose (outfile);
-	//the file is of no use if it couldn't be converted
-	if (IsSPASMErrorSessionFatal(g_nErrorSession))
+	bool write_failed = ferror (outfile) != 0;
+	if (fclose (outfile) != 0 || write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, output_filename);
+
+	//the file is of no use if it couldn't be converted or stored (but leave devices alone)
+	struct stat file_info;
+	if (IsSPASMErrorSessionFatal(g_nErrorSession) && stat (output_filename, &file_info) == 0
+			&& (file_info.st_mode & S_IFMT) == S_IFREG)
 		remove (output_filename);
 
 	free(curr_input_file);
-- 
2.43.0


From d44a5dee6b649b4436d000c80d4c04f7cde7ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 077/123] fix: a symbol table that cannot be stored completely
 is reported

---
 storage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage.cpp b/storage.cpp
index 47b96cd..a58b3b5 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -77,7 +77,9 @@ void write_labels (char *filename) {
 		node = node->next;
 	}
 
-	fclose (symtable);
+	bool write_failed = ferror (symtable) != 0;
+	if (fclose (symtable) != 0 || write_failed)
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 	
 	list_free (label_list.next, true, NULL);
 	free(hdr_node.name);
-- 
2.43.0


From 1c87ea16511ae95396b6ec3d792557eddf3bdbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 078/123] fix: a listing that cannot be stored completely is
 reported

---
 main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main.cpp b/main.cpp
index c3974cd..64389a1 100644
--- a/main.cpp
+++ b/main.cpp
@@ -185,7 +185,7 @@ int run_assembly()
 			name = change_extension (output_filename, "lst");
 			file = fopen (name, "wb");
 			if (!file) {
-				printf ("Couldn't open listing file '%s'", name);
+				printf ("Couldn't open listing file '%s'\n", name);
 				free (name);
 				return EXIT_FATAL_ERROR;
 			}
@@ -197,7 +197,10 @@ int run_assembly()
 				return EXIT_FATAL_ERROR;
 			}
 
-			fclose (file);
+			if (fclose (file) != 0) {
+				puts ("Error writing to listing file");
+				return EXIT_FATAL_ERROR;
+			}
 			eb_free(listing_buf);
 			listing_buf = NULL;
 		}
-- 
2.43.0


From 09862b771858e6fa1b233af9339b767e47e37819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 079/123] fix: getc() reads the byte at the given offset

---
 parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.cpp b/parser.cpp
index 25152a1..49300b9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -389,6 +389,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 							strncpy (filename, define->contents, sizeof (filename));
 						}
 
+						if (*expr == ',') expr++;
 						read_expr (&expr, parse_buf, ",");
 						char_index = parse_f (parse_buf);
 
-- 
2.43.0


From 924c8366982ce8cefd79a8edd4bd591ce44b89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 080/123] fix: an input file whose size or contents cannot be
 read is reported

---
 utils.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index a5df9c5..b809e1b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -709,6 +709,7 @@ char *get_file_contents (const char *filename) {
 	FILE *file;
 	char *buffer;
 	size_t size, read_size;
+	long length = -1;
 
 	// first try to open it
 	file = fopen (filename, "rb");
@@ -717,10 +718,13 @@ char *get_file_contents (const char *filename) {
 		return NULL;
 
 	// find file size (Spencer says it's not a hack)
-	fseek (file, 0, SEEK_END);
-	size = ftell (file);
-	rewind (file);
-
+	if (fseek (file, 0, SEEK_END) == 0)
+		length = ftell (file);
+	if (length < 0 || fseek (file, 0, SEEK_SET) != 0) {
+		fclose (file);
+		return NULL;
+	}
+	size = length;
 
 	// If there is a UTF-8 endian marker at the beginning of the file, skip it.
 	const unsigned char utf8_endian_mark[] = {0xEF, 0xBB, 0xBF};
@@ -730,12 +734,17 @@ char *get_file_contents (const char *filename) {
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-	} else {
-		rewind(file);
+	} else if (ferror (file) || fseek (file, 0, SEEK_SET) != 0) {
+		fclose (file);
+		return NULL;
 	}
 
 	// now allocate the memory and read in the contents
 	buffer = (char *) malloc (size + 1);
+	if (!buffer) {
+		fclose (file);
+		return NULL;
+	}
 	read_size = fread (buffer, 1, size, file);
 	fclose (file);
 
-- 
2.43.0


From 15780ea29235830ed5cd5b9e6c75cb85e785afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:25 +0000
Subject: [PATCH 081/123] fix: a file that cannot be read is not imported in
 part

---
 preop.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index f311593..cf19343 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -621,6 +621,9 @@ char *handle_preop_import (char *ptr) {
 		stats_datasize++;
 	}
 
+	if (ferror (import_file))
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, qs);
+
 	fclose (import_file);
 	return ptr;
 }
-- 
2.43.0


From d371b3f81537515c28cd2b89c008fb78d9dcb70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:27 +0000
Subject: [PATCH 082/123] fix: getc() reports a file it cannot read

---
 parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 49300b9..fe4e92c 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -395,8 +395,12 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						rfn = fix_filename (reduce_string (filename));
 						if ((temp_file = fopen (rfn, "r"))) {
-							fseek (temp_file, char_index, SEEK_SET);
-							*value = fgetc (temp_file);
+							if (fseek (temp_file, char_index, SEEK_SET) == 0)
+								*value = fgetc (temp_file);
+							else
+								*value = EOF;
+							if (ferror (temp_file))
+								SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 							fclose (temp_file);
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
-- 
2.43.0


From 99d62e560e0b3ecc55d687ee758ec3037b581980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:18 +0000
Subject: [PATCH 083/123] fix: a malformed or unsupported bitmap is reported as
 an error

---
 bitmap.cpp | 48 ++++++++++++++++++++++++++++++++++++++----------
 parser.cpp | 11 +++++------
 preop.cpp  | 10 +++++++++-
 3 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 8f69952..0eab2af 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -176,7 +176,11 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 #define BITS_ACCESS(zr, zc) pBits[((zr) * biScanWidth) + (zc)]
 	//BYTE (*pBits)[biScanWidth] = malloc(biScanWidth * (r->bottom - r->top));
 	BYTE *pBits = (BYTE *) malloc(biScanWidth * (r->bottom - r->top));
-	fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file);
+	if (pBits == NULL || fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file) != 1) {
+		show_error ("Couldn't read the rows of the bitmap");
+		free (pBits);
+		return;
+	}
 
 	// Create the mask buffer
 	const DWORD biOutputRowSize = ((max(r->right - r->left, min_w) + 7) / 8) * 8;
@@ -351,12 +355,28 @@ void handle_bitmap(FILE *file)
 	fseek(file, 0, SEEK_SET);
 
 	BITMAPFILEHEADER bf;
-	fread (&bf, sizeof (BITMAPFILEHEADER), 1, file);
-
-	fread (&bi, sizeof (BITMAPINFOHEADER), 1, file);
+	if (fread (&bf, sizeof (BITMAPFILEHEADER), 1, file) != 1
+			|| fread (&bi, sizeof (BITMAPINFOHEADER), 1, file) != 1) {
+		show_error ("Bitmap file is truncated");
+		return;
+	}
 
 	if (_DW(bi.biSize) != sizeof (BITMAPINFOHEADER) || _DW(bi.biCompression) != BI_RGB) {
-		show_error ("Bitmap file of this type not supported: size: %ld, compression: %ld\n", _DW(bi.biSize), _DW(bi.biCompression));
+		show_error ("Bitmap file of this type not supported: size: %ld, compression: %ld\n", (long) _DW(bi.biSize), (long) _DW(bi.biCompression));
+		return;
+	}
+
+	switch (_W(bi.biBitCount)) {
+	case 1: case 4: case 8: case 16: case 24: case 32:
+		break;
+	default:
+		show_error ("Bitmap file of this type not supported: %d bits per pixel", _W(bi.biBitCount));
+		return;
+	}
+
+	// Top-down bitmaps have a negative height
+	if (_ZL(bi.biWidth) <= 0 || _ZL(bi.biHeight) <= 0) {
+		show_error ("Bitmap file of this size not supported: %ldx%ld", (long) _ZL(bi.biWidth), (long) _ZL(bi.biHeight));
 		return;
 	}
 
@@ -365,13 +385,21 @@ void handle_bitmap(FILE *file)
 		// as given by biBitCount
 		nColors = (_DW(bi.biClrUsed == 0)) ? 1 << _W(bi.biBitCount) : _DW(bi.biClrUsed);
 	}
+	if (nColors > 256) {
+		show_error ("Bitmap file of this type not supported: %lu colors", (unsigned long) nColors);
+		return;
+	}
 
 	// Read in the palette
-	bmiColors = (LPRGBQUAD) calloc(nColors, sizeof(RGBQUAD));
-	fread(bmiColors, sizeof(RGBQUAD), nColors, file);
-
-	if (ftell (file) != _DW(bf.bfOffBits)) {
-		printf("invalid file structure!\n");
+	bmiColors = (LPRGBQUAD) calloc(256, sizeof(RGBQUAD));
+
+	// All of the rows have to be there too
+	if (fread(bmiColors, sizeof(RGBQUAD), nColors, file) != nColors
+			|| ftell (file) != _DW(bf.bfOffBits)
+			|| fseek (file, 0, SEEK_END) != 0
+			|| ((long long) _ZL(bi.biWidth) * _W(bi.biBitCount) + 31) / 32 * 4 * _ZL(bi.biHeight) > ftell (file) - (long) _DW(bf.bfOffBits)) {
+		show_error ("Bitmap file is truncated or has an invalid structure");
+		free (bmiColors);
 		return;
 	}
 
diff --git a/parser.cpp b/parser.cpp
index fe4e92c..e6f177e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -391,15 +391,14 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						if (*expr == ',') expr++;
 						read_expr (&expr, parse_buf, ",");
-						char_index = parse_f (parse_buf);
+						if (!parse_num (parse_buf, &char_index))
+							return NULL;
 
 						rfn = fix_filename (reduce_string (filename));
 						if ((temp_file = fopen (rfn, "r"))) {
-							if (fseek (temp_file, char_index, SEEK_SET) == 0)
-								*value = fgetc (temp_file);
-							else
-								*value = EOF;
-							if (ferror (temp_file))
+							bool found = fseek (temp_file, char_index, SEEK_SET) == 0;
+							*value = found ? fgetc (temp_file) : EOF;
+							if (!found || ferror (temp_file))
 								SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
 							fclose (temp_file);
 						} else {
diff --git a/preop.cpp b/preop.cpp
index cf19343..a07f485 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -501,7 +501,15 @@ static char *handle_preop_include (char *ptr)
 		return ptr;
 	}
 	
-	if (IsFileBitmap(file))
+	bool is_bitmap = IsFileBitmap(file);
+	if (!is_bitmap && ferror (file)) {
+		SetLastSPASMError(SPASM_ERR_NO_ACCESS, name);
+		fclose (file);
+		free (file_path);
+		return ptr;
+	}
+
+	if (is_bitmap)
 	{
 		unsigned int start = program_counter;
 		handle_bitmap(file);
-- 
2.43.0


From 8311acdf5276f74768a37ffde8bb7049915374a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 084/123] fix: bitmap rows that cannot be reached are reported

---
 bitmap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0eab2af..e63f432 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -169,14 +169,14 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 //		printf("Scan width calculation incorrect! (image size: %ld, scan: %ld)\n", biImageSize, biScanWidth);
 //		return;
 //	}
-	fseek(file, bf->bfOffBits + (biScanWidth * r->top), SEEK_SET);
+	bool found = fseek(file, bf->bfOffBits + (biScanWidth * r->top), SEEK_SET) == 0;
 	int min_w = parse_f("__BM_MIN_W");
 	
 	// Read in the image
 #define BITS_ACCESS(zr, zc) pBits[((zr) * biScanWidth) + (zc)]
 	//BYTE (*pBits)[biScanWidth] = malloc(biScanWidth * (r->bottom - r->top));
 	BYTE *pBits = (BYTE *) malloc(biScanWidth * (r->bottom - r->top));
-	if (pBits == NULL || fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file) != 1) {
+	if (!found || pBits == NULL || fread ((BYTE *) pBits, biScanWidth * (r->bottom - r->top), 1, file) != 1) {
 		show_error ("Couldn't read the rows of the bitmap");
 		free (pBits);
 		return;
-- 
2.43.0


From 83832030a34b0fcdf743fd1b1682f6ed1bd1f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 085/123] fix: endless nesting of macros, included files and
 run() is reported

---
 pass_one.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index a7a29c9..0f631d6 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -19,6 +19,8 @@
 static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 #endif
 
+#define NESTING_LIMIT 512
+
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
@@ -194,6 +196,16 @@ void run_first_pass (char *ptr) {
  */
 
 char *run_first_pass_line (char *ptr) {
+	//lines inside macros, included files and run() are nested
+	static int nesting = 0;
+
+	if (nesting >= NESTING_LIMIT) {
+		if (!error_occurred)
+			show_fatal_error ("Macros or files are nested more than %d levels deep", NESTING_LIMIT);
+		return ptr;
+	}
+
+	nesting++;
 	do {
 		if (*ptr == '\\')
 			ptr++;
@@ -203,12 +215,13 @@ char *run_first_pass_line (char *ptr) {
 		//parse what's on the line
 		ptr = run_first_pass_line_sec (ptr);
 		if (ptr == NULL)
-			return NULL;
+			break;
 		ptr = skip_whitespace (ptr);
 
 		//when that's done, skip any whitespace and see if more is stuck on the end with a backslash -
 		// if so, keep looping until this line's done
 	} while (!error_occurred && *ptr == '\\');
+	nesting--;
 
 	return ptr;
 }
-- 
2.43.0


From f8200b6fcfdf722a353f29a21a6a7fa7cdfeb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:30 +0000
Subject: [PATCH 086/123] fix: buf() reports a buffer that doesn't exist

---
 pass_one.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 0f631d6..f7b2b41 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -400,12 +400,13 @@ char *handle_opcode_or_macro (char *ptr) {
 			int value;
 			ptr++;
 			read_expr(&ptr, buf, _T(")"));
-			if (parse_num(buf, &value)) {
-				cur_buf = value;
-			} else {
-				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
+			if (parse_num_now(buf, &value)) {
+				if (value >= 0 && value < MAX_BUFFERS)
+					cur_buf = value;
+				else
+					show_error("There is no buffer %d, only 0 to %d", value, MAX_BUFFERS - 1);
 			}
-			ptr++;
+			if (*ptr == ')') ptr++;
 		} else if (name_len == 3 && !strncasecmp (name_start, "clr", name_len) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
-- 
2.43.0


From f428aba975399063ca206a3988befa478f8c7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:32 +0000
Subject: [PATCH 087/123] fix: a missing parenthesis after clr, wr or run
 doesn't skip the next line

---
 pass_one.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index f7b2b41..ea8311d 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -414,7 +414,9 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
-			ptr += 2;
+			ptr++;
+			read_expr(&ptr, NULL, ")");
+			if (*ptr == ')') ptr++;
 		} else if (name_len == 2 && !strncasecmp (name_start, "wr", name_len) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
@@ -423,7 +425,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
-			ptr++;
+			if (*ptr == ')') ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
 		} else if (name_len == 3 && !strncasecmp (name_start, "run", name_len) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
@@ -485,7 +487,9 @@ char *handle_opcode_or_macro (char *ptr) {
 				ReplaySPASMErrorSession(session);
 				EndSPASMErrorSession(session);
 			}
-			ptr += 2;
+			ptr++;
+			read_expr(&ptr, NULL, ")");
+			if (*ptr == ')') ptr++;
 		} else
 #endif
 
-- 
2.43.0


From b51bf96732b30f679f43889d16cd9e8584c34069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 088/123] fix: run() empties the buffer it runs, whatever its
 code does

---
 pass_one.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index ea8311d..d77f18e 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -435,7 +435,10 @@ char *handle_opcode_or_macro (char *ptr) {
 			}
 			else
 			{
+				//the code in it may use the buffers too
 				char *fcreate_string = eb_extract(eb_fcreate);
+				eb_free(eb_fcreate);
+				fcreate_bufs[cur_buf] = NULL;
 
 				//make sure the listing for this line is finished up BEFORE
 				// the new file is parsed and writes its listing stuff all over
@@ -477,8 +480,6 @@ char *handle_opcode_or_macro (char *ptr) {
 				}
 
 				free(fcreate_string);
-				eb_free(fcreate_bufs[cur_buf]);
-				fcreate_bufs[cur_buf] = NULL;
 
 				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
-- 
2.43.0


From 61a15681762167a3f01215ea665fc3ad2b5f547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 089/123] fix: a function-like define that uses itself in an
 expression is reported

---
 parser.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index e6f177e..67c8d51 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4,6 +4,7 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
+#define MACRO_LIMIT 128
 
 #include "spasm.h"
 #include "parser.h"
@@ -426,15 +427,27 @@ static const char *parse_single_num (const char *expr, int *value) {
 						curr_input_file = define->input_file;
 
 						int session = StartSPASMErrorSession();
-						contents = parse_define (define);
-						if (contents == NULL)
+						//macros used in the values of macros, conditions in them and their arguments
+						static int nesting = 0;
+						if (nesting >= MACRO_LIMIT)
 						{
-							SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, define->name);
+							SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+							contents = NULL;
 						}
 						else
 						{
-							parse_num_full(contents, value, 0);
-							free(contents);
+							nesting++;
+							contents = parse_define (define);
+							if (contents == NULL)
+							{
+								SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, define->name);
+							}
+							else
+							{
+								parse_num_full(contents, value, 0);
+								free(contents);
+							}
+							nesting--;
 						}
 
 						line_num = old_line_num;
-- 
2.43.0


From 2451b0a111caae910f7fb33cf1edb7d84d1f6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:24 +0000
Subject: [PATCH 090/123] fix: expanding a define that uses itself more than
 once ends

---
 utils.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index b809e1b..17dc5e5 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -820,7 +820,7 @@ int strnlen (const char *str, int maxlen) {
  * apart from what's around it
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, EXPAND_USE use) {
+static bool expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, EXPAND_USE use) {
 	const char *const expr_start = expr;
 	const char *block_start;
 	char *name;
@@ -831,7 +831,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 
 	if (depth > RECURSION_LIMIT) {
 		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
-		return;
+		return false;
 	}
 
 	while (*expr) {
@@ -892,8 +892,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				expr = parse_args (expr + name_len, define, &args);
 				if (!expr) {
 					free (name);
-					return;
+					return true;
 				}
+				bool expanded = true;
 
 				int old_line_num = line_num;
 				int session = StartSPASMErrorSession();
@@ -922,16 +923,17 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 					//its value where that makes a difference: to the right of an operator
 					bool group = use == EXPAND_NUMBER || (prev >= expr_start && strchr ("=+-*<>|&/%^~", *prev));
 					if (group) eb_append (new_expr, "(", 1);
-					expand_expr_full (value, new_expr, depth + 1, search_local, use);
+					expanded = expand_expr_full (value, new_expr, depth + 1, search_local, use);
 					if (group) eb_append (new_expr, ")", 1);
 					free (value);
 				} else {
-					expand_expr_full (define->contents, new_expr, depth + 1, search_local, use);
+					expanded = expand_expr_full (define->contents, new_expr, depth + 1, search_local, use);
 				}
 				remove_arg_set (args);
-				if (error_occurred) {
+				//one error is enough, a macro may use itself many times at each level
+				if (error_occurred || !expanded) {
 					free(name);
-					return;
+					return expanded;
 				}
 			//if it's a label, write its value, except in the text of a define, which keeps the name
 			} else if (search_local && (label = search_labels (name))) {
@@ -961,6 +963,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		//write those
 		eb_append (new_expr, block_start, expr - block_start);
 	}
+	return true;
 }
 
 
-- 
2.43.0


From 465e0257e3e60d92943424acfbd1c5acadf4edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:50 +0000
Subject: [PATCH 091/123] fix: macros in expressions may be nested up to 256
 levels deep

---
 parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 67c8d51..7b92620 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -4,7 +4,7 @@
 
 //max depth of #defines
 #define RECURSION_LIMIT 20
-#define MACRO_LIMIT 128
+#define MACRO_LIMIT 256
 
 #include "spasm.h"
 #include "parser.h"
-- 
2.43.0


From d549b1c2889b8623c9be2b4287cbc0b369a67092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 092/123] fix: a list macro that uses itself is reported

---
 directive.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index b6d4d32..3ce4554 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -594,6 +594,8 @@ static bool is_whole_string (const char *word)
  * to the program output
  */
 
+#define LIST_LIMIT 32
+
 char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	static int level = 0;
 	char *word = NULL;
@@ -601,10 +603,15 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	bool fWasParsed;
 	char *name_end;
 
+	if (level >= LIST_LIMIT) {
+		if (!error_occurred)
+			show_fatal_error ("Macros in a list are nested more than %d levels deep", LIST_LIMIT);
+		return (char *) ptr;
+	}
 	level++;
 
 	arg_context_t context = ARG_CONTEXT_INITIALIZER;
-	while ((word = extract_arg_string(&ptr, &context)) != NULL)
+	while (!error_occurred && (word = extract_arg_string(&ptr, &context)) != NULL)
 	{
 		// handle strings
 		if (word[0] == '"')
-- 
2.43.0


From edbd09079d591fdf63eda3e0afffc1f685e474a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 093/123] fix: a macro may change its own definition while it's
 evaluated

---
 storage.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index a58b3b5..18fae64 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -180,6 +180,27 @@ static void destroy_define_value (void *data) {
 	free (define);
 }
 
+/*
+ * What a definition consisted of stays in memory
+ * when it changes or is removed, because it may be
+ * in use: by a macro that redefines itself, say
+ */
+
+static list_t *retired_defines = NULL, *retired_text = NULL;
+
+static void retire_define_value (void *data) {
+	//a #DEFCONT can't add to it anymore
+	if (data == last_define)
+		last_define = NULL;
+
+	retired_defines = list_prepend (retired_defines, data);
+}
+
+static void retire_text (char *text) {
+	if (text != NULL)
+		retired_text = list_prepend (retired_text, text);
+}
+
 static void destroy_label_value (void *data) {
 	label_t *label = (label_t *)data;
 	if (label->name)
@@ -198,7 +219,7 @@ void init_storage() {
 	define_t *define;
 	char* test ;
 
-	define_table = hash_init (destroy_define_value);
+	define_table = hash_init (retire_define_value);
 	label_table = hash_init (destroy_label_value);
 
 	add_define (strdup ("SPASM"), NULL)->contents = strdup ("1");
@@ -238,6 +259,11 @@ EXPORT void free_storage() {
 	hash_free(define_table);
 	define_table = NULL;
 
+	list_free(retired_defines, true, destroy_define_value);
+	retired_defines = NULL;
+	list_free(retired_text, true, NULL);
+	retired_text = NULL;
+
 	while (curr_opcode) {
 		next_opcode = curr_opcode->next;
 		if (curr_opcode->is_added) {
@@ -306,7 +332,7 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 
 		free (name);
 		define->line_num = define->contents_line = line_num;
-		free (define->input_file);
+		retire_text (define->input_file);
 		define->input_file = strdup (curr_input_file);
 		/* Don't clear the contents of the #define, because
 		   if it's being redefined references to itself may
@@ -315,7 +341,7 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 
 		for (curr_arg = 0; curr_arg < define->num_args; curr_arg++) {
 			if (define->args[curr_arg] != NULL) {
-				free(define->args[curr_arg]);
+				retire_text (define->args[curr_arg]);
 				define->args[curr_arg] = NULL;
 			}
 		}
@@ -487,8 +513,7 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
 
 	if (!redefined || !define->contents) {
 		//just set the contents
-		if (define->contents)
-			free (define->contents);
+		retire_text (define->contents);
 
 		define->contents = (len == -1 ? strdup (str) : strndup (str, len));
 
@@ -505,8 +530,7 @@ void set_define (define_t *define, const char *str, int len, bool redefined) {
 		result = expand_expr (temp, false);
 		free(temp);
 
-		if (define->contents != NULL)
-			free(define->contents);
+		retire_text (define->contents);
 		define->contents = result;
 
 		hash_free(define_table);
-- 
2.43.0


From db24a55b44a7ce1b4c18889273ef432c5636a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 094/123] fix: a skipped line that starts with a parenthesis
 doesn't hang

---
 utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 17dc5e5..68335a1 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -151,7 +151,7 @@ char *next_expr (const char *ptr, const char *delims) {
 	/* Is there a word left to get? */
 	// Skip whitespace at the start
 	ptr = skip_whitespace (ptr);
-	if (is_end_of_code_line (ptr) || *ptr == ')') 
+	if (is_end_of_code_line (ptr))
 		return (char *) ptr;
 
 	if (strlen(delims) == 1) {
-- 
2.43.0


From 081c8dab98e50ca7f9db06dfda60505ff1cd73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:10 +0000
Subject: [PATCH 095/123] fix: .fill and .block stop when the output is full

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 3ce4554..98257c5 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -132,7 +132,7 @@ char *handle_directive (const char *ptr) {
 			program_counter += size;
 			stats_datasize += size;
 
-			while (size-- > 0)
+			while (size-- > 0 && !error_occurred)
 				write_out (fill_value & 0xFF);
 
 			//listing_on = old_listing_on;
-- 
2.43.0


From fe37524b321269edc0af003d8a1845cd5a44706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:18 +0000
Subject: [PATCH 096/123] fix: 16 and 32-bit bitmaps have the right colors

---
 bitmap.cpp | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index e63f432..046a880 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -227,31 +227,21 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				//pOutput[r->bottom - r->top - 1 - row][col]
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = 0;
 				continue;
-			} else if (_W(bi->biBitCount) < 16 || _DW(bi->biClrUsed) != 0) {
-				BYTE bMask = MASK(_W(bi->biBitCount)) << ((8 - _W(bi->biBitCount)) - (bit % 8));
-				
-				UINT iColor = 0;
-				int i = 0;
-				do {
-					iColor <<= 8;
-					//iColor += (pBits[row][bit / 8] & bMask) >> (8 - _W(bi->biBitCount) - (bit % 8));
-					iColor += (BITS_ACCESS(row, bit / 8) & bMask) >> (8 - _W(bi->biBitCount) - (bit % 8));
-				} while (++i < (_W(bi->biBitCount) / 8));
-
-				rgb = bmiColors[iColor];
-			} else {
-				WORD biCmBitCount = _W(bi->biBitCount) / 3;
-				DWORD dwData = 0;
-				int i;
-				for (i = 0; i < (_W(bi->biBitCount) / 8); i++) {
-					dwData <<= 8;
-					//dwData += pBits[row][(bit / 8) + i];
-					dwData += BITS_ACCESS(row, (bit / 8) + i);
-				}
+			} else if (_W(bi->biBitCount) < 16) {
+				int shift = 8 - _W(bi->biBitCount) - (bit % 8);
 
-				rgb.rgbRed 		= (dwData) & MASK(biCmBitCount); 
-				rgb.rgbGreen 	= (dwData >> biCmBitCount) & MASK(biCmBitCount); 
-				rgb.rgbBlue 	= (dwData >> (2 * biCmBitCount)) & MASK(biCmBitCount); 
+				rgb = bmiColors[(BITS_ACCESS(row, bit / 8) >> shift) & MASK(_W(bi->biBitCount))];
+			} else if (_W(bi->biBitCount) == 16) {
+				// Five bits for each color
+				UINT iColor = BITS_ACCESS(row, bit / 8) + (BITS_ACCESS(row, (bit / 8) + 1) << 8);
+
+				rgb.rgbRed 		= ((iColor >> 10) & MASK(5)) * 255 / MASK(5);
+				rgb.rgbGreen 	= ((iColor >> 5) & MASK(5)) * 255 / MASK(5);
+				rgb.rgbBlue 	= (iColor & MASK(5)) * 255 / MASK(5);
+			} else {
+				rgb.rgbBlue 	= BITS_ACCESS(row, bit / 8);
+				rgb.rgbGreen 	= BITS_ACCESS(row, (bit / 8) + 1);
+				rgb.rgbRed 		= BITS_ACCESS(row, (bit / 8) + 2);
 			}
 
 			double lum = LUMINANCE(rgb.rgbRed, rgb.rgbGreen, rgb.rgbBlue);
-- 
2.43.0


From 7040c0b3bdee741239e663bed6e1c039d2eccfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 097/123] fix: only the colors matter for the mask and inverted
 pixels of a bitmap

---
 bitmap.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 046a880..9de6377 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -158,6 +158,11 @@ bool IsFileBitmap(FILE *file)
 	}
 }
 
+static bool is_same_color(const RGBQUAD *a, const RGBQUAD *b)
+{
+	return a->rgbRed == b->rgbRed && a->rgbGreen == b->rgbGreen && a->rgbBlue == b->rgbBlue;
+}
+
 static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHEADER *bf, const BITMAPINFOHEADER *bi, const LPRGBQUAD bmiColors)
 {
 	//printf("handle_bitmap on: %d %d %d %d\n", r->left, r->top, r->right, r->bottom);
@@ -246,7 +251,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 
 			double lum = LUMINANCE(rgb.rgbRed, rgb.rgbGreen, rgb.rgbBlue);
 			
-			if (HandleInv && (memcmp(&rgb, &rgbInv, sizeof(RGBQUAD)) == 0)) {
+			if (HandleInv && is_same_color(&rgb, &rgbInv)) {
 				//pOutput[r->bottom - r->top - 1 - row][col] = biOutputShades - 1;
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = biOutputShades - 1;
 			} else {
@@ -255,7 +260,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = (BYTE) ((0.99 - lum) * biOutputShades);
 			
 				// Calculate the mask
-				if (memcmp (&rgb, &rgbMask, sizeof (RGBQUAD)) != 0)
+				if (!is_same_color(&rgb, &rgbMask))
 				//	pMask[r->bottom - r->top - 1 - row][col] = 0;
 					MASK_ACCESS(r->bottom - r->top - 1 - row, col) = 0;
 			}
-- 
2.43.0


From 6cccb40cb51e94e28fca113f02fccdf57b657ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:23 +0000
Subject: [PATCH 098/123] fix: the size in a bitmap header is the number of
 bytes that follow

---
 bitmap.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 9de6377..bf31c30 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -69,6 +69,15 @@ typedef struct tagBITMAPINFOHEADER{
 
 
 
+#ifdef _WIN32
+static WORD log2(WORD value)
+{
+	WORD l = 0;
+	while( (value >> l) > 1 ) ++l;
+	return l;
+}
+#endif
+
 static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, const BITMAPINFOHEADER *bi) {
 	// Handle an optional header
 	if (define_with_value("__BM_HDR", 1)) {
@@ -105,10 +114,15 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 			else if (!strcasecmp(p, "b"))
 				write_out(parse_f("__BM_SHD"));
 			else if (!strcasecmp(p, "s") || !strcasecmp(p, "ss")) {
-				int size = ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
-				if (define_with_value ("__BM_SHD", 4)) size *=2;
-				else if (define_with_value ("__BM_SHD", 8)) size *=4;
-				if (define_with_value ("__BM_MASK", 1)) size += ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
+				int width = r->right - r->left, min_w = parse_f("__BM_MIN_W");
+				int row_size = (max(width, min_w) + 7) / 8;
+				//a wider bitmap is cut into strips
+				if (min_w > 0 && width > min_w)
+					row_size = (width + min_w - 1) / min_w * ((min_w + 7) / 8);
+
+				int layers = log2((WORD) parse_f("__BM_SHD"));
+				if (define_with_value ("__BM_MSK", 1)) layers++;
+				int size = row_size * (r->bottom - r->top) * layers;
 
 				if (!strcasecmp(p, "s")) {
 					if (size > 255)
@@ -131,15 +145,6 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 	}
 }
 
-#ifdef _WIN32
-static WORD log2(WORD value)
-{
-	WORD l = 0;
-	while( (value >> l) > 1 ) ++l;
-	return l;
-}
-#endif
-
 bool IsFileBitmap(FILE *file)
 {
 	fseek(file, 0, SEEK_SET);
-- 
2.43.0


From 2abe40773bcadda01cafae83d70dfc44b98890c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:42 +0000
Subject: [PATCH 099/123] fix: bitmap options that can't be satisfied are
 reported

---
 bitmap.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index bf31c30..336f28a 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -262,7 +262,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 			} else {
 				// Calculate the output shade (use 0.99 instead of 1.0 to stick within the range)
 				//pOutput[r->bottom - r->top - 1 - row][col] = (0.99 - lum) * biOutputShades;
-				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = (BYTE) ((0.99 - lum) * biOutputShades);
+				OUTPUT_ACCESS(r->bottom - r->top - 1 - row, col) = lum < 0.99 ? (BYTE) ((0.99 - lum) * biOutputShades) : 0;
 			
 				// Calculate the mask
 				if (!is_same_color(&rgb, &rgbMask))
@@ -403,6 +403,19 @@ void handle_bitmap(FILE *file)
 		return;
 	}
 
+	// Each pixel is a byte while it's converted
+	int shades = parse_f("__BM_SHD");
+	if (shades < 1 || shades > 256 || (shades & (shades - 1)) != 0) {
+		show_error ("The number of shades of a bitmap must be a power of two up to 256");
+		free (bmiColors);
+		return;
+	}
+	if ((long long) min_w * _ZL(bi.biHeight) > (long long) output_buf_size * 8) {
+		show_error ("The bitmap is too large with a minimum width of %d", min_w);
+		free (bmiColors);
+		return;
+	}
+
 	if (last_label != NULL && last_label->value == program_counter) {
 		base_name = (char *) malloc(strlen(last_label->name) + 32);
 		strcpy(base_name, last_label->name);
@@ -456,8 +469,13 @@ void handle_bitmap(FILE *file)
 
 		if (padding == -1) padding = 0;
 
-		if (width == 0 && height == 0) {
-			show_error("At least either of width or height must be given for an image map");
+		if (width <= 0 || height <= 0) {
+			show_error("The width and height must be given for an image map");
+			goto map_done;
+		}
+		if (padding < 0 || padding > max(_ZL(bi.biWidth), _ZL(bi.biHeight))
+				|| _ZL(bi.biWidth) / width <= 2 * padding || _ZL(bi.biHeight) / height <= 2 * padding) {
+			show_error("The bitmap is too small for its image map");
 			goto map_done;
 		}
 
@@ -472,7 +490,7 @@ void handle_bitmap(FILE *file)
 			add_label(strdup(base_name), height);
 		}
 
-		for (left = 0; left < _ZL(bi.biWidth); left += width + 2*padding) {
+		for (left = 0; left < _ZL(bi.biWidth) && !error_occurred; left += width + 2*padding) {
 			for (top = _ZL(bi.biHeight) - height - 2*padding; top >= 0 ; top -= height + 2*padding) {
 				int min_w = parse_f("__BM_MIN_W");
 				if (count == 1) goto map_done;
-- 
2.43.0


From 3ead5d52178dfd8a2478260742cd39af276a8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:22 +0000
Subject: [PATCH 100/123] fix: reading an expression doesn't search the rest of
 the file at each character

---
 utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 68335a1..4d5bbdb 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -155,7 +155,7 @@ char *next_expr (const char *ptr, const char *delims) {
 		return (char *) ptr;
 
 	if (strlen(delims) == 1) {
-		while (*ptr != '\0' && !((strchr (ptr, delims[0]) == ptr || is_end_of_code_line (ptr))
+		while (*ptr != '\0' && !((*ptr == delims[0] || is_end_of_code_line (ptr))
 					&& !in_escape && !in_string && in_quote == 0)) {
 
 			if (!in_escape) {
@@ -182,7 +182,7 @@ char *next_expr (const char *ptr, const char *delims) {
 			ptr++;
 		}
 	} else {
-		while (*ptr != '\0' && !((mystrpbrk (ptr, delims) == ptr || is_end_of_code_line (ptr))
+		while (*ptr != '\0' && !((strchr (delims, *ptr) != NULL || is_end_of_code_line (ptr))
 					&& !in_escape && !in_string && in_quote == 0)) {
 
 			if (!in_escape) {
@@ -432,7 +432,7 @@ bool read_expr_impl(const char ** const ptr, char word[256], const char *delims)
 		return false;
 	}
 
-	while (**ptr != '\0' && !((mystrpbrk (*ptr, delims) == *ptr || is_end_of_code_line (*ptr))
+	while (**ptr != '\0' && !((strchr (delims, **ptr) != NULL || is_end_of_code_line (*ptr))
 				&& !in_escape && !in_string && in_quote == 0 && level == 0)) {
 
 		if (!in_escape) {
-- 
2.43.0


From de7c4e42ea819ecb77126c3ee075e1854671746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 101/123] fix: a bitmap header format in quotes may be given
 with #define

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 336f28a..7ebb8f7 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -86,7 +86,7 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 		if (def_hdr_fmt == NULL)
 			return;
 		
-		hdr = strdup(def_hdr_fmt->contents);
+		hdr = strdup(skip_whitespace(def_hdr_fmt->contents));
 		reduce_string(hdr);
 
 		for (p = strtok(hdr, ",;x "); p; p = strtok(NULL, ",;x ")) {
-- 
2.43.0


From bd18f741a503fb5d15ffac5e0acf3b946ae6e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 102/123] fix: the instruction data of .addinstr may be up to
 eight bytes and has to be valid

---
 directive.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 98257c5..eac8cbc 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -161,15 +161,16 @@ char *handle_directive (const char *ptr) {
 
 			// Instruction data
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
-			conv_hex (word, word + strlen (word), &result);
 			instr->instr_size = strlen (word) / 2;
 
 			// Sanity check: are we within the upper bound?
 			// (If not, fail - otherwise we start overwriting memory)
-			if (instr->instr_size > 8) goto addinstr_fail;
+			if (instr->instr_size > 8 || strlen (word) % 2 != 0) goto addinstr_fail;
 
-			for (j = instr->instr_size - 1; j >= 0; j--)
-				instr->instr_data[instr->instr_size - j - 1] = (result >> (j * 8)) & 0xFF;
+			for (j = 0; j < instr->instr_size; j++) {
+				if (!conv_hex (&word[j * 2], &word[j * 2 + 2], &result)) goto addinstr_fail;
+				instr->instr_data[j] = result;
+			}
 
 			// Size
 			if (!read_expr (&ptr, word, " \t")) goto addinstr_fail;
@@ -184,7 +185,7 @@ char *handle_directive (const char *ptr) {
 			// End data ...
 			if (read_expr (&ptr, word, " \t")) {
 				int output;
-				conv_hex (word, word + strlen (word), &output);
+				if (!conv_hex (word, word + strlen (word), &output) || (output & ~0xFF) != 0) goto addinstr_fail;
 				instr->end_data = (unsigned char) output;
 				instr->has_end_data = true;
 			}
-- 
2.43.0


From a2536a9fb851d16f5a30eb3d245542f6f6a24e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 103/123] fix: .addinstr rejects sizes that don't fit the
 instruction and its operands

---
 directive.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index eac8cbc..4518934 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -144,7 +144,8 @@ char *handle_directive (const char *ptr) {
 			char word[256];
 			int result;
 			char *mnemonic = NULL;
-			size_t i, base = 0, size_left;
+			size_t i;
+			int num_args = 0, num_wildcards = 0, size_left = 0;
 			int j;
 			opcode *last_opcode = NULL, *curr_opcode = all_opcodes, *new_opcode;
 
@@ -190,19 +191,20 @@ char *handle_directive (const char *ptr) {
 				instr->has_end_data = true;
 			}
 
-			size_left = instr->size - instr->instr_size;
-			while ((i = strcspn (&instr->args[base], "*")) + base != strlen (instr->args)) {
-				switch (size_left - instr->has_end_data) {
-					case 2:	((char *) instr->args)[base+i] = '*'; break;
-					case 1: ((char *) instr->args)[base+i] = '&'; break;
-					default:
-						((char *) instr->args)[base+i] = '&'; break;
-						//show_error ("Invalid wildcard type in ADDRINSTR");
-						//goto addinstr_fail;
-						break;
+			// Wildcards share what's left of the size: each is either a word or a byte
+			for (i = 0; instr->args[i] != '\0'; i++) {
+				if (!is_arg (instr->args[i])) continue;
+				if (++num_args > 3) goto addinstr_fail;
+				if (instr->args[i] == '*') num_wildcards++;
+				else if (instr->args[i] != '^') size_left--;
+			}
+			size_left += instr->size - instr->instr_size - instr->has_end_data;
+
+			if (size_left != num_wildcards && size_left != num_wildcards * 2) goto addinstr_fail;
+			if (size_left == num_wildcards) {
+				for (i = 0; instr->args[i] != '\0'; i++) {
+					if (instr->args[i] == '*') ((char *) instr->args)[i] = '&';
 				}
-				size_left -= 2;
-				base += i + 1;
 			}
 
 			new_opcode = (opcode *)  malloc (sizeof (opcode));
-- 
2.43.0


From 16e0baa36cbafacde6db4c4d91b97cc964eadfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 104/123] fix: an instruction may follow the colon of a label
 directly

---
 pass_one.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index d77f18e..8aef30e 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -251,7 +251,8 @@ char *run_first_pass_line_sec (char *ptr) {
 
 		ptr = label_end;
 		
-		if (*ptr == ':') ptr++;
+		bool has_colon = (*ptr == ':');
+		if (has_colon) ptr++;
 		
 #ifdef USE_REUSABLES
 		if (strcmp (name, "_") == 0) {
@@ -265,6 +266,15 @@ char *run_first_pass_line_sec (char *ptr) {
 			last_label = add_label (name, program_counter);
 		}
 
+		//the instruction doesn't need a space after the ':', but an equate or another label can follow too
+		if (has_colon && (isalpha ((unsigned char) *ptr) || *ptr == '_')) {
+			char *next = skip_to_name_end (ptr);
+			char *rest = skip_whitespace (next);
+
+			if (*next != ':' && *rest != '=' && *rest != '.')
+				return handle_opcode_or_macro (ptr);
+		}
+
 		return run_first_pass_line_sec (ptr);
 	} else if (isspace ((unsigned char) *ptr)) {
 		//if it starts with whitespace, skip that
-- 
2.43.0


From db1cb8dd08467c921c0bd39e15169a1704bcff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 105/123] fix: problems inside a list given as a macro are
 reported

---
 directive.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 4518934..416272f 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -783,7 +783,10 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 						if (extract_arg_string(&nested_expr, &nested_context) != NULL)
 						{
 							// if it is, plug it in to the emit string
+							EndSPASMErrorSession(session);
+							session = StartSPASMErrorSession();
 							parse_emit_string(expr, type, echo_target);
+							ReplaySPASMErrorSession(session);
 						}
 						else
 						{
-- 
2.43.0


From 8837d09192988e12ce90eb64a48fd8ac6c2cde5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:45 +0000
Subject: [PATCH 106/123] fix: wr() reports a value that isn't known

---
 directive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 416272f..f9f3005 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -837,7 +837,7 @@ echo_error:
 						}
 					case ES_FCREATE:
 						{
-							SetLastSPASMError(SPASM_ERR_LABEL_NOT_FOUND, word);
+							SetLastSPASMError(SPASM_ERR_VALUE_NOT_KNOWN, word);
 							eb_append((expand_buf_t *) echo_target, "(error)", -1);
 							break;
 						}
-- 
2.43.0


From c2d305e50192feb7432b6b4a1cc71fd1171cc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:47 +0000
Subject: [PATCH 107/123] fix: error messages are not cut off

---
 errors.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/errors.cpp b/errors.cpp
index f14f913..ed28199 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -345,15 +345,28 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 	//lpErr->fSuppressErrors = suppress_errors;
 	lpErr->fIsWarning = fIsWarning;
 	
-	TCHAR szBuffer[256];
-	TCHAR szDescription[128] = _T("An error occurred");
+	size_t nDescription = 128;
+	char *szDescription = (char *) malloc(nDescription);
+	StringCchPrintf(szDescription, nDescription, _T("%s"), _T("An error occurred"));
 
 	for (int i = 0; i < ARRAYSIZE(g_ErrorCodes); i++)
 	{
 		if (g_ErrorCodes[i].dwCode == lpErr->dwErrorCode)
 		{
-			StringCchVPrintf(szDescription, ARRAYSIZE(szDescription),
-				g_ErrorCodes[i].lpszDescription, valist);
+			//make room until all of it fits
+			for (;;)
+			{
+				va_list args;
+				va_copy(args, valist);
+				StringCchVPrintf(szDescription, nDescription,
+					g_ErrorCodes[i].lpszDescription, args);
+				va_end(args);
+
+				if (strlen(szDescription) < nDescription - 1)
+					break;
+				nDescription *= 2;
+				szDescription = (char *) realloc(szDescription, nDescription);
+			}
 			break;
 		}
 	}
@@ -361,18 +374,22 @@ static void SetLastSPASMProblem(DWORD dwErrorCode, bool fIsWarning, va_list vali
 	LPCTSTR lpszProblemType = (fIsWarning) ? _T("warning") : _T("error");
 	LPCTSTR lpszProblemCode = (fIsWarning) ? _T("SW") : _T("SE");
 
+	size_t nBuffer = strlen(lpErr->lpszFileName) + strlen(szDescription) + 64;
+	char *szBuffer = (char *) malloc(nBuffer);
+
 	if (lpErr->line_num != -1)
 	{
-		StringCchPrintf(szBuffer, ARRAYSIZE(szBuffer), _T("%s:%d: %s %s%03X: %s"),
+		StringCchPrintf(szBuffer, nBuffer, _T("%s:%d: %s %s%03X: %s"),
 			lpErr->lpszFileName, lpErr->line_num, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, szDescription);
 	}
 	else
 	{
-		StringCchPrintf(szBuffer, ARRAYSIZE(szBuffer), _T("%s: %s %s%03X: %s"),
+		StringCchPrintf(szBuffer, nBuffer, _T("%s: %s %s%03X: %s"),
 			lpErr->lpszFileName, lpszProblemType, lpszProblemCode, lpErr->dwErrorCode, szDescription);
 	}
 
-	lpErr->lpszErrorText = _strdup(szBuffer);
+	lpErr->lpszErrorText = szBuffer;
+	free(szDescription);
 
 	g_ErrorList = (errorlist_t *) list_prepend((list_t *) g_ErrorList, (LPVOID) lpErr);
 	//if (suppress_errors == false)
-- 
2.43.0


From d281d8245be3c13c7c659452d1cfc1166ee372e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:12 +0000
Subject: [PATCH 108/123] fix: .echo prints its whole text

---
 directive.cpp  |  8 +-------
 expand_buf.cpp |  2 +-
 pass_two.cpp   | 42 ++++++++++++++++++++++++++++++++++++------
 pass_two.h     |  3 +++
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index f9f3005..95a1877 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -321,14 +321,8 @@ addinstr_fail:
 					//there may be warnings
 					ReplaySPASMErrorSession(session);
 
-					char *echo_string = eb_extract(echo);
+					add_pass_two_text ((char *) echo->start, echo->end - echo->start);
 					eb_free(echo);
-
-					char *expanded_string = escape_string(echo_string);
-					free(echo_string);
-
-					add_pass_two_output (expanded_string, OUTPUT_ECHO);
-					free(expanded_string);
 				}
 				EndSPASMErrorSession(session);
 			}
diff --git a/expand_buf.cpp b/expand_buf.cpp
index c8e1836..4cb7b9b 100644
--- a/expand_buf.cpp
+++ b/expand_buf.cpp
@@ -75,7 +75,7 @@ int eb_insert (expand_buf *buf, int offset, const char *text, size_t length) {
 		for (curr_ptr = buf->end - 1; curr_ptr >= ptr; curr_ptr--)
 			*(curr_ptr + length) = *curr_ptr;
 	}
-	strncpy ((char *) ptr, text, length);
+	memcpy (ptr, text, length);
 	buf->end += length;
 
 	return offset + length;
diff --git a/pass_two.cpp b/pass_two.cpp
index 49d8779..b3feed4 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -99,7 +99,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
  * Allocates a copy
  */
 
-void add_pass_two_output (char *expr, output_type type) {
+static output_t *new_pass_two_output (output_type type) {
 	output_t *new_output;
 
 	new_output = (output_t *) malloc (sizeof (output_t));
@@ -110,18 +110,39 @@ void add_pass_two_output (char *expr, output_type type) {
 #endif
 	new_output->type = type;
 	new_output->input_file = curr_input_file;
+	new_output->expr = NULL;
+	new_output->length = 0;
 	new_output->next = NULL;
 
-	if (type == OUTPUT_SHOW)
-		new_output->expr = strdup (expr);
-	else
-		new_output->expr = expand_expr (expr);
-
 	if (output_list_tail)
 		output_list_tail->next = new_output;
 	output_list_tail = new_output;
 	if (!output_list)
 		output_list = new_output;
+	return new_output;
+}
+
+void add_pass_two_output (char *expr, output_type type) {
+	//this may add to the list too, so it comes first
+	char *saved_expr = (type == OUTPUT_SHOW) ? strdup (expr) : expand_expr (expr);
+
+	new_pass_two_output (type)->expr = saved_expr;
+}
+
+
+/*
+ * Adds a text to be printed as
+ * it is on the second pass
+ *
+ * Allocates a copy
+ */
+
+void add_pass_two_text (const char *text, size_t length) {
+	output_t *new_output = new_pass_two_output (OUTPUT_TEXT);
+
+	new_output->expr = (char *) malloc (length + 1);
+	memcpy (new_output->expr, text, length);
+	new_output->length = length;
 }
 
 
@@ -203,6 +224,15 @@ void run_second_pass () {
 					restore_console_attributes(orig_attributes);
 					break;
 				}
+			case OUTPUT_TEXT:
+				{
+					WORD orig_attributes = save_console_attributes();
+					set_console_attributes (COLOR_GREEN);
+					fwrite (output_list->expr, 1, output_list->length, stdout);
+					putchar ('\n');
+					restore_console_attributes(orig_attributes);
+					break;
+				}
 			case OUTPUT_SHOW:
 			{
 				define_t *define;
diff --git a/pass_two.h b/pass_two.h
index 4fb0f11..eb7fc04 100644
--- a/pass_two.h
+++ b/pass_two.h
@@ -13,6 +13,7 @@ typedef enum {
 
 typedef enum {
 	OUTPUT_ECHO,
+	OUTPUT_TEXT,
 	OUTPUT_SHOW
 } output_type;
 
@@ -36,6 +37,7 @@ typedef struct output {
 	int line_num;
 	int curr_reusable;
 	char *expr;
+	size_t length;
 	output_type type;
 	char *input_file;
 	struct output *next;
@@ -43,6 +45,7 @@ typedef struct output {
 
 void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value);
 void add_pass_two_output (char *expr, output_type type);
+void add_pass_two_text (const char *text, size_t length);
 void run_second_pass ();
 void write_arg (int value, arg_type type, int inst_size, int or_value);
 
-- 
2.43.0


From 527f2cfd1fbe543b0306f737733452319179ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:37 +0000
Subject: [PATCH 109/123] fix: .echo with a long path doesn't overflow

---
 directive.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 95a1877..2fe7f29 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -273,16 +273,14 @@ addinstr_fail:
 
 				// Is the filename given a macro?
 				if ((define = search_defines (filename)))
-					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
+					StringCchPrintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
 					
 				reduce_string(filename);
 
 				if (is_abs_path(filename)) {
-					strncpy(temp_filename, skip_whitespace (filename), sizeof (temp_filename));
+					StringCchPrintf (temp_filename, sizeof (temp_filename), "%s", skip_whitespace (filename));
 				} else {
-					strncpy(temp_filename, temp_path, sizeof (temp_filename));
-					strncat(temp_filename, "/", sizeof (temp_filename) - 1);
-					strncat(temp_filename, skip_whitespace (filename), sizeof (temp_filename) - 1);
+					StringCchPrintf (temp_filename, sizeof (temp_filename), "%s/%s", temp_path, skip_whitespace (filename));
 				}
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
-- 
2.43.0


From 53833bb8519df17b26ed5452ebf052609b000943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 110/123] fix: count the lines of a string that ends its lines
 with carriage returns only

---
 directive.cpp | 2 +-
 pass_one.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 2fe7f29..7d122f4 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -489,7 +489,7 @@ addinstr_fail:
 
 	// a string may span several lines
 	for (; args_start < ptr; args_start++)
-		if (*args_start == '\n')
+		if (*args_start == '\n' || (*args_start == '\r' && args_start[1] != '\n'))
 			line_num++;
 
 	return (char *) ptr;
diff --git a/pass_one.cpp b/pass_one.cpp
index 8aef30e..41cdf0d 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -602,7 +602,7 @@ char *handle_opcode_or_macro (char *ptr) {
 
 	// a string in the arguments may span several lines
 	for (; name_start < ptr; name_start++)
-		if (*name_start == '\n')
+		if (*name_start == '\n' || (*name_start == '\r' && name_start[1] != '\n'))
 			line_num++;
 
 	return ptr;
-- 
2.43.0


From 343128a19361eb9eabf105ec1c5f641289123da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:43 +0000
Subject: [PATCH 111/123] fix: getc() takes a file name from a define and does
 not crash on an omitted argument

---
 parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 7b92620..e5d64fc 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -387,7 +387,11 @@ static const char *parse_single_num (const char *expr, int *value) {
 						// Is the filename given a macro?
 						if ((define = search_defines (filename)))
 						{
-							strncpy (filename, define->contents, sizeof (filename));
+							if (define->contents == NULL) {
+								SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, define->name);
+								return NULL;
+							}
+							snprintf (filename, sizeof (filename), "%s", skip_whitespace (define->contents));
 						}
 
 						if (*expr == ',') expr++;
-- 
2.43.0


From 3b2fbc97b8653b02c980d0730dd538d3b003058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:46 +0000
Subject: [PATCH 112/123] fix: .echo does not write to a file called "(null)"

---
 directive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 7d122f4..b0ae4d2 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -272,8 +272,13 @@ addinstr_fail:
 				read_expr (&ptr, filename, " \t");
 
 				// Is the filename given a macro?
-				if ((define = search_defines (filename)))
+				if ((define = search_defines (filename))) {
+					if (define->contents == NULL) {
+						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, define->name);
+						return NULL;
+					}
 					StringCchPrintf (filename, sizeof (filename), "%s", skip_whitespace(define->contents));
+				}
 					
 				reduce_string(filename);
 
-- 
2.43.0


From 62d75b204629b04ed2738025d1a830df2d715fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:57 +0000
Subject: [PATCH 113/123] fix: getc() with an omitted argument is reported in a
 data list, too

---
 parser.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index e5d64fc..91467aa 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -385,12 +385,8 @@ static const char *parse_single_num (const char *expr, int *value) {
 						read_expr(&expr, filename, ",");
 
 						// Is the filename given a macro?
-						if ((define = search_defines (filename)))
+						if ((define = search_defines (filename)) && define->contents != NULL)
 						{
-							if (define->contents == NULL) {
-								SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, define->name);
-								return NULL;
-							}
 							snprintf (filename, sizeof (filename), "%s", skip_whitespace (define->contents));
 						}
 
-- 
2.43.0


From a80fb743754739c16affe3c9339feea56a95c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 114/123] fix: getc() with an offset that is defined later

---
 storage.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index 18fae64..280e1ba 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -235,11 +235,6 @@ void init_storage() {
 	test = strdup ("__R,__G,__B)");
 	parse_arg_defs (test, define);
 	free(test);
-	
-	(define = add_define (strdup ("GETC"), NULL))->contents = strdup ("(0)");
-	test = strdup ("__A, __N)"); 
-	parse_arg_defs (test, define);
-	free(test);
 }
 
 
-- 
2.43.0


From 92c77a61d8be4d3f13dd699c6143243e9db09953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:32 +0000
Subject: [PATCH 115/123] fix: getc() of a file that can't be read has no value

---
 parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 91467aa..29029a9 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -399,11 +399,16 @@ static const char *parse_single_num (const char *expr, int *value) {
 						if ((temp_file = fopen (rfn, "r"))) {
 							bool found = fseek (temp_file, char_index, SEEK_SET) == 0;
 							*value = found ? fgetc (temp_file) : EOF;
-							if (!found || ferror (temp_file))
-								SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
+							if (ferror (temp_file))
+								found = false;
 							fclose (temp_file);
+							if (!found) {
+								SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
+								return NULL;
+							}
 						} else {
 							SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, filename);
+							return NULL;
 						}
 
 						if (*expr == ')') expr++;
-- 
2.43.0


From 85397eaf1945b215cb5dd7259ad08f345d72bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:40 +0000
Subject: [PATCH 116/123] fix: concat() of a define takes its text without the
 blank before it

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index a07f485..27109de 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -370,7 +370,7 @@ char *handle_preop_define (const char *ptr) {
 						}
 						else
 						{
-							char *define_buffer = strdup(define->contents);
+							char *define_buffer = strdup(skip_whitespace(define->contents));
 							reduce_string(define_buffer);
 							eb_insert (buffer, -1, define_buffer, -1);
 							free(define_buffer);
-- 
2.43.0


From 9ef1aec5f2a858fed7a2b22804116834a0250a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 117/123] fix: __LINE and __FILE in a define have the same
 value when another symbol is defined later

---
 utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 4d5bbdb..87349d0 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -896,14 +896,20 @@ static bool expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 				bool expanded = true;
 
+				//__LINE and __FILE in a value are those of the define, as in parse_single_num
 				int old_line_num = line_num;
+				char *old_input_file = curr_input_file;
+				if (use != EXPAND_TEXT) {
+					line_num = define->contents_line;
+					curr_input_file = define->input_file;
+				}
+
 				int session = StartSPASMErrorSession();
 				char *value = use != EXPAND_TEXT ? parse_define (define) : NULL;
 				bool undecided = GetSPASMErrorSessionErrorCount(session) > 0 && !IsSPASMErrorSessionFatal(session);
 				if (!undecided)
 					ReplaySPASMErrorSession(session);
 				EndSPASMErrorSession(session);
-				line_num = old_line_num;
 				if (undecided) {
 					//a condition in the macro depends on something not known yet, so leave the call
 					//for later, with the arguments it has now
@@ -929,6 +935,8 @@ static bool expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expanded = expand_expr_full (define->contents, new_expr, depth + 1, search_local, use);
 				}
+				line_num = old_line_num;
+				curr_input_file = old_input_file;
 				remove_arg_set (args);
 				//one error is enough, a macro may use itself many times at each level
 				if (error_occurred || !expanded) {
-- 
2.43.0


From 26cde6206031743e3fd603269fa8a3e6ef262308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:53 +0000
Subject: [PATCH 118/123] fix: .option of a name that is a label already
 reports the conflict

---
 directive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index b0ae4d2..105bf5f 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -437,7 +437,8 @@ addinstr_fail:
 				strcat (strcpy (define_name, "__"), name);
 
 				define = add_define (define_name, NULL);
-				set_define (define, expr, -1, false);
+				if (define != NULL)
+					set_define (define, expr, -1, false);
 				free(expr);
 			}
 			break;
-- 
2.43.0


From 28d38245ad802d2fa8e24def998667d79cfd662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:55 +0000
Subject: [PATCH 119/123] fix: statements after .end on its line are assembled,
 whatever follows it

---
 directive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index 105bf5f..077b7a2 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -71,6 +71,10 @@ char *handle_directive (const char *ptr) {
 			ptr = parse_emit_string (ptr, ES_LONG, NULL);
 			break;
 		}
+		case 2: //END
+			//what follows it on the line doesn't matter, other statements do
+			ptr = skip_to_code_line_end (ptr);
+			break;
 		case 3: //ORG
 		{
 			int value;
-- 
2.43.0


From b6e6d8fb2fe6c4a76d386791f320682a213e76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:57 +0000
Subject: [PATCH 120/123] fix: an equate of an unknown symbol leaves its label
 undefined, so that ti84pce.inc assembles

---
 directive.cpp |  8 +-------
 parser.cpp    | 26 ++++++++++++++++++++++++++
 parser.h      |  1 +
 pass_one.cpp  | 11 +----------
 storage.cpp   | 11 +++++++++++
 storage.h     |  1 +
 6 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 077b7a2..327f7f1 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -374,16 +374,10 @@ addinstr_fail:
 		case 13: //EQU
 		{
 			// Finally, a proper .equ!
-			int value;
 			char value_str[256];
 
 			read_expr (&ptr, value_str, "");
-			if (parse_num_now (value_str, &value)) {
-				if (last_label == NULL)
-					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-				else
-					last_label->value = value;
-			}
+			parse_equate (value_str);
 			break;
 		}
 		case 14: //SHOW
diff --git a/parser.cpp b/parser.cpp
index 29029a9..6b4644e 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -145,6 +145,32 @@ bool parse_num_now (const char *expr, int *value) {
 	return fResult;
 }
 
+/*
+ * Gives the last label the value of
+ * an expression, or if that's not known,
+ * leaves the label undefined, so that
+ * only what uses it is an error
+ */
+
+void parse_equate (const char *expr) {
+	int value;
+	int session = StartSPASMErrorSession();
+	bool fResult = parse_num (expr, &value);
+	bool fUnknown = !fResult && !IsSPASMErrorSessionFatal(session);
+	if (!fUnknown)
+		ReplaySPASMErrorSession(session);
+	EndSPASMErrorSession(session);
+
+	if (fResult || fUnknown) {
+		if (last_label == NULL)
+			SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
+		else if (fResult)
+			last_label->value = value;
+		else
+			remove_label (last_label);
+	}
+}
+
 /*
  * Parses expression,
  * ignoring errors
diff --git a/parser.h b/parser.h
index ffe1d8e..5f3d1d8 100644
--- a/parser.h
+++ b/parser.h
@@ -9,6 +9,7 @@ extern bool parser_forward_ref_err;
 
 bool parse_num (const char *expr, int *value);
 bool parse_num_now (const char *expr, int *value);
+void parse_equate (const char *expr);
 char *parse_define (define_t *define);
 int parse_f (const char *expr);
 bool conv_hex (const char *start, const char *end, int *output_num);
diff --git a/pass_one.cpp b/pass_one.cpp
index 41cdf0d..e3bf963 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -293,20 +293,11 @@ char *run_first_pass_line_sec (char *ptr) {
 		return handle_preop (++ptr);
 	} else if (*ptr == '=') {
 		//handle 'x = 1234' type lines
-		int value;
 		char value_str[256];
 
 		ptr++;
 		read_expr (&ptr, value_str, "");
-
-		if (parse_num_now (value_str, &value) == true)
-		{
-			if (last_label == NULL) {
-				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-			} else {
-				last_label->value = value;
-			}
-		}
+		parse_equate (value_str);
 		return ptr;
 
 	} else {
diff --git a/storage.cpp b/storage.cpp
index 280e1ba..e5d6129 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -633,6 +633,17 @@ label_t *add_label (char *name, int value) {
 }
 
 
+/*
+ * Removes a label
+ */
+
+void remove_label (label_t *label) {
+	if (last_label == label)
+		last_label = NULL;
+	hash_remove (label_table, label->name);
+}
+
+
 /*
  * Adds a set of arguments
  * returns a pointer to it
diff --git a/storage.h b/storage.h
index e69d2fa..3965f5c 100644
--- a/storage.h
+++ b/storage.h
@@ -48,6 +48,7 @@ int get_num_defines ();
 
 label_t *add_label (char *name, int value);
 label_t *search_labels (const char *name);
+void remove_label (label_t *label);
 int get_num_labels ();
 
 unsigned int search_reusables(int index);
-- 
2.43.0


From 9256eac93ff5a166dd49ba44cf687c65be8cd0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:59 +0000
Subject: [PATCH 121/123] fix: PStat in the include files doesn't depend on the
 precedence of operators

---
 inc/ti83plus.inc | 2 +-
 inc/ti84pce.inc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ti83plus.inc b/inc/ti83plus.inc
index 3c7c5b9..145cd58 100644
--- a/inc/ti83plus.inc
+++ b/inc/ti83plus.inc
@@ -3868,7 +3868,7 @@ MedX3   EQU     MedX2      + FPLEN
 MedY1   EQU     MedX3      + FPLEN
 MedY2   EQU     MedY1      + FPLEN
 MedY3   EQU     MedY2      + FPLEN
-PStat   EQU     MedY3      + 2*FPLEN
+PStat   EQU     MedY3      + (2*FPLEN)
 ZStat   EQU     PStat      + FPLEN
 TStat   EQU     ZStat      + FPLEN
 ChiStat EQU     TStat      + FPLEN
diff --git a/inc/ti84pce.inc b/inc/ti84pce.inc
index dc15348..175dd38 100644
--- a/inc/ti84pce.inc
+++ b/inc/ti84pce.inc
@@ -5153,7 +5153,7 @@ MedX3			equ MedX2 + FPLEN
 MedY1			equ MedX3 + FPLEN
 MedY2			equ MedY1 + FPLEN
 MedY3			equ MedY2 + FPLEN
-PStat			equ MedY3 + 2*FPLEN
+PStat			equ MedY3 + (2*FPLEN)
 ZStat			equ PStat + FPLEN
 TStat			equ ZStat + FPLEN
 ChiStat			equ TStat + FPLEN
-- 
2.43.0


From 696d15091efbe178ed3ec9238bc1913e7a3973e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:00 +0000
Subject: [PATCH 122/123] fix: AppOnErr takes its argument

---
 inc/ti83plus.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ti83plus.inc b/inc/ti83plus.inc
index 145cd58..e87e4f1 100644
--- a/inc/ti83plus.inc
+++ b/inc/ti83plus.inc
@@ -1015,7 +1015,7 @@ SUBLANG_SPANISH                  equ   01h   ; Spanish (Castilian)
 APP_PUSH_ERRORH EQU	59h
 APP_POP_ERRORH	EQU	5Ch
 ;
-#define AppOnErr xxxx	ld HL,xxxx \ CALL APP_PUSH_ERRORH
+#define AppOnErr(xxxx)	ld HL,xxxx \ CALL APP_PUSH_ERRORH
 #define AppOffErr		CALL	APP_POP_ERRORH
 ;
 ;======================================================================
-- 
2.43.0


From 93f035000a706ba57f5431fa04d4fd8f3838a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:02 +0000
Subject: [PATCH 123/123] fix: app.inc doesn't warn about skipped pages when
 none is

---
 inc/app.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/app.inc b/inc/app.inc
index 2bf37a9..16db815 100644
--- a/inc/app.inc
+++ b/inc/app.inc
@@ -56,7 +56,7 @@ _   .db appname
   #if page <= gpage
     fatal("Your page numbers must increase.")
   #endif
-  #if page > gpage+1
+  #if page > (gpage+1)
     .echo "Warning: Skipping page ",gpage+1," at user request."
   #endif
   #define free_space eval(free_space + $8000-($ & $0000FFFF))
-- 
2.43.0

