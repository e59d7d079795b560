From aeec697ff6fbc8a58aaa220336a7fb1e638c5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:45 +0000
Subject: [PATCH 01/53] Let a simulator supply XGETBV results

With CPUINFO_SIM defined, xgetbv() calls cpuinfo_sim_xgetbv() instead of
executing the instruction.  Without the define nothing changes.
---
 src/x86/cpuid.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x86/cpuid.h b/src/x86/cpuid.h
index 0d7cf5c..1c1aaf5 100644
--- a/src/x86/cpuid.h
+++ b/src/x86/cpuid.h
@@ -66,8 +66,14 @@ static inline struct cpuid_regs cpuidex(uint32_t eax, uint32_t ecx) {
 }
 #endif
 
+#if defined(CPUINFO_SIM)
+extern uint64_t cpuinfo_sim_xgetbv(uint32_t ext_ctrl_reg);
+#endif
+
 static inline uint64_t xgetbv(uint32_t ext_ctrl_reg) {
-#ifdef _MSC_VER
+#if defined(CPUINFO_SIM)
+	return cpuinfo_sim_xgetbv(ext_ctrl_reg);
+#elif defined(_MSC_VER)
 	return (uint64_t)_xgetbv((unsigned int)ext_ctrl_reg);
 #else
 	uint32_t lo, hi;
-- 
2.43.0


From 04d43f9f4386665f9a03e438f6db243ce1dc49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:40 +0000
Subject: [PATCH 02/53] fix: release processor list when /proc/cpuinfo cannot
 be parsed

x86 and ARM initialization returned without freeing the per-processor
scratch array when parsing /proc/cpuinfo failed.
---
 src/arm/linux/init.c | 2 +-
 src/x86/linux/init.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1eab69d..daed986 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -185,7 +185,7 @@ void cpuinfo_arm_linux_init(void) {
 		    arm_linux_processors_count,
 		    arm_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index d2b2d47..688bb2e 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -207,7 +207,7 @@ void cpuinfo_x86_linux_init(void) {
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
-- 
2.43.0


From ca310eebeb1bc6110f96397f36c30cb4d9504753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:41 +0000
Subject: [PATCH 03/53] fix: fail initialization when processor lists cannot be
 read

x86 and ARM initialization ignored the results of reading the possible and
present processor lists. A failed read dropped some or all processors and
initialization still reported success, with an out-of-bounds access when no
processor was left.
---
 src/arm/linux/init.c | 26 ++++++++++++++++----------
 src/x86/linux/init.c | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index daed986..498a531 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -152,19 +152,25 @@ void cpuinfo_arm_linux_init(void) {
 	}
 
 	if (max_possible_processors_count) {
-		cpuinfo_linux_detect_possible_processors(
-			arm_linux_processors_count,
-			&arm_linux_processors->flags,
-			sizeof(struct cpuinfo_arm_linux_processor),
-			CPUINFO_LINUX_FLAG_POSSIBLE);
+		if (!cpuinfo_linux_detect_possible_processors(
+			    arm_linux_processors_count,
+			    &arm_linux_processors->flags,
+			    sizeof(struct cpuinfo_arm_linux_processor),
+			    CPUINFO_LINUX_FLAG_POSSIBLE)) {
+			cpuinfo_log_error("failed to detect possible processors");
+			goto cleanup;
+		}
 	}
 
 	if (max_present_processors_count) {
-		cpuinfo_linux_detect_present_processors(
-			arm_linux_processors_count,
-			&arm_linux_processors->flags,
-			sizeof(struct cpuinfo_arm_linux_processor),
-			CPUINFO_LINUX_FLAG_PRESENT);
+		if (!cpuinfo_linux_detect_present_processors(
+			    arm_linux_processors_count,
+			    &arm_linux_processors->flags,
+			    sizeof(struct cpuinfo_arm_linux_processor),
+			    CPUINFO_LINUX_FLAG_PRESENT)) {
+			cpuinfo_log_error("failed to detect present processors");
+			goto cleanup;
+		}
 	}
 
 #if defined(__ANDROID__)
diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 688bb2e..2454a34 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -190,19 +190,25 @@ void cpuinfo_x86_linux_init(void) {
 	}
 
 	if (max_possible_processors_count != 0) {
-		cpuinfo_linux_detect_possible_processors(
-			x86_linux_processors_count,
-			&x86_linux_processors->flags,
-			sizeof(struct cpuinfo_x86_linux_processor),
-			CPUINFO_LINUX_FLAG_POSSIBLE);
+		if (!cpuinfo_linux_detect_possible_processors(
+			    x86_linux_processors_count,
+			    &x86_linux_processors->flags,
+			    sizeof(struct cpuinfo_x86_linux_processor),
+			    CPUINFO_LINUX_FLAG_POSSIBLE)) {
+			cpuinfo_log_error("failed to detect possible processors");
+			goto cleanup;
+		}
 	}
 
 	if (max_present_processors_count != 0) {
-		cpuinfo_linux_detect_present_processors(
-			x86_linux_processors_count,
-			&x86_linux_processors->flags,
-			sizeof(struct cpuinfo_x86_linux_processor),
-			CPUINFO_LINUX_FLAG_PRESENT);
+		if (!cpuinfo_linux_detect_present_processors(
+			    x86_linux_processors_count,
+			    &x86_linux_processors->flags,
+			    sizeof(struct cpuinfo_x86_linux_processor),
+			    CPUINFO_LINUX_FLAG_PRESENT)) {
+			cpuinfo_log_error("failed to detect present processors");
+			goto cleanup;
+		}
 	}
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
-- 
2.43.0


From 318ab0ef122d6999e42a7ac8cba3287d8a40ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:56 +0000
Subject: [PATCH 04/53] fix: fail initialization when no processor is detected

With no processor in common between the processor lists and /proc/cpuinfo,
initialization succeeded with empty tables and read past their end to
compute the maximum cache size.
---
 src/arm/linux/init.c | 4 ++++
 src/x86/linux/init.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 498a531..1f686af 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -243,6 +243,10 @@ void cpuinfo_arm_linux_init(void) {
 			}
 		}
 	}
+	if (valid_processors == 0) {
+		cpuinfo_log_error("failed to detect any logical processor");
+		goto cleanup;
+	}
 
 #if defined(__ANDROID__)
 	const struct cpuinfo_arm_chipset chipset =
diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 2454a34..fadbbbe 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -235,6 +235,10 @@ void cpuinfo_x86_linux_init(void) {
 			processors_count++;
 		}
 	}
+	if (processors_count == 0) {
+		cpuinfo_log_error("failed to detect any logical processor");
+		goto cleanup;
+	}
 
 	qsort(x86_linux_processors,
 	      x86_linux_processors_count,
-- 
2.43.0


From 7c73e5ce1655a178dd7c3d8e8f15aed96097a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:10 +0000
Subject: [PATCH 05/53] fix: do not report offline processors

Processors in the present list which are not listed in /proc/cpuinfo are
offline. x86 reported them with APIC ID 0, as extra threads of the first
core. ARM counted only listed processors, but sorted and grouped unlisted
ones among them, so they could displace online processors in the tables.
---
 src/arm/linux/init.c | 2 ++
 src/x86/linux/init.c | 7 +++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1f686af..591c5bf 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -224,6 +224,8 @@ void cpuinfo_arm_linux_init(void) {
 				 * not reported if they are offline.
 				 */
 				cpuinfo_log_info("processor %" PRIu32 " is not listed in /proc/cpuinfo", i);
+				arm_linux_processors[i].flags &= ~CPUINFO_LINUX_FLAG_VALID;
+				continue;
 			}
 
 			if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_MIDR)) {
diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index fadbbbe..e88308b 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -167,13 +167,12 @@ void cpuinfo_x86_linux_init(void) {
 	const uint32_t max_present_processors_count = 1 + cpuinfo_linux_get_max_present_processor(max_processors_count);
 	cpuinfo_log_debug("maximum present processors count: %" PRIu32, max_present_processors_count);
 
-	uint32_t valid_processor_mask = 0;
+	/* Offline processors are not listed in /proc/cpuinfo, and have no APIC ID */
+	uint32_t valid_processor_mask = CPUINFO_LINUX_FLAG_PROC_CPUINFO;
 	uint32_t x86_linux_processors_count = max_processors_count;
 	if (max_present_processors_count != 0) {
 		x86_linux_processors_count = min(x86_linux_processors_count, max_present_processors_count);
-		valid_processor_mask = CPUINFO_LINUX_FLAG_PRESENT;
-	} else {
-		valid_processor_mask = CPUINFO_LINUX_FLAG_PROC_CPUINFO;
+		valid_processor_mask |= CPUINFO_LINUX_FLAG_PRESENT;
 	}
 	if (max_possible_processors_count != 0) {
 		x86_linux_processors_count = min(x86_linux_processors_count, max_possible_processors_count);
-- 
2.43.0


From bc6e44e8f9e85162a2cd6e057b214bacef6a3f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:32 +0000
Subject: [PATCH 06/53] fix: one-byte overflow on full-length Hardware and
 Revision values

A value of exactly the maximum length fills the buffer, and its terminator
was written one byte past the end.
---
 src/arm/linux/cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 081d9aa..0ab328b 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -879,7 +879,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_HARDWARE_VALUE_MAX);
 					value_length = CPUINFO_HARDWARE_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_HARDWARE_VALUE_MAX) {
 					state->hardware[value_length] = '\0';
 				}
 				memcpy(state->hardware, value_start, value_length);
@@ -894,7 +894,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_REVISION_VALUE_MAX);
 					value_length = CPUINFO_REVISION_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_REVISION_VALUE_MAX) {
 					state->revision[value_length] = '\0';
 				}
 				memcpy(state->revision, value_start, value_length);
-- 
2.43.0


From f6e53ac47afe56e38ff2087e8f0fd77b6d1f32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:33 +0000
Subject: [PATCH 07/53] fix: do not use uninitialized Revision value

When /proc/cpuinfo has no Revision line, the chipset was decoded from an
uninitialized buffer.
---
 src/arm/linux/cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 0ab328b..f950544 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -1011,6 +1011,7 @@ bool cpuinfo_arm_linux_parse_proc_cpuinfo(
 	uint32_t max_processors_count,
 	struct cpuinfo_arm_linux_processor processors[restrict static max_processors_count]) {
 	hardware[0] = '\0';
+	revision[0] = '\0';
 	struct proc_cpuinfo_parser_state state = {
 		.hardware = hardware,
 		.revision = revision,
-- 
2.43.0


From 057cda3e5e7d11b4fe4f8bd9cc2e2ec9a8a269a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:33 +0000
Subject: [PATCH 08/53] fix: keep processor range of L1 caches described in
 /proc/cpuinfo

On 32-bit ARM the cache parameters from /proc/cpuinfo replaced the whole
cache structure, which zeroed the range of processors using the cache.
---
 src/arm/linux/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 591c5bf..7cb99db 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -682,8 +682,6 @@ void cpuinfo_arm_linux_init(void) {
 			&l1d[i],
 			&temp_l2,
 			&temp_l3);
-		l1i[i].processor_start = l1d[i].processor_start = i;
-		l1i[i].processor_count = l1d[i].processor_count = 1;
 #if CPUINFO_ARCH_ARM
 		/* L1I reported in /proc/cpuinfo overrides defaults */
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_ICACHE)) {
@@ -704,6 +702,8 @@ void cpuinfo_arm_linux_init(void) {
 				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length};
 		}
 #endif
+		l1i[i].processor_start = l1d[i].processor_start = i;
+		l1i[i].processor_count = l1d[i].processor_count = 1;
 
 		if (temp_l3.size != 0) {
 			/*
-- 
2.43.0


From 3c91cca502a1f2bb7f64f26875723736a13cfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:40 +0000
Subject: [PATCH 09/53] fix: name cpuinfo_get_cores in its diagnostic

Calling cpuinfo_get_cores before initialization blamed cpuinfo_get_core.
---
 src/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.c b/src/api.c
index b8c999f..b71819d 100644
--- a/src/api.c
+++ b/src/api.c
@@ -55,7 +55,7 @@ const struct cpuinfo_processor* cpuinfo_get_processors(void) {
 
 const struct cpuinfo_core* cpuinfo_get_cores(void) {
 	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {
-		cpuinfo_log_fatal("cpuinfo_get_%s called before cpuinfo is initialized", "core");
+		cpuinfo_log_fatal("cpuinfo_get_%s called before cpuinfo is initialized", "cores");
 	}
 	return cpuinfo_cores;
 }
-- 
2.43.0


From 900e26fd87e06cbbf36ab249d0c4d236a22e17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:53 +0000
Subject: [PATCH 10/53] fix: keep the last character of log messages filling
 the buffer

A message which fills the on-stack buffer exactly has no room for the
terminator vsnprintf appends, so its last character was replaced by a NUL.
---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 2f85128..1e708ea 100644
--- a/src/log.c
+++ b/src/log.c
@@ -76,7 +76,7 @@ static void cpuinfo_vlog(
 		goto cleanup;
 	}
 	const size_t format_length = (size_t)format_chars;
-	if ((prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char) >
+	if ((prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char) >=
 	    CPUINFO_LOG_STACK_BUFFER_SIZE) {
 		/* Allocate a buffer on heap, and vsnprintf to this buffer */
 		const size_t heap_buffer_size =
-- 
2.43.0


From 5caeb65a773c9b5575779b8c810d49141b484bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:53 +0000
Subject: [PATCH 11/53] fix: keep the last character of clog messages filling
 the buffer

A prefix or message which fills the on-stack buffer exactly has no room for
the terminator, so its last character was replaced by a NUL.
---
 deps/clog/src/clog.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 27658f9..fe667d4 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -87,14 +87,14 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 			/* Format error in the message: silently ignore this particular message. */
 			goto cleanup;
 		}
-		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {
+		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {
 			/* Allocate a buffer on heap, and vsnprintf to this buffer */
 			heap_buffer = malloc(prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);
 			if (heap_buffer == NULL) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_FATAL_PREFIX_FORMAT, module);
 			} else {
@@ -165,14 +165,14 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 			/* Format error in the message: silently ignore this particular message. */
 			goto cleanup;
 		}
-		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {
+		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {
 			/* Allocate a buffer on heap, and vsnprintf to this buffer */
 			heap_buffer = malloc(prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);
 			if (heap_buffer == NULL) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_ERROR_PREFIX_FORMAT, module);
 			} else {
@@ -243,14 +243,14 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 			/* Format error in the message: silently ignore this particular message. */
 			goto cleanup;
 		}
-		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {
+		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {
 			/* Allocate a buffer on heap, and vsnprintf to this buffer */
 			heap_buffer = malloc(prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);
 			if (heap_buffer == NULL) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_WARNING_PREFIX_FORMAT, module);
 			} else {
@@ -321,14 +321,14 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 			/* Format error in the message: silently ignore this particular message. */
 			goto cleanup;
 		}
-		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {
+		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {
 			/* Allocate a buffer on heap, and vsnprintf to this buffer */
 			heap_buffer = malloc(prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);
 			if (heap_buffer == NULL) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_INFO_PREFIX_FORMAT, module);
 			} else {
@@ -399,14 +399,14 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 			/* Format error in the message: silently ignore this particular message. */
 			goto cleanup;
 		}
-		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {
+		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {
 			/* Allocate a buffer on heap, and vsnprintf to this buffer */
 			heap_buffer = malloc(prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);
 			if (heap_buffer == NULL) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_DEBUG_PREFIX_FORMAT, module);
 			} else {
-- 
2.43.0


From 799ec50cd068e4a5c95862d6fb9a083cdef6025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:53 +0000
Subject: [PATCH 12/53] fix: do not take ':' for a digit in processor numbers

The character after '9' passed the digit check when parsing processor
numbers in /proc/cpuinfo.
---
 src/arm/linux/cpuinfo.c | 2 +-
 src/x86/linux/cpuinfo.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index f950544..20846ff 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -26,7 +26,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index 8f038b0..f5c42a2 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -25,7 +25,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
-- 
2.43.0


From e5158ffe0400dbdfccc6554eeba02ca9acd6e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:47 +0000
Subject: [PATCH 13/53] fix: decode cumulative shifts in CPUID leaf 0xB

The shift reported for a topology level counts the bits of all lower levels.
It was used as the length of the level alone, so the core field took in bits
of the package number and separate packages were reported as one.
---
 src/x86/topology.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 5253089..82edc86 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -104,7 +104,12 @@ void cpuinfo_x86_detect_topology(
 		do {
 			const struct cpuid_regs leafB = cpuidex(UINT32_C(0xB), level);
 			type = (leafB.ecx >> 8) & UINT32_C(0x000000FF);
+			/*
+			 * Shift to the next topology level: includes bits of
+			 * this and all previous levels.
+			 */
 			const uint32_t level_shift = leafB.eax & UINT32_C(0x0000001F);
+			const uint32_t level_length = level_shift > total_shift ? level_shift - total_shift : 0;
 			const uint32_t x2apic_id = leafB.edx;
 			apic_id = x2apic_id;
 			switch (type) {
@@ -120,7 +125,7 @@ void cpuinfo_x86_detect_topology(
 						level_shift,
 						total_shift);
 					topology->thread_bits_offset = total_shift;
-					topology->thread_bits_length = level_shift;
+					topology->thread_bits_length = level_length;
 					break;
 				case topology_type_core:
 					cpuinfo_log_debug(
@@ -132,7 +137,7 @@ void cpuinfo_x86_detect_topology(
 						level_shift,
 						total_shift);
 					topology->core_bits_offset = total_shift;
-					topology->core_bits_length = level_shift;
+					topology->core_bits_length = level_length;
 					break;
 				default:
 					cpuinfo_log_warning(
@@ -142,10 +147,10 @@ void cpuinfo_x86_detect_topology(
 						"reported in leaf 0x0000000B is ignored",
 						type,
 						total_shift,
-						level_shift);
+						level_length);
 					break;
 			}
-			total_shift += level_shift;
+			total_shift += level_length;
 			level += 1;
 		} while (type != 0);
 		cpuinfo_log_debug(
-- 
2.43.0


From 35dc6d426de0ad913ad2066da4018c883a9caf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:58 +0000
Subject: [PATCH 14/53] fix: take the largest cache for the maximum cache size

cpuinfo_get_max_cache_size documents an upper bound on cache size, but
returned the size of the outermost cache even when an inner one is larger.
---
 src/cache.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cache.c b/src/cache.c
index 2eb4b16..ba495ae 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -4,14 +4,15 @@
 #include <cpuinfo/internal-api.h>
 
 uint32_t cpuinfo_compute_max_cache_size(const struct cpuinfo_processor* processor) {
-	if (processor->cache.l4 != NULL) {
-		return processor->cache.l4->size;
-	} else if (processor->cache.l3 != NULL) {
-		return processor->cache.l3->size;
-	} else if (processor->cache.l2 != NULL) {
-		return processor->cache.l2->size;
-	} else if (processor->cache.l1d != NULL) {
-		return processor->cache.l1d->size;
+	const struct cpuinfo_cache* caches[] = {
+		processor->cache.l1d, processor->cache.l2, processor->cache.l3, processor->cache.l4};
+
+	/* An outer cache is not necessarily larger than an inner one */
+	uint32_t max_cache_size = 0;
+	for (size_t i = 0; i < sizeof(caches) / sizeof(caches[0]); i++) {
+		if (caches[i] != NULL && caches[i]->size > max_cache_size) {
+			max_cache_size = caches[i]->size;
+		}
 	}
-	return 0;
+	return max_cache_size;
 }
-- 
2.43.0


From 6651ac48bf736b03ec6539b1aa429c9a580fa035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:33 +0000
Subject: [PATCH 15/53] fix: order processors with equal APIC IDs

When /proc/cpuinfo gives no APIC IDs, the processors compared equal and
their order in the tables depended on the sort implementation.
---
 src/x86/linux/init.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index e88308b..7bad4e1 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -40,7 +40,12 @@ static int cmp_x86_linux_processor(const void* ptr_a, const void* ptr_b) {
 	/* Compare based on APIC ID (i.e. processor 0 < processor 1) */
 	const uint32_t id_a = processor_a->apic_id;
 	const uint32_t id_b = processor_b->apic_id;
-	return cmp(id_a, id_b);
+	if (id_a != id_b) {
+		return cmp(id_a, id_b);
+	}
+
+	/* Without distinct APIC IDs, keep the order of system processor ids */
+	return cmp(processor_a->linux_id, processor_b->linux_id);
 }
 
 static void cpuinfo_x86_count_objects(
-- 
2.43.0


From 65033a4a59e6628695c4b193cca8fecf6709e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:43 +0000
Subject: [PATCH 16/53] fix: list each ARM microarchitecture once

Processors are sorted by core type, frequency and cluster, so processors of
one microarchitecture can be separated by others of the same rank. The
microarchitecture was then listed several times with partial counts.
---
 src/arm/linux/init.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 7cb99db..e83ea15 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -503,14 +503,15 @@ void cpuinfo_arm_linux_init(void) {
 	}
 
 	uint32_t uarchs_count = 0;
-	enum cpuinfo_uarch last_uarch;
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (uarchs_count == 0 || arm_linux_processors[i].uarch != last_uarch) {
-				last_uarch = arm_linux_processors[i].uarch;
-				uarchs_count += 1;
+			/* Processors with the same microarchitecture are not necessarily adjacent */
+			uint32_t first = 0;
+			while (arm_linux_processors[first].uarch != arm_linux_processors[i].uarch) {
+				first++;
 			}
-			arm_linux_processors[i].uarch_index = uarchs_count - 1;
+			arm_linux_processors[i].uarch_index =
+				first == i ? uarchs_count++ : arm_linux_processors[first].uarch_index;
 		}
 	}
 
@@ -610,19 +611,15 @@ void cpuinfo_arm_linux_init(void) {
 		goto cleanup;
 	}
 
-	uint32_t uarchs_index = 0;
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (uarchs_index == 0 || arm_linux_processors[i].uarch != last_uarch) {
-				last_uarch = arm_linux_processors[i].uarch;
-				uarchs[uarchs_index] = (struct cpuinfo_uarch_info){
-					.uarch = arm_linux_processors[i].uarch,
-					.midr = arm_linux_processors[i].midr,
-				};
-				uarchs_index += 1;
+			struct cpuinfo_uarch_info* uarch = &uarchs[arm_linux_processors[i].uarch_index];
+			if (uarch->processor_count == 0) {
+				uarch->uarch = arm_linux_processors[i].uarch;
+				uarch->midr = arm_linux_processors[i].midr;
 			}
-			uarchs[uarchs_index - 1].processor_count += 1;
-			uarchs[uarchs_index - 1].core_count += 1;
+			uarch->processor_count += 1;
+			uarch->core_count += 1;
 		}
 	}
 
-- 
2.43.0


From 8b0c3a4f13a1c99e1e74d7c54978dc2e5f6a9a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:28 +0000
Subject: [PATCH 17/53] fix: keep probing cluster lists after an offline ARM
 processor

If the first processor went offline during detection, neither of its
topology lists could be read, and cluster_cpus_list was taken to be
unsupported for all other processors.
---
 src/arm/linux/init.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index e83ea15..10d90b1 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -369,10 +369,14 @@ void cpuinfo_arm_linux_init(void) {
 				    (cpuinfo_siblings_callback)cluster_siblings_parser,
 				    arm_linux_processors)) {
 				detected_cluster_cpus_list_node = true;
-				continue;
-			} else {
+			} else if (cpuinfo_linux_detect_core_siblings(
+					   arm_linux_processors_count,
+					   i,
+					   (cpuinfo_siblings_callback)cluster_siblings_parser,
+					   arm_linux_processors)) {
 				detected_core_siblings_list_node = true;
 			}
+			continue;
 		}
 
 		/* The cached result above will guarantee only one of the blocks
-- 
2.43.0


From 8532c386033d063ca876d78bfd1b511a319837e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:28 +0000
Subject: [PATCH 18/53] fix: decode ARM caches alike for all processors of a
 cluster

Caches of a cluster are counted on its leader, but were decoded with the
architecture version of each processor. If /proc/cpuinfo gives it only for
some processors of the cluster, the cache tables overflowed.
---
 src/arm/linux/init.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 10d90b1..0d080df 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -467,7 +467,8 @@ void cpuinfo_arm_linux_init(void) {
 					&arm_linux_processors[cluster_leader].uarch);
 			} else {
 				/* Cluster non-leader: copy vendor, uarch, MIDR,
-				 * and frequency from cluster leader */
+				 * frequency, and architecture version from
+				 * cluster leader */
 				arm_linux_processors[i].flags |= arm_linux_processors[cluster_leader].flags &
 					(CPUINFO_ARM_LINUX_VALID_MIDR | CPUINFO_LINUX_FLAG_MAX_FREQUENCY);
 				arm_linux_processors[i].midr = arm_linux_processors[cluster_leader].midr;
@@ -475,6 +476,8 @@ void cpuinfo_arm_linux_init(void) {
 				arm_linux_processors[i].uarch = arm_linux_processors[cluster_leader].uarch;
 				arm_linux_processors[i].max_frequency =
 					arm_linux_processors[cluster_leader].max_frequency;
+				arm_linux_processors[i].architecture_version =
+					arm_linux_processors[cluster_leader].architecture_version;
 			}
 		}
 	}
-- 
2.43.0


From a13e00f3a9bdf9eb71a5785a5560b1fb06b32a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:35 +0000
Subject: [PATCH 19/53] fix: count one L3 cache per ARM cluster unless L3 is
 shared

A cluster whose L3 size equals that of the first cluster was not counted
even if a third cluster showed that L3 is not shared, and the last cluster
was left without L3.
---
 src/arm/linux/init.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 0d080df..91e65c8 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -719,15 +719,14 @@ void cpuinfo_arm_linux_init(void) {
 			 */
 			l2_count += 1;
 			if (arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id) {
-				if (cluster_id == 0) {
+				if (l3_count == 0) {
 					big_l3_size = temp_l3.size;
-					l3_count = 1;
 				} else if (temp_l3.size != big_l3_size) {
 					/* If some cores have different L3 size,
 					 * L3 is not shared between all cores */
 					shared_l3 = false;
-					l3_count += 1;
 				}
+				l3_count += 1;
 			}
 		} else {
 			/* If some cores don't have L3 cache, L3 is not shared
@@ -745,6 +744,11 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (shared_l3 && l3_count != 0) {
+		/* All clusters report the same L3 */
+		l3_count = 1;
+	}
+
 	if (l2_count != 0) {
 		l2 = calloc(l2_count, sizeof(struct cpuinfo_cache));
 		if (l2 == NULL) {
-- 
2.43.0


From 3d819ba1294ee16bdb1e6ae6415669ebe1f55166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:35 +0000
Subject: [PATCH 20/53] fix: maximum cache size covers ARM caches from
 /proc/cpuinfo

Caches described in /proc/cpuinfo replace the defaults of a
microarchitecture, and could exceed the reported maximum cache size.
---
 src/arm/linux/init.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 91e65c8..5619a31 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -873,6 +873,12 @@ void cpuinfo_arm_linux_init(void) {
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_max_cache_size = cpuinfo_arm_compute_max_cache_size(&processors[0]);
+	const uint32_t detected_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);
+	if (detected_max_cache_size > cpuinfo_max_cache_size) {
+		/* Caches reported in /proc/cpuinfo may exceed
+		 * microarchitecture-specific maximum */
+		cpuinfo_max_cache_size = detected_max_cache_size;
+	}
 
 	cpuinfo_linux_cpu_max = arm_linux_processors_count;
 	cpuinfo_linux_cpu_to_processor_map = linux_cpu_to_processor_map;
-- 
2.43.0


From 647d35122ac8b8488dc54c02a8b6d0add4eca8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:42 +0000
Subject: [PATCH 21/53] fix: keep RISC-V cores, clusters and packages
 consistent

Processors were sorted by microarchitecture only, so that members of a
core, cluster or package could be separated, leaders could follow other
members, and the order of equal elements depended on qsort. Pointers then
referred to the wrong element or to an element before the table. Ranges
used Linux processor IDs instead of positions in the tables.

Sort by topology, and derive ranges and pointers from the sorted list.
---
 src/riscv/linux/init.c | 187 +++++++++++++++++++++++++++--------------
 1 file changed, 122 insertions(+), 65 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 9ab3d6e..0c18c9f 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -14,12 +14,45 @@ static inline bool bitmask_all(uint32_t flags, uint32_t mask) {
 }
 
 static int compare_riscv_linux_processors(const void* a, const void* b) {
+	const struct cpuinfo_riscv_linux_processor* processor_a = (const struct cpuinfo_riscv_linux_processor*)a;
+	const struct cpuinfo_riscv_linux_processor* processor_b = (const struct cpuinfo_riscv_linux_processor*)b;
+
 	/**
-	 * For our purposes, it is only relevant that the list is sorted by
-	 * micro-architecture, so the nature of ordering is irrelevant.
+	 * Keep processors of the same package, cluster and core together, and
+	 * order them by ID otherwise.
 	 */
-	return ((const struct cpuinfo_riscv_linux_processor*)a)->core.uarch -
-		((const struct cpuinfo_riscv_linux_processor*)b)->core.uarch;
+	if (processor_a->package_leader_id != processor_b->package_leader_id) {
+		return processor_a->package_leader_id < processor_b->package_leader_id ? -1 : 1;
+	}
+	if (processor_a->cluster_leader_id != processor_b->cluster_leader_id) {
+		return processor_a->cluster_leader_id < processor_b->cluster_leader_id ? -1 : 1;
+	}
+	if (processor_a->core_leader_id != processor_b->core_leader_id) {
+		return processor_a->core_leader_id < processor_b->core_leader_id ? -1 : 1;
+	}
+	return processor_a->processor.linux_id - processor_b->processor.linux_id;
+}
+
+/**
+ * Determine if a processor starts a new package, cluster or core in the sorted
+ * list, given the previous valid processor (or NULL for the first one).
+ */
+static bool starts_package(
+	const struct cpuinfo_riscv_linux_processor* processor,
+	const struct cpuinfo_riscv_linux_processor* previous) {
+	return previous == NULL || processor->package_leader_id != previous->package_leader_id;
+}
+
+static bool starts_cluster(
+	const struct cpuinfo_riscv_linux_processor* processor,
+	const struct cpuinfo_riscv_linux_processor* previous) {
+	return starts_package(processor, previous) || processor->cluster_leader_id != previous->cluster_leader_id;
+}
+
+static bool starts_core(
+	const struct cpuinfo_riscv_linux_processor* processor,
+	const struct cpuinfo_riscv_linux_processor* previous) {
+	return starts_cluster(processor, previous) || processor->core_leader_id != previous->core_leader_id;
 }
 
 /**
@@ -374,9 +407,8 @@ void cpuinfo_riscv_linux_init(void) {
 	cpuinfo_riscv_linux_decode_isa_from_hwcap(&cpuinfo_isa);
 
 	/**
-	 * To efficiently compute the number of unique micro-architectures
-	 * present on the system, sort the processor list by micro-architecture
-	 * and then scan through the list to count the differences.
+	 * The public structures describe packages, clusters and cores as ranges
+	 * of processors, so sort the processor list by topology.
 	 *
 	 * Ensure this is done at the end of composing the processor list - the
 	 * parsing functions assume that the position of the processor in the
@@ -396,37 +428,35 @@ void cpuinfo_riscv_linux_init(void) {
 	size_t valid_clusters_count = 0;
 	size_t valid_packages_count = 0;
 	size_t valid_uarchs_count = 0;
-	enum cpuinfo_uarch last_uarch = cpuinfo_uarch_unknown;
+	const struct cpuinfo_riscv_linux_processor* previous = NULL;
 	for (size_t processor = 0; processor < max_processor_id; processor++) {
 		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
 			continue;
 		}
 
-		/**
-		 * All comparisons to the leader id values MUST be done against
-		 * the 'linux_id' as opposed to 'processor'. The sort function
-		 * above no longer allows us to make the assumption that these
-		 * two values are the same.
-		 */
-		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
-
 		valid_processors_count++;
-		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
+		if (starts_core(&riscv_linux_processors[processor], previous)) {
 			valid_cores_count++;
 		}
-		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
+		if (starts_cluster(&riscv_linux_processors[processor], previous)) {
 			valid_clusters_count++;
 		}
-		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
+		if (starts_package(&riscv_linux_processors[processor], previous)) {
 			valid_packages_count++;
 		}
-		/**
-		 * As we've sorted by micro-architecture, when the uarch differs
-		 * between two entries, a unique uarch has been observed.
-		 */
-		if (last_uarch != riscv_linux_processors[processor].core.uarch || valid_uarchs_count == 0) {
+		previous = &riscv_linux_processors[processor];
+
+		/* Count the uarch if no previous processor has it. */
+		bool new_uarch = true;
+		for (size_t other = 0; other < processor; other++) {
+			if (bitmask_all(riscv_linux_processors[other].flags, CPUINFO_LINUX_FLAG_VALID) &&
+			    riscv_linux_processors[other].core.uarch == riscv_linux_processors[processor].core.uarch) {
+				new_uarch = false;
+				break;
+			}
+		}
+		if (new_uarch) {
 			valid_uarchs_count++;
-			last_uarch = riscv_linux_processors[processor].core.uarch;
 		}
 	}
 
@@ -509,70 +539,97 @@ void cpuinfo_riscv_linux_init(void) {
 	size_t valid_clusters_index = 0;
 	size_t valid_packages_index = 0;
 	size_t valid_uarchs_index = 0;
-	last_uarch = cpuinfo_uarch_unknown;
+	previous = NULL;
 	for (size_t processor = 0; processor < max_processor_id; processor++) {
 		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
 			continue;
 		}
 
 		/**
-		 * All comparisons to the leader id values MUST be done against
-		 * the 'linux_id' as opposed to 'processor'. The sort function
-		 * above no longer allows us to make the assumption that these
-		 * two values are the same.
+		 * The sort function above no longer allows us to make the
+		 * assumption that 'processor' and 'linux_id' are the same.
 		 */
 		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
 
 		/* Create uarch entry if this uarch has not been seen before. */
-		if (last_uarch != riscv_linux_processors[processor].core.uarch || valid_uarchs_index == 0) {
+		size_t uarch_index = 0;
+		while (uarch_index < valid_uarchs_index &&
+		       uarchs[uarch_index].uarch != riscv_linux_processors[processor].core.uarch) {
+			uarch_index++;
+		}
+		if (uarch_index == valid_uarchs_index) {
 			uarchs[valid_uarchs_index++].uarch = riscv_linux_processors[processor].core.uarch;
-			last_uarch = riscv_linux_processors[processor].core.uarch;
 		}
 
-		/* Copy cpuinfo_processor information. */
-		memcpy(&processors[valid_processors_index++],
-		       &riscv_linux_processors[processor].processor,
-		       sizeof(struct cpuinfo_processor));
-
-		/* Update uarch processor count. */
-		uarchs[valid_uarchs_index - 1].processor_count++;
-
-		/* Copy cpuinfo_core information, if this is the leader. */
-		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
-			memcpy(&cores[valid_cores_index++],
-			       &riscv_linux_processors[processor].core,
-			       sizeof(struct cpuinfo_core));
-			/* Update uarch core count. */
-			uarchs[valid_uarchs_index - 1].core_count++;
+		/* Copy cpuinfo_package information, if this is the first
+		 * processor of the package. */
+		if (starts_package(&riscv_linux_processors[processor], previous)) {
+			memcpy(&packages[valid_packages_index],
+			       &riscv_linux_processors[processor].package,
+			       sizeof(struct cpuinfo_package));
+			packages[valid_packages_index].processor_start = valid_processors_index;
+			packages[valid_packages_index].processor_count = 0;
+			packages[valid_packages_index].core_start = valid_cores_index;
+			packages[valid_packages_index].core_count = 0;
+			packages[valid_packages_index].cluster_start = valid_clusters_index;
+			packages[valid_packages_index].cluster_count = 0;
+			valid_packages_index++;
 		}
+		struct cpuinfo_package* package = &packages[valid_packages_index - 1];
 
-		/* Copy cpuinfo_cluster information, if this is the leader. */
-		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
-			memcpy(&clusters[valid_clusters_index++],
+		/* Copy cpuinfo_cluster information, if this is the first
+		 * processor of the cluster. */
+		if (starts_cluster(&riscv_linux_processors[processor], previous)) {
+			memcpy(&clusters[valid_clusters_index],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
+			clusters[valid_clusters_index].processor_start = valid_processors_index;
+			clusters[valid_clusters_index].processor_count = 0;
+			clusters[valid_clusters_index].core_start = valid_cores_index;
+			clusters[valid_clusters_index].core_count = 0;
+			clusters[valid_clusters_index].package = package;
+			valid_clusters_index++;
+			package->cluster_count++;
 		}
+		struct cpuinfo_cluster* cluster = &clusters[valid_clusters_index - 1];
 
-		/* Copy cpuinfo_package information, if this is the leader. */
-		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
-			memcpy(&packages[valid_packages_index++],
-			       &riscv_linux_processors[processor].package,
-			       sizeof(struct cpuinfo_package));
+		/* Copy cpuinfo_core information, if this is the first processor
+		 * of the core. */
+		if (starts_core(&riscv_linux_processors[processor], previous)) {
+			memcpy(&cores[valid_cores_index],
+			       &riscv_linux_processors[processor].core,
+			       sizeof(struct cpuinfo_core));
+			cores[valid_cores_index].processor_start = valid_processors_index;
+			cores[valid_cores_index].processor_count = 0;
+			cores[valid_cores_index].cluster = cluster;
+			cores[valid_cores_index].package = package;
+			valid_cores_index++;
+			cluster->core_count++;
+			package->core_count++;
+			/* Update uarch core count. */
+			uarchs[uarch_index].core_count++;
 		}
+		struct cpuinfo_core* core = &cores[valid_cores_index - 1];
+		previous = &riscv_linux_processors[processor];
 
-		/* Commit pointers on the final structures. */
-		processors[valid_processors_index - 1].core = &cores[valid_cores_index - 1];
-		processors[valid_processors_index - 1].cluster = &clusters[valid_clusters_index - 1];
-		processors[valid_processors_index - 1].package = &packages[valid_packages_index - 1];
-
-		cores[valid_cores_index - 1].cluster = &clusters[valid_clusters_index - 1];
-		cores[valid_cores_index - 1].package = &packages[valid_packages_index - 1];
+		/* Copy cpuinfo_processor information. */
+		memcpy(&processors[valid_processors_index],
+		       &riscv_linux_processors[processor].processor,
+		       sizeof(struct cpuinfo_processor));
+		processors[valid_processors_index].core = core;
+		processors[valid_processors_index].cluster = cluster;
+		processors[valid_processors_index].package = package;
+		valid_processors_index++;
+		core->processor_count++;
+		cluster->processor_count++;
+		package->processor_count++;
 
-		clusters[valid_clusters_index - 1].package = &packages[valid_packages_index - 1];
+		/* Update uarch processor count. */
+		uarchs[uarch_index].processor_count++;
 
 		linux_cpu_to_processor_map[linux_id] = &processors[valid_processors_index - 1];
-		linux_cpu_to_core_map[linux_id] = &cores[valid_cores_index - 1];
-		linux_cpu_to_uarch_index_map[linux_id] = valid_uarchs_index - 1;
+		linux_cpu_to_core_map[linux_id] = core;
+		linux_cpu_to_uarch_index_map[linux_id] = uarch_index;
 	}
 
 	/* Commit */
-- 
2.43.0


From 20ae8e51a8943d4d07ee870e8f548b914b6f8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:42 +0000
Subject: [PATCH 22/53] fix: fail RISC-V initialization when no processor is
 detected

An empty list of present processors led to successful initialization
without any processor.
---
 src/riscv/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 0c18c9f..51244e5 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -460,6 +460,11 @@ void cpuinfo_riscv_linux_init(void) {
 		}
 	}
 
+	if (valid_processors_count == 0) {
+		cpuinfo_log_error("failed to detect any processors");
+		goto cleanup;
+	}
+
 	/* Allocate and populate final public ABI structures. */
 	processors = calloc(valid_processors_count, sizeof(struct cpuinfo_processor));
 	if (processors == NULL) {
-- 
2.43.0


From fcc43d8850bdd12f4650a7f4f42e9d6668f0821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:30 +0000
Subject: [PATCH 23/53] fix: count offline ARM processors like the tables do

Processors which are present but not listed in /proc/cpuinfo are grouped
into clusters with the others, but were left out of the number of valid
processors, so the tables were cut short and could miss online processors.
Count all valid processors, as expected by the cluster heuristics, rather
than drop the offline ones.
---
 src/arm/linux/init.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 5619a31..98e5fa4 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -209,14 +209,9 @@ void cpuinfo_arm_linux_init(void) {
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		arm_linux_processors[i].system_processor_id = i;
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
-				/*
-				 * Processor is in possible and present lists,
-				 * and also reported in /proc/cpuinfo. This
-				 * processor is availble for compute.
-				 */
-				valid_processors += 1;
-			} else {
+			valid_processors += 1;
+
+			if (!(arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {
 				/*
 				 * Processor is in possible and present lists,
 				 * but not reported in /proc/cpuinfo. This is
@@ -224,8 +219,6 @@ void cpuinfo_arm_linux_init(void) {
 				 * not reported if they are offline.
 				 */
 				cpuinfo_log_info("processor %" PRIu32 " is not listed in /proc/cpuinfo", i);
-				arm_linux_processors[i].flags &= ~CPUINFO_LINUX_FLAG_VALID;
-				continue;
 			}
 
 			if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_MIDR)) {
-- 
2.43.0


From 2675cb187764894cd331e6a44089f3b2b2e509e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:50 +0000
Subject: [PATCH 24/53] fix: recognize Sapphire Rapids and Emerald Rapids

Cores of these processors were reported with unknown microarchitecture, and
the CORE.known_uarch test fails when run on them.
---
 include/cpuinfo.h | 2 ++
 src/x86/uarch.c   | 3 +++
 tools/cpu-info.c  | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/include/cpuinfo.h b/include/cpuinfo.h
index 5f93819..a18add3 100644
--- a/include/cpuinfo.h
+++ b/include/cpuinfo.h
@@ -353,6 +353,8 @@ enum cpuinfo_uarch {
 	cpuinfo_uarch_palm_cove = 0x0010020B,
 	/** Intel Sunny Cove microarchitecture (10 nm, Ice Lake). */
 	cpuinfo_uarch_sunny_cove = 0x0010020C,
+	/** Intel Golden Cove microarchitecture (Intel 7, Sapphire Rapids, Emerald Rapids). */
+	cpuinfo_uarch_golden_cove = 0x0010020E,
 
 	/** Pentium 4 with Willamette, Northwood, or Foster cores. */
 	cpuinfo_uarch_willamette = 0x00100300,
diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index a21eabb..f03ff62 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -167,6 +167,9 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 						case 0x7D: // Ice Lake-Y
 						case 0x7E: // Ice Lake-U
 							return cpuinfo_uarch_sunny_cove;
+						case 0x8F: // Sapphire Rapids
+						case 0xCF: // Emerald Rapids
+							return cpuinfo_uarch_golden_cove;
 
 						/* Low-power cores */
 						case 0x1C: // Diamondville,
diff --git a/tools/cpu-info.c b/tools/cpu-info.c
index ca3ebfa..13fe278 100644
--- a/tools/cpu-info.c
+++ b/tools/cpu-info.c
@@ -80,6 +80,8 @@ static const char* uarch_to_string(enum cpuinfo_uarch uarch) {
 			return "Palm Cove";
 		case cpuinfo_uarch_sunny_cove:
 			return "Sunny Cove";
+		case cpuinfo_uarch_golden_cove:
+			return "Golden Cove";
 		case cpuinfo_uarch_willamette:
 			return "Willamette";
 		case cpuinfo_uarch_prescott:
-- 
2.43.0


From 05a4497414d4f88043a281c4f0f874bc555cea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:44 +0000
Subject: [PATCH 25/53] fix: ignore broadcast APIC ID in /proc/cpuinfo

APIC ID 0xFFFFFFFF marks that no core, cluster or package was seen yet, and
a processor with this ID was stored before the start of the tables.
---
 src/x86/linux/cpuinfo.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index f5c42a2..4cec29b 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -65,6 +65,12 @@ static void parse_apic_id(
 		apic_id = apic_id * 10 + digit;
 	}
 
+	if (apic_id == UINT32_MAX) {
+		/* Broadcast ID, which no processor can have */
+		cpuinfo_log_warning("invalid APIC ID %" PRIu32 " in /proc/cpuinfo is ignored", apic_id);
+		return;
+	}
+
 	processor->apic_id = apic_id;
 	processor->flags |= CPUINFO_LINUX_FLAG_APIC_ID;
 }
-- 
2.43.0


From 23d0523cea9346b570d74cae2e78cf6fef3eae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:33 +0000
Subject: [PATCH 26/53] fix: do not use a part of a processor list that cannot
 be read

The entries of a processor list were applied as they were read.  When a later
read failed, the callback had already seen the first part of the list, and a
caller which ignores the result kept using it.  Collect the text first and
parse it when the buffer is full or the file ends.
---
 src/linux/cpulist.c | 55 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/linux/cpulist.c b/src/linux/cpulist.c
index f6c4c29..1e28c6c 100644
--- a/src/linux/cpulist.c
+++ b/src/linux/cpulist.c
@@ -188,39 +188,44 @@ bool cpuinfo_linux_parse_cpulist(const char* filename, cpuinfo_cpulist_callback
 		}
 
 		position += (size_t)bytes_read;
-		const char* data_end = data_start + (size_t)bytes_read;
+		char* data_end = data_start + (size_t)bytes_read;
+		if (bytes_read != 0 && data_end != buffer_end) {
+			/* Parse entries only when the buffer is full or the file
+			 * ends, to avoid using a part of a list that can not be
+			 * read to the end */
+			data_start = data_end;
+			continue;
+		}
+
 		const char* entry_start = buffer;
+		const char* entry_end;
+		do {
+			/* Find the end of the entry, as indicated by a
+			 * comma (',') */
+			for (entry_end = entry_start; entry_end != data_end; entry_end++) {
+				if (*entry_end == ',') {
+					break;
+				}
+			}
+
+			/*
+			 * If we located separator at the end of the
+			 * entry, parse it. Otherwise, there may be more
+			 * data at the end; read the file once again.
+			 */
+			if (entry_end != data_end) {
+				const bool entry_status = parse_entry(entry_start, entry_end, callback, context);
+				status &= entry_status;
+				entry_start = entry_end + 1;
+			}
+		} while (entry_end != data_end);
 
 		if (bytes_read == 0) {
 			/* No more data in the file: process the remaining text
 			 * in the buffer as a single entry */
-			const char* entry_end = data_end;
 			const bool entry_status = parse_entry(entry_start, entry_end, callback, context);
 			status &= entry_status;
 		} else {
-			const char* entry_end;
-			do {
-				/* Find the end of the entry, as indicated by a
-				 * comma (',') */
-				for (entry_end = entry_start; entry_end != data_end; entry_end++) {
-					if (*entry_end == ',') {
-						break;
-					}
-				}
-
-				/*
-				 * If we located separator at the end of the
-				 * entry, parse it. Otherwise, there may be more
-				 * data at the end; read the file once again.
-				 */
-				if (entry_end != data_end) {
-					const bool entry_status =
-						parse_entry(entry_start, entry_end, callback, context);
-					status &= entry_status;
-					entry_start = entry_end + 1;
-				}
-			} while (entry_end != data_end);
-
 			/* Move remaining partial entry data at the end to the
 			 * beginning of the buffer */
 			const size_t entry_length = (size_t)(entry_end - entry_start);
-- 
2.43.0


From e2facb82a1925e6cd13e14debdd34301031904ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:42 +0000
Subject: [PATCH 27/53] fix: release partial tables when a cache allocation
 fails on x86 Mach

When one of the cache tables cannot be allocated, detection returned at once
and leaked every table built so far. Go through the common cleanup instead.
---
 src/x86/mach/init.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index b8ea604..3c69e43 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -205,7 +205,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L1I caches",
 				l1_count * sizeof(struct cpuinfo_cache),
 				l1_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l1_count; c++) {
 			l1i[c] = (struct cpuinfo_cache){
@@ -231,7 +231,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L1D caches",
 				l1_count * sizeof(struct cpuinfo_cache),
 				l1_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l1_count; c++) {
 			l1d[c] = (struct cpuinfo_cache){
@@ -257,7 +257,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L2 caches",
 				l2_count * sizeof(struct cpuinfo_cache),
 				l2_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l2_count; c++) {
 			l2[c] = (struct cpuinfo_cache){
@@ -283,7 +283,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L3 caches",
 				l3_count * sizeof(struct cpuinfo_cache),
 				l3_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l3_count; c++) {
 			l3[c] = (struct cpuinfo_cache){
@@ -309,7 +309,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L4 caches",
 				l4_count * sizeof(struct cpuinfo_cache),
 				l4_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l4_count; c++) {
 			l4[c] = (struct cpuinfo_cache){
-- 
2.43.0


From 46535b6619d4a90e48cb99358d6171392d49292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:42 +0000
Subject: [PATCH 28/53] fix: tolerate contradictory processor counts on Mach

A sysctl that fails or disagrees with the others left fewer threads than cores,
or cores that do not divide among the packages. Detection then divided by zero
or wrote past the end of a table. Fall back to one thread per core and to one
package, and ignore a cache sharing count that does not divide the threads.
---
 src/mach/topology.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mach/topology.c b/src/mach/topology.c
index 53160ce..770133b 100644
--- a/src/mach/topology.c
+++ b/src/mach/topology.c
@@ -15,6 +15,7 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 	size_t sizeof_cores = sizeof(cores);
 	if (sysctlbyname("hw.physicalcpu_max", &cores, &sizeof_cores, NULL, 0) != 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.physicalcpu_max\") failed: %s", strerror(errno));
+		cores = 1;
 	} else if (cores <= 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.physicalcpu_max\") returned invalid value %d", cores);
 		cores = 1;
@@ -24,8 +25,10 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 	size_t sizeof_threads = sizeof(threads);
 	if (sysctlbyname("hw.logicalcpu_max", &threads, &sizeof_threads, NULL, 0) != 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.logicalcpu_max\") failed: %s", strerror(errno));
-	} else if (threads <= 0) {
-		cpuinfo_log_error("sysctlbyname(\"hw.logicalcpu_max\") returned invalid value %d", threads);
+		threads = cores;
+	} else if (threads <= 0 || threads % cores != 0) {
+		cpuinfo_log_error(
+			"sysctlbyname(\"hw.logicalcpu_max\") returned invalid value %d for %d cores", threads, cores);
 		threads = cores;
 	}
 
@@ -34,8 +37,10 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 	size_t sizeof_packages = sizeof(packages);
 	if (sysctlbyname("hw.packages", &packages, &sizeof_packages, NULL, 0) != 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.packages\") failed: %s", strerror(errno));
-	} else if (packages <= 0) {
-		cpuinfo_log_error("sysctlbyname(\"hw.packages\") returned invalid value %d", packages);
+		packages = 1;
+	} else if (packages <= 0 || cores % packages != 0) {
+		cpuinfo_log_error(
+			"sysctlbyname(\"hw.packages\") returned invalid value %d for %d cores", packages, cores);
 		packages = 1;
 	}
 #endif
@@ -60,7 +65,9 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 			}
 			for (size_t i = 0; i < cache_configs; i++) {
 				cpuinfo_log_debug("mach hw.cacheconfig[%zu]: %" PRIu64, i, cacheconfig[i]);
-				topology.threads_per_cache[i] = cacheconfig[i];
+				if (cacheconfig[i] != 0 && topology.threads % cacheconfig[i] == 0) {
+					topology.threads_per_cache[i] = cacheconfig[i];
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6c8331e790b2b3e25bbf197896575b6647e56ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:42 +0000
Subject: [PATCH 29/53] fix: reject contradictory processor counts on FreeBSD

Cores that do not divide among the packages made processors and cores refer to
packages past the end of the table. The number of threads could also wrap
around. Report both as a failed detection.
---
 src/freebsd/topology.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/freebsd/topology.c b/src/freebsd/topology.c
index 675a81f..ff7c757 100644
--- a/src/freebsd/topology.c
+++ b/src/freebsd/topology.c
@@ -78,7 +78,7 @@ struct cpuinfo_freebsd_topology cpuinfo_freebsd_detect_topology(void) {
 	if (topology.cores == 0) {
 		goto fail;
 	}
-	if (topology.cores < topology.packages) {
+	if (topology.cores % topology.packages != 0) {
 		cpuinfo_log_error("invalid numbers of package and core: %d %d", topology.packages, topology.cores);
 		goto fail;
 	}
@@ -86,6 +86,11 @@ struct cpuinfo_freebsd_topology cpuinfo_freebsd_detect_topology(void) {
 	if (topology.threads_per_core == 0) {
 		goto fail;
 	}
+	if (topology.threads_per_core > UINT32_MAX / topology.cores) {
+		cpuinfo_log_error(
+			"invalid numbers of core and threads per core: %d %d", topology.cores, topology.threads_per_core);
+		goto fail;
+	}
 	cpuinfo_log_debug(
 		"freebsd topology: packages = %d, cores = %d, "
 		"threads_per_core = %d",
-- 
2.43.0


From 9f0f364e70fdf6772b3f400bd39b62600582e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:42 +0000
Subject: [PATCH 30/53] fix: do not count level 1 caches that are not there

On Mach and FreeBSD a processor with only one kind of level 1 cache was reported
to have as many of the other kind, with no table behind the count.
---
 src/arm/mach/init.c    | 4 ++--
 src/x86/freebsd/init.c | 4 ++--
 src/x86/mach/init.c    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index c4e6521..b0666b9 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -662,8 +662,8 @@ void cpuinfo_arm_mach_init(void) {
 	cpuinfo_clusters_count = num_clusters;
 	cpuinfo_packages_count = mach_topology.packages;
 	cpuinfo_uarchs_count = num_clusters;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);
diff --git a/src/x86/freebsd/init.c b/src/x86/freebsd/init.c
index 797fa24..0b911fa 100644
--- a/src/x86/freebsd/init.c
+++ b/src/x86/freebsd/init.c
@@ -361,8 +361,8 @@ void cpuinfo_x86_freebsd_init(void) {
 	cpuinfo_cores_count = freebsd_topology.cores;
 	cpuinfo_clusters_count = freebsd_topology.packages;
 	cpuinfo_packages_count = freebsd_topology.packages;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;
diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index 3c69e43..bf241d6 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -343,8 +343,8 @@ void cpuinfo_x86_mach_init(void) {
 	cpuinfo_cores_count = mach_topology.cores;
 	cpuinfo_clusters_count = mach_topology.packages;
 	cpuinfo_packages_count = mach_topology.packages;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;
-- 
2.43.0


From ad15ca4a5953bc10299717fc2af114e5ca2265ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:30 +0000
Subject: [PATCH 31/53] fix: count processors, not cores, of ARM clusters and
 caches on Mach

With more than one thread per core, clusters, microarchitectures and shared
caches covered only part of the processors that refer to them.
---
 src/arm/mach/init.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index b0666b9..ae89b20 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -475,12 +475,12 @@ void cpuinfo_arm_mach_init(void) {
 			cluster_idx++;
 			uarchs[cluster_idx] = (struct cpuinfo_uarch_info){
 				.uarch = cores[i].uarch,
-				.processor_count = 1,
+				.processor_count = threads_per_core,
 				.core_count = 1,
 			};
 			clusters[cluster_idx] = (struct cpuinfo_cluster){
 				.processor_start = i * threads_per_core,
-				.processor_count = 1,
+				.processor_count = threads_per_core,
 				.core_start = i,
 				.core_count = 1,
 				.cluster_id = cluster_idx,
@@ -489,9 +489,9 @@ void cpuinfo_arm_mach_init(void) {
 				.uarch = cores[i].uarch,
 			};
 		} else {
-			uarchs[cluster_idx].processor_count++;
+			uarchs[cluster_idx].processor_count += threads_per_core;
 			uarchs[cluster_idx].core_count++;
-			clusters[cluster_idx].processor_count++;
+			clusters[cluster_idx].processor_count += threads_per_core;
 			clusters[cluster_idx].core_count++;
 		}
 		cores[i].cluster = &clusters[cluster_idx];
@@ -529,7 +529,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l2 = 0, l2_count = 0;
 	if (l2_cache_size != 0) {
 		/* Assume L2 cache is shared between all cores */
-		threads_per_l2 = mach_topology.cores;
+		threads_per_l2 = mach_topology.threads;
 		l2_count = 1;
 		cpuinfo_log_debug("detected %" PRIu32 " L2 caches", l2_count);
 	}
@@ -537,7 +537,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l3 = 0, l3_count = 0;
 	if (l3_cache_size != 0) {
 		/* Assume L3 cache is shared between all cores */
-		threads_per_l3 = mach_topology.cores;
+		threads_per_l3 = mach_topology.threads;
 		l3_count = 1;
 		cpuinfo_log_debug("detected %" PRIu32 " L3 caches", l3_count);
 	}
-- 
2.43.0


From 8793681bffeb75ade3da7eb16a6c990e3c276f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:30 +0000
Subject: [PATCH 32/53] fix: avoid division by zero when Mach does not report
 the cache line size

The number of sets is computed from the line size, which is zero if the sysctl
fails. Assume 64 bytes then, and divide in two steps as the product of
associativity and line size may wrap around.
---
 src/arm/mach/init.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index ae89b20..e05d6bb 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -507,7 +507,12 @@ void cpuinfo_arm_mach_init(void) {
 		packages[i].cluster_count = num_clusters;
 	}
 
-	const uint32_t cacheline_size = get_sys_info(HW_CACHELINE, "HW_CACHELINE");
+	uint32_t cacheline_size = get_sys_info(HW_CACHELINE, "HW_CACHELINE");
+	if (cacheline_size == 0) {
+		cacheline_size = 64;
+		cpuinfo_log_warning(
+			"Mach kernel did not report cache line size; assume %" PRIu32 " bytes", cacheline_size);
+	}
 	const uint32_t l1d_cache_size = get_sys_info(HW_L1DCACHESIZE, "HW_L1DCACHESIZE");
 	const uint32_t l1i_cache_size = get_sys_info(HW_L1ICACHESIZE, "HW_L1ICACHESIZE");
 	const uint32_t l2_cache_size = get_sys_info(HW_L2CACHESIZE, "HW_L2CACHESIZE");
@@ -555,7 +560,7 @@ void cpuinfo_arm_mach_init(void) {
 			l1i[c] = (struct cpuinfo_cache){
 				.size = l1i_cache_size,
 				.associativity = l1_cache_associativity,
-				.sets = l1i_cache_size / (l1_cache_associativity * cacheline_size),
+				.sets = l1i_cache_size / l1_cache_associativity / cacheline_size,
 				.partitions = cache_partitions,
 				.line_size = cacheline_size,
 				.flags = cache_flags,
@@ -581,7 +586,7 @@ void cpuinfo_arm_mach_init(void) {
 			l1d[c] = (struct cpuinfo_cache){
 				.size = l1d_cache_size,
 				.associativity = l1_cache_associativity,
-				.sets = l1d_cache_size / (l1_cache_associativity * cacheline_size),
+				.sets = l1d_cache_size / l1_cache_associativity / cacheline_size,
 				.partitions = cache_partitions,
 				.line_size = cacheline_size,
 				.flags = cache_flags,
@@ -607,7 +612,7 @@ void cpuinfo_arm_mach_init(void) {
 			l2[c] = (struct cpuinfo_cache){
 				.size = l2_cache_size,
 				.associativity = l2_cache_associativity,
-				.sets = l2_cache_size / (l2_cache_associativity * cacheline_size),
+				.sets = l2_cache_size / l2_cache_associativity / cacheline_size,
 				.partitions = cache_partitions,
 				.line_size = cacheline_size,
 				.flags = cache_flags,
@@ -633,7 +638,7 @@ void cpuinfo_arm_mach_init(void) {
 			l3[c] = (struct cpuinfo_cache){
 				.size = l3_cache_size,
 				.associativity = l3_cache_associativity,
-				.sets = l3_cache_size / (l3_cache_associativity * cacheline_size),
+				.sets = l3_cache_size / l3_cache_associativity / cacheline_size,
 				.partitions = cache_partitions,
 				.line_size = cacheline_size,
 				.flags = cache_flags,
-- 
2.43.0


From 923da0c2e2e90847ffc2997ff174d60fe11f0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:30 +0000
Subject: [PATCH 33/53] fix: keep ARM clusters inside one package on Mach

Every package was described as holding all clusters of the system, and a cluster
could span packages. Start a new cluster at each package.
---
 src/arm/mach/init.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index e05d6bb..7ba7fe0 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -430,6 +430,7 @@ void cpuinfo_arm_mach_init(void) {
 	}
 
 	uint32_t num_clusters = 1;
+	uint32_t num_uarchs = 1;
 	for (uint32_t i = 0; i < mach_topology.cores; i++) {
 		cores[i] = (struct cpuinfo_core){
 			.processor_start = i * threads_per_core,
@@ -440,6 +441,9 @@ void cpuinfo_arm_mach_init(void) {
 			.uarch = decode_uarch(cpu_family, i, mach_topology.cores),
 		};
 		if (i != 0 && cores[i].uarch != cores[i - 1].uarch) {
+			num_uarchs++;
+		}
+		if (i != 0 && (cores[i].uarch != cores[i - 1].uarch || cores[i].package != cores[i - 1].package)) {
 			num_clusters++;
 		}
 	}
@@ -461,36 +465,45 @@ void cpuinfo_arm_mach_init(void) {
 			num_clusters);
 		goto cleanup;
 	}
-	uarchs = calloc(num_clusters, sizeof(struct cpuinfo_uarch_info));
+	uarchs = calloc(num_uarchs, sizeof(struct cpuinfo_uarch_info));
 	if (uarchs == NULL) {
 		cpuinfo_log_error(
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " uarchs",
-			num_clusters * sizeof(enum cpuinfo_uarch),
-			num_clusters);
+			num_uarchs * sizeof(struct cpuinfo_uarch_info),
+			num_uarchs);
 		goto cleanup;
 	}
 	uint32_t cluster_idx = UINT32_MAX;
+	uint32_t uarch_idx = UINT32_MAX;
 	for (uint32_t i = 0; i < mach_topology.cores; i++) {
 		if (i == 0 || cores[i].uarch != cores[i - 1].uarch) {
-			cluster_idx++;
-			uarchs[cluster_idx] = (struct cpuinfo_uarch_info){
+			uarch_idx++;
+			uarchs[uarch_idx] = (struct cpuinfo_uarch_info){
 				.uarch = cores[i].uarch,
 				.processor_count = threads_per_core,
 				.core_count = 1,
 			};
+		} else {
+			uarchs[uarch_idx].processor_count += threads_per_core;
+			uarchs[uarch_idx].core_count++;
+		}
+		if (i == 0 || cores[i].uarch != cores[i - 1].uarch || cores[i].package != cores[i - 1].package) {
+			cluster_idx++;
 			clusters[cluster_idx] = (struct cpuinfo_cluster){
 				.processor_start = i * threads_per_core,
 				.processor_count = threads_per_core,
 				.core_start = i,
 				.core_count = 1,
-				.cluster_id = cluster_idx,
+				.cluster_id = cores[i].package->cluster_count,
 				.package = cores[i].package,
 				.vendor = cores[i].vendor,
 				.uarch = cores[i].uarch,
 			};
+			struct cpuinfo_package* package = packages + i / cores_per_package;
+			if (package->cluster_count++ == 0) {
+				package->cluster_start = cluster_idx;
+			}
 		} else {
-			uarchs[cluster_idx].processor_count += threads_per_core;
-			uarchs[cluster_idx].core_count++;
 			clusters[cluster_idx].processor_count += threads_per_core;
 			clusters[cluster_idx].core_count++;
 		}
@@ -502,11 +515,6 @@ void cpuinfo_arm_mach_init(void) {
 		processors[i].cluster = cores[core_id].cluster;
 	}
 
-	for (uint32_t i = 0; i < mach_topology.packages; i++) {
-		packages[i].cluster_start = 0;
-		packages[i].cluster_count = num_clusters;
-	}
-
 	uint32_t cacheline_size = get_sys_info(HW_CACHELINE, "HW_CACHELINE");
 	if (cacheline_size == 0) {
 		cacheline_size = 64;
@@ -666,7 +674,7 @@ void cpuinfo_arm_mach_init(void) {
 	cpuinfo_cores_count = mach_topology.cores;
 	cpuinfo_clusters_count = num_clusters;
 	cpuinfo_packages_count = mach_topology.packages;
-	cpuinfo_uarchs_count = num_clusters;
+	cpuinfo_uarchs_count = num_uarchs;
 	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
-- 
2.43.0


From 857cc4d8d9d3d66a6b461d0127d022c7e9b3abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:30 +0000
Subject: [PATCH 34/53] fix: publish the numbers of cores and level 1 caches on
 Emscripten

On x86 hosts with two threads per core the number of processors was published as
the number of cores and level 1 caches, so that callers read past the end of
those tables. Also make the tables visible before the library counts as
initialized, as on the other systems.
---
 src/emscripten/init.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/emscripten/init.c b/src/emscripten/init.c
index c239324..6fa972a 100644
--- a/src/emscripten/init.c
+++ b/src/emscripten/init.c
@@ -65,12 +65,12 @@ void cpuinfo_emscripten_init(void) {
 			processor_count);
 		goto cleanup;
 	}
-	cores = calloc(processor_count, sizeof(struct cpuinfo_core));
+	cores = calloc(core_count, sizeof(struct cpuinfo_core));
 	if (cores == NULL) {
 		cpuinfo_log_error(
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " cores",
-			processor_count * sizeof(struct cpuinfo_core),
-			processor_count);
+			core_count * sizeof(struct cpuinfo_core),
+			core_count);
 		goto cleanup;
 	}
 	clusters = calloc(cluster_count, sizeof(struct cpuinfo_cluster));
@@ -251,8 +251,8 @@ void cpuinfo_emscripten_init(void) {
 	cpuinfo_clusters = clusters;
 	cpuinfo_packages = &static_package;
 
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = processor_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = processor_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = core_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = core_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	if (is_x86) {
 		cpuinfo_cache_count[cpuinfo_cache_level_3] = 1;
@@ -265,12 +265,14 @@ void cpuinfo_emscripten_init(void) {
 	};
 
 	cpuinfo_processors_count = processor_count;
-	cpuinfo_cores_count = processor_count;
+	cpuinfo_cores_count = core_count;
 	cpuinfo_clusters_count = cluster_count;
 	cpuinfo_packages_count = 1;
 
 	cpuinfo_max_cache_size = is_x86 ? 128 * 1024 * 1024 : 8 * 1024 * 1024;
 
+	__sync_synchronize();
+
 	cpuinfo_is_initialized = true;
 
 	processors = NULL;
-- 
2.43.0


From 1bb14eb92a98d74be899861136de4cef89bfbe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 35/53] fix: release the processor relations buffer on x86
 Windows

The buffer filled by GetLogicalProcessorInformationEx was never freed.
---
 src/x86/windows/init.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index d233280..db46cdb 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -640,6 +640,9 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 	l1i = l1d = l2 = l3 = l4 = NULL;
 
 cleanup:
+	if (processor_infos != NULL) {
+		HeapFree(heap, 0, processor_infos);
+	}
 	if (processors != NULL) {
 		HeapFree(heap, 0, processors);
 	}
-- 
2.43.0


From 87363c95513287d5642a77e5a2e745baa2817f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 36/53] fix: put processors in the cluster of their package on
 x86 Windows

All processors and cores referred to the cluster of the first package. The
clusters of the other packages were left empty.
---
 src/x86/windows/init.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index db46cdb..c9808d9 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -228,6 +228,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
 				const uint32_t processor_id = group_processors_start + group_processor_id;
 				processors[processor_id].package = (const struct cpuinfo_package*)NULL + package_id;
+				processors[processor_id].cluster = (const struct cpuinfo_cluster*)NULL + package_id;
 				processors[processor_id].windows_group_id = (uint16_t)group_id;
 				processors[processor_id].windows_processor_id = (uint16_t)group_processor_id;
 				processors[processor_id].apic_id = package_apic_id;
-- 
2.43.0


From 658e6ecf31c5b33683f6405f4ee8b48435791cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 37/53] fix: count active rather than possible processors on
 Windows

On systems where processors can be added, the maximum count includes processors
that are not there. No core or package lists them, so they were described as
more processors of the first core, or made detection crash on ARM.
---
 src/arm/windows/init-by-logical-sys-info.c | 4 ++--
 src/x86/windows/init.c                     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index ef6b144..de0dcd6 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -129,7 +129,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	HANDLE heap = GetProcessHeap();
 
 	/* 1. Count available logical processor groups and processors */
-	const uint32_t max_group_count = (uint32_t)GetMaximumProcessorGroupCount();
+	const uint32_t max_group_count = (uint32_t)GetActiveProcessorGroupCount();
 	cpuinfo_log_debug("detected %" PRIu32 " processor group(s)", max_group_count);
 	/* We need to store the absolute processor ID offsets for every groups,
 	 * because
@@ -376,7 +376,7 @@ static uint32_t count_logical_processors(const uint32_t max_group_count, uint32_
 	uint32_t nr_of_processors = 0;
 
 	for (uint32_t i = 0; i < max_group_count; i++) {
-		uint32_t nr_of_processors_per_group = GetMaximumProcessorCount((WORD)i);
+		uint32_t nr_of_processors_per_group = GetActiveProcessorCount((WORD)i);
 		cpuinfo_log_debug(
 			"detected %" PRIu32 " processor(s) in group %" PRIu32 "", nr_of_processors_per_group, i);
 		global_proc_index_per_group[i] = nr_of_processors;
diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index c9808d9..6214ac2 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -129,15 +129,15 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		max(x86_processor.topology.thread_bits_offset + x86_processor.topology.thread_bits_length,
 		    x86_processor.topology.core_bits_offset + x86_processor.topology.core_bits_length);
 
-	/* WINE doesn't implement GetMaximumProcessorGroupCount and aborts when
+	/* WINE doesn't implement GetActiveProcessorGroupCount and aborts when
 	 * calling it */
-	const uint32_t max_group_count = is_wine ? 1 : (uint32_t)GetMaximumProcessorGroupCount();
+	const uint32_t max_group_count = is_wine ? 1 : (uint32_t)GetActiveProcessorGroupCount();
 	cpuinfo_log_debug("detected %" PRIu32 " processor groups", max_group_count);
 
 	uint32_t processors_count = 0;
 	uint32_t* processors_per_group = (uint32_t*)CPUINFO_ALLOCA(max_group_count * sizeof(uint32_t));
 	for (uint32_t i = 0; i < max_group_count; i++) {
-		processors_per_group[i] = GetMaximumProcessorCount((WORD)i);
+		processors_per_group[i] = GetActiveProcessorCount((WORD)i);
 		cpuinfo_log_debug("detected %" PRIu32 " processors in group %" PRIu32, processors_per_group[i], i);
 		processors_count += processors_per_group[i];
 	}
-- 
2.43.0


From 5773da7859f07ec6477399abcb4feb920f0e69a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 38/53] fix: parse only the processor relations that were
 returned on x86 Windows

The relations can be shorter when they are read than when their size is queried,
if processors change in between. Detection then parsed uninitialized memory.
---
 src/x86/windows/init.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index 6214ac2..6018866 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -181,7 +181,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		}
 	}
 
-	DWORD max_info_size = max(cores_info_size, packages_info_size);
+	const DWORD max_info_size = max(cores_info_size, packages_info_size);
 
 	processor_infos = HeapAlloc(heap, 0, max_info_size);
 	if (processor_infos == NULL) {
@@ -191,7 +191,8 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		goto cleanup;
 	}
 
-	if (GetLogicalProcessorInformationEx(RelationProcessorPackage, processor_infos, &max_info_size) == FALSE) {
+	packages_info_size = max_info_size;
+	if (GetLogicalProcessorInformationEx(RelationProcessorPackage, processor_infos, &packages_info_size) == FALSE) {
 		cpuinfo_log_error(
 			"failed to query processor packages information: error %" PRIu32, (uint32_t)GetLastError());
 		goto cleanup;
@@ -239,8 +240,8 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		}
 	}
 
-	max_info_size = max(cores_info_size, packages_info_size);
-	if (GetLogicalProcessorInformationEx(RelationProcessorCore, processor_infos, &max_info_size) == FALSE) {
+	cores_info_size = max_info_size;
+	if (GetLogicalProcessorInformationEx(RelationProcessorCore, processor_infos, &cores_info_size) == FALSE) {
 		cpuinfo_log_error(
 			"failed to query processor cores information: error %" PRIu32, (uint32_t)GetLastError());
 		goto cleanup;
-- 
2.43.0


From eff3a40487ec01c0b49516ffd175953e8c52874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 39/53] fix: reject processor relations that do not match the
 groups on x86 Windows

Packages and cores that mention processors or groups which are not there made
detection write past the end of its tables. Processors that no package or core
mentions, and packages and cores without processors, were described as part of
the first core. Report such relations as a failed detection.
---
 src/x86/windows/init.c | 54 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index 6018866..4ee34e5 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -199,6 +199,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 	}
 
 	uint32_t packages_count = 0;
+	uint32_t packages_processors_count = 0;
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX packages_info_end =
 		(PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX)((uintptr_t)processor_infos + packages_info_size);
 	for (PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX package_info = processor_infos; package_info < packages_info_end;
@@ -212,12 +213,18 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 
 		/* We assume that packages are reported in APIC order */
 		const uint32_t package_id = packages_count++;
+		uint32_t package_processors_count = 0;
 		/* Reconstruct package part of APIC ID */
 		const uint32_t package_apic_id = package_id << package_bits_offset;
 		/* Iterate processor groups and set the package part of APIC ID
 		 */
 		for (uint32_t i = 0; i < package_info->Processor.GroupCount; i++) {
 			const uint32_t group_id = package_info->Processor.GroupMask[i].Group;
+			if (group_id >= max_group_count) {
+				cpuinfo_log_error(
+					"unexpected processor group %" PRIu32 " of %" PRIu32, group_id, max_group_count);
+				goto cleanup;
+			}
 			/* Global index of the first logical processor belonging
 			 * to this group */
 			const uint32_t group_processors_start = processors_before_group[group_id];
@@ -227,7 +234,17 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 			KAFFINITY group_processors_mask = package_info->Processor.GroupMask[i].Mask;
 			while (group_processors_mask != 0) {
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
+				if (group_processor_id >= processors_per_group[group_id]) {
+					cpuinfo_log_error(
+						"unexpected processor %" PRIu32 " in group %" PRIu32 " of %" PRIu32
+						" processors",
+						group_processor_id,
+						group_id,
+						processors_per_group[group_id]);
+					goto cleanup;
+				}
 				const uint32_t processor_id = group_processors_start + group_processor_id;
+				package_processors_count++;
 				processors[processor_id].package = (const struct cpuinfo_package*)NULL + package_id;
 				processors[processor_id].cluster = (const struct cpuinfo_cluster*)NULL + package_id;
 				processors[processor_id].windows_group_id = (uint16_t)group_id;
@@ -238,6 +255,18 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 				group_processors_mask &= (group_processors_mask - 1);
 			}
 		}
+		if (package_processors_count == 0) {
+			cpuinfo_log_error("no processors in package %" PRIu32, package_id);
+			goto cleanup;
+		}
+		packages_processors_count += package_processors_count;
+	}
+	if (packages_processors_count == 0 || packages_processors_count != processors_count) {
+		cpuinfo_log_error(
+			"%" PRIu32 " processors in packages, expected %" PRIu32,
+			packages_processors_count,
+			processors_count);
+		goto cleanup;
 	}
 
 	cores_info_size = max_info_size;
@@ -248,6 +277,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 	}
 
 	uint32_t cores_count = 0;
+	uint32_t cores_processors_count = 0;
 	/* Index (among all cores) of the the first core on the current package
 	 */
 	uint32_t package_core_start = 0;
@@ -273,6 +303,11 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		 * ID */
 		for (uint32_t i = 0; i < core_info->Processor.GroupCount; i++) {
 			const uint32_t group_id = core_info->Processor.GroupMask[i].Group;
+			if (group_id >= max_group_count) {
+				cpuinfo_log_error(
+					"unexpected processor group %" PRIu32 " of %" PRIu32, group_id, max_group_count);
+				goto cleanup;
+			}
 			/* Global index of the first logical processor belonging
 			 * to this group */
 			const uint32_t group_processors_start = processors_before_group[group_id];
@@ -282,7 +317,17 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 			KAFFINITY group_processors_mask = core_info->Processor.GroupMask[i].Mask;
 			while (group_processors_mask != 0) {
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
+				if (group_processor_id >= processors_per_group[group_id]) {
+					cpuinfo_log_error(
+						"unexpected processor %" PRIu32 " in group %" PRIu32 " of %" PRIu32
+						" processors",
+						group_processor_id,
+						group_id,
+						processors_per_group[group_id]);
+					goto cleanup;
+				}
 				const uint32_t processor_id = group_processors_start + group_processor_id;
+				cores_processors_count++;
 
 				/* Check if this is the first core on a new
 				 * package */
@@ -313,6 +358,15 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 				group_processors_mask &= (group_processors_mask - 1);
 			}
 		}
+		if (smt_id == 0) {
+			cpuinfo_log_error("no processors in core %" PRIu32, core_id);
+			goto cleanup;
+		}
+	}
+	if (cores_processors_count != processors_count) {
+		cpuinfo_log_error(
+			"%" PRIu32 " processors in cores, expected %" PRIu32, cores_processors_count, processors_count);
+		goto cleanup;
 	}
 
 	cores = HeapAlloc(heap, HEAP_ZERO_MEMORY, cores_count * sizeof(struct cpuinfo_core));
-- 
2.43.0


From 6fcc66915ddfa1ac15c91fc7ef3a85f217dca048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 40/53] fix: release what was read from the registry on ARM
 Windows

The buffer with the processor name was never freed, and neither was the chip
description made from it. Detection also crashed if the name could not be copied.
---
 src/arm/windows/init.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init.c b/src/arm/windows/init.c
index 79e947a..70717e1 100644
--- a/src/arm/windows/init.c
+++ b/src/arm/windows/init.c
@@ -32,6 +32,11 @@ BOOL CALLBACK cpuinfo_arm_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 
 	cpuinfo_is_initialized = cpu_info_init_by_logical_sys_info(chip_info, chip_info->uarchs[0].vendor);
 
+	if (chip_info != &woa_chip_unknown) {
+		HeapFree(GetProcessHeap(), 0, chip_info->chip_name_string);
+		HeapFree(GetProcessHeap(), 0, chip_info);
+	}
+
 	return true;
 }
 
@@ -158,7 +163,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	uint64_t midr_qword = (uint32_t)read_registry_qword(cpu0_subkey, chip_midr_value);
 	if (midr_qword == 0) {
 		cpuinfo_log_error("Registry read error for MIDR value");
-		return NULL;
+		goto clean_up;
 	}
 	// MIDR is only 32 bits, so we need to cast it to uint32_t
 	uint32_t midr_value = (uint32_t)midr_qword;
@@ -168,7 +173,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	uint64_t frequency_mhz = read_registry_dword(cpu0_subkey, chip_mhz_value);
 	if (frequency_mhz == 0) {
 		cpuinfo_log_error("Registry read error for frequency value");
-		return NULL;
+		goto clean_up;
 	}
 	// Convert MHz to Hz
 	uint64_t frequency_hz = frequency_mhz * 1000000;
@@ -177,15 +182,23 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	chip_info = HeapAlloc(GetProcessHeap(), HEAP_ZERO_MEMORY, sizeof(struct woa_chip_info));
 	if (chip_info == NULL) {
 		cpuinfo_log_error("Heap allocation error for chip_info");
-		return NULL;
+		goto clean_up;
 	}
 
 	// set chip_info fields
 	chip_info->chip_name_string = wcsndup(text_buffer, CPUINFO_PACKAGE_NAME_MAX - 1);
+	if (chip_info->chip_name_string == NULL) {
+		cpuinfo_log_error("Heap allocation error for chip name");
+		HeapFree(GetProcessHeap(), 0, chip_info);
+		chip_info = NULL;
+		goto clean_up;
+	}
 	chip_info->uarchs[0] = get_core_info_from_midr(midr_value, frequency_hz);
 
 	cpuinfo_log_debug("detected chip model name: %ls", chip_info->chip_name_string);
 
+clean_up:
+	HeapFree(GetProcessHeap(), 0, text_buffer);
 	return chip_info;
 }
 
-- 
2.43.0


From cc07d4f4e3c77bca43819e705528a6615349e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 41/53] fix: report cores unknown to the library as unknown on
 ARM Windows

Decoding an unknown MIDR leaves the microarchitecture unset, and it was published
uninitialized. The list of microarchitectures was also left empty when the first
core is unknown, while its entries were still written.
---
 src/arm/windows/init-by-logical-sys-info.c | 6 +++---
 src/arm/windows/init.c                     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index de0dcd6..e44b7fa 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -274,7 +274,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	 * neighbors */
 	enum cpuinfo_uarch prev_uarch = cpuinfo_uarch_unknown;
 	for (uint32_t i = 0; i < nr_of_cores; i++) {
-		if (prev_uarch != cores[i].uarch) {
+		if (i == 0 || prev_uarch != cores[i].uarch) {
 			nr_of_uarchs++;
 			prev_uarch = cores[i].uarch;
 		}
@@ -289,7 +289,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	}
 	prev_uarch = cpuinfo_uarch_unknown;
 	for (uint32_t i = 0, uarch_index = 0; i < nr_of_cores; i++) {
-		if (prev_uarch != cores[i].uarch) {
+		if (i == 0 || prev_uarch != cores[i].uarch) {
 			if (i != 0) {
 				uarch_index++;
 			}
@@ -300,7 +300,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			uarchs[uarch_index].uarch = cores[i].uarch;
 			uarchs[uarch_index].core_count = 1;
 			uarchs[uarch_index].processor_count = cores[i].processor_count;
-		} else if (prev_uarch != cpuinfo_uarch_unknown) {
+		} else {
 			uarchs[uarch_index].core_count++;
 			uarchs[uarch_index].processor_count += cores[i].processor_count;
 		}
diff --git a/src/arm/windows/init.c b/src/arm/windows/init.c
index 70717e1..845294b 100644
--- a/src/arm/windows/init.c
+++ b/src/arm/windows/init.c
@@ -123,8 +123,8 @@ static wchar_t* wcsndup(const wchar_t* src, size_t n) {
 
 static struct core_info_by_chip_name get_core_info_from_midr(uint32_t midr, uint64_t frequency) {
 	struct core_info_by_chip_name info;
-	enum cpuinfo_vendor vendor;
-	enum cpuinfo_uarch uarch;
+	enum cpuinfo_vendor vendor = cpuinfo_vendor_unknown;
+	enum cpuinfo_uarch uarch = cpuinfo_uarch_unknown;
 
 #if CPUINFO_ARCH_ARM
 	bool has_vfpv4 = false;
-- 
2.43.0


From df48c32a052a6e770b82b8cf9f8d727bea02ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 42/53] fix: skip caches of kinds that are not described on ARM
 Windows

Unified and trace caches of level 1 and caches of other levels than 1 to 3 made
detection write through a null pointer. A line size or associativity that is not
reported made it divide by zero.
---
 src/arm/windows/init-by-logical-sys-info.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index e44b7fa..741a26f 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -689,6 +689,10 @@ static bool parse_relation_cache_info(
 			l3_counter++;
 			break;
 	}
+	if (current_cache == NULL) {
+		/* Not counted either */
+		return true;
+	}
 	current_cache->size = info->Cache.CacheSize;
 	current_cache->line_size = info->Cache.LineSize;
 	current_cache->associativity = info->Cache.Associativity;
@@ -696,7 +700,9 @@ static bool parse_relation_cache_info(
 	 * so we set partitions to 1 and calculate the expected sets.
 	 */
 	current_cache->partitions = 1;
-	current_cache->sets = current_cache->size / current_cache->line_size / current_cache->associativity;
+	if (current_cache->line_size != 0 && current_cache->associativity != 0) {
+		current_cache->sets = current_cache->size / current_cache->line_size / current_cache->associativity;
+	}
 	if (info->Cache.Type == CacheUnified) {
 		current_cache->flags = CPUINFO_CACHE_UNIFIED;
 	}
-- 
2.43.0


From b6db0d24a893afa86aa662e2e426d8ffbe7d9504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:03 +0000
Subject: [PATCH 43/53] fix: find the processors of a cache without group count
 on ARM Windows

Before Windows 10 20H2 the structure has no group count and the field reads as
zero, with the only mask still valid. Such caches covered no processors.
---
 src/arm/windows/init-by-logical-sys-info.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 741a26f..026de1b 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -707,9 +707,10 @@ static bool parse_relation_cache_info(
 		current_cache->flags = CPUINFO_CACHE_UNIFIED;
 	}
 
-	for (uint32_t i = 0; i < info->Cache.GroupCount; i++) {
-		/* Zero GroupCount is valid, GroupMask still can store bits set.
-		 */
+	/* Zero GroupCount is valid, GroupMask still can store bits set.
+	 */
+	const uint32_t group_count = info->Cache.GroupCount == 0 ? 1 : info->Cache.GroupCount;
+	for (uint32_t i = 0; i < group_count; i++) {
 		const uint32_t group_id = info->Cache.GroupMasks[i].Group;
 		/* Bitmask representing processors in this group belonging to
 		 * this package
-- 
2.43.0


From a9ba6c6ec2dcf7c5bcf9a8a34e3748b28ec276b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:19 +0000
Subject: [PATCH 44/53] fix: reject processors outside of their group on ARM
 Windows

Packages, cores and caches that mention groups or processors which are not there
made detection read and write past the end of its tables.
---
 src/arm/windows/init-by-logical-sys-info.c | 72 ++++++++++++++++++----
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 026de1b..d80fbcc 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -32,12 +32,14 @@ static uint32_t count_logical_processors(const uint32_t max_group_count, uint32_
 static uint32_t read_packages_for_processors(
 	struct cpuinfo_processor* processors,
 	const uint32_t number_of_processors,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info);
 
 static uint32_t read_cores_for_processors(
 	struct cpuinfo_processor* processors,
 	const uint32_t number_of_processors,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	struct cpuinfo_core* cores,
 	const struct woa_chip_info* chip_info);
@@ -47,6 +49,7 @@ static uint32_t read_caches_for_processors(
 	const uint32_t number_of_processors,
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info);
 
@@ -57,12 +60,14 @@ static uint32_t read_all_logical_processor_info_of_relation(
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
 	struct cpuinfo_core* cores,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info);
 
 static bool parse_relation_processor_info(
 	struct cpuinfo_processor* processors,
 	uint32_t nr_of_processors,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX info,
 	const uint32_t info_id,
@@ -73,6 +78,7 @@ static bool parse_relation_cache_info(
 	struct cpuinfo_processor* processors,
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX info);
 
@@ -139,11 +145,11 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	 * within the group, but not the global processor IDs.
 	 *  3. We need to list every logical processors by global IDs.
 	 */
-	uint32_t* global_proc_index_per_group = (uint32_t*)HeapAlloc(heap, 0, max_group_count * sizeof(uint32_t));
+	uint32_t* global_proc_index_per_group = (uint32_t*)HeapAlloc(heap, 0, (max_group_count + 1) * sizeof(uint32_t));
 	if (global_proc_index_per_group == NULL) {
 		cpuinfo_log_error(
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " processor groups",
-			max_group_count * sizeof(struct cpuinfo_processor),
+			(max_group_count + 1) * sizeof(uint32_t),
 			max_group_count);
 		goto clean_up;
 	}
@@ -160,8 +166,8 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 
 	/* 2. Read topology information via MSDN API: packages, cores and
 	 * caches*/
-	nr_of_packages =
-		read_packages_for_processors(processors, nr_of_processors, global_proc_index_per_group, chip_info);
+	nr_of_packages = read_packages_for_processors(
+		processors, nr_of_processors, max_group_count, global_proc_index_per_group, chip_info);
 	if (!nr_of_packages) {
 		cpuinfo_log_error("error in reading package information");
 		goto clean_up;
@@ -173,8 +179,8 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	 * we will iterate again to read and store data to cpuinfo_core
 	 * structures.
 	 */
-	nr_of_cores =
-		read_cores_for_processors(processors, nr_of_processors, global_proc_index_per_group, NULL, chip_info);
+	nr_of_cores = read_cores_for_processors(
+		processors, nr_of_processors, max_group_count, global_proc_index_per_group, NULL, chip_info);
 	if (!nr_of_cores) {
 		cpuinfo_log_error("error in reading core information");
 		goto clean_up;
@@ -187,7 +193,13 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 		2. Read out cache data and store to allocated memory
 	 */
 	nr_of_all_caches = read_caches_for_processors(
-		processors, nr_of_processors, caches, numbers_of_caches, global_proc_index_per_group, chip_info);
+		processors,
+		nr_of_processors,
+		caches,
+		numbers_of_caches,
+		max_group_count,
+		global_proc_index_per_group,
+		chip_info);
 	if (!nr_of_all_caches) {
 		cpuinfo_log_error("error in reading cache information");
 		goto clean_up;
@@ -239,14 +251,20 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	 * counted allocate structures in the first round.
 	 */
 	nr_of_all_caches = read_caches_for_processors(
-		processors, nr_of_processors, caches, numbers_of_caches, global_proc_index_per_group, chip_info);
+		processors,
+		nr_of_processors,
+		caches,
+		numbers_of_caches,
+		max_group_count,
+		global_proc_index_per_group,
+		chip_info);
 	if (!nr_of_all_caches) {
 		cpuinfo_log_error("error in reading cache information");
 		goto clean_up;
 	}
 
-	nr_of_cores =
-		read_cores_for_processors(processors, nr_of_processors, global_proc_index_per_group, cores, chip_info);
+	nr_of_cores = read_cores_for_processors(
+		processors, nr_of_processors, max_group_count, global_proc_index_per_group, cores, chip_info);
 	if (!nr_of_cores) {
 		cpuinfo_log_error("error in reading core information");
 		goto clean_up;
@@ -382,12 +400,14 @@ static uint32_t count_logical_processors(const uint32_t max_group_count, uint32_
 		global_proc_index_per_group[i] = nr_of_processors;
 		nr_of_processors += nr_of_processors_per_group;
 	}
+	global_proc_index_per_group[max_group_count] = nr_of_processors;
 	return nr_of_processors;
 }
 
 static uint32_t read_packages_for_processors(
 	struct cpuinfo_processor* processors,
 	const uint32_t number_of_processors,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info) {
 	return read_all_logical_processor_info_of_relation(
@@ -397,6 +417,7 @@ static uint32_t read_packages_for_processors(
 		NULL,
 		NULL,
 		NULL,
+		nr_of_groups,
 		global_proc_index_per_group,
 		chip_info);
 }
@@ -404,6 +425,7 @@ static uint32_t read_packages_for_processors(
 uint32_t read_cores_for_processors(
 	struct cpuinfo_processor* processors,
 	const uint32_t number_of_processors,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	struct cpuinfo_core* cores,
 	const struct woa_chip_info* chip_info) {
@@ -414,6 +436,7 @@ uint32_t read_cores_for_processors(
 		NULL,
 		NULL,
 		cores,
+		nr_of_groups,
 		global_proc_index_per_group,
 		chip_info);
 }
@@ -423,6 +446,7 @@ static uint32_t read_caches_for_processors(
 	const uint32_t number_of_processors,
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info) {
 	/* Reset processor start indexes */
@@ -443,6 +467,7 @@ static uint32_t read_caches_for_processors(
 		caches,
 		numbers_of_caches,
 		NULL,
+		nr_of_groups,
 		global_proc_index_per_group,
 		chip_info);
 }
@@ -454,6 +479,7 @@ static uint32_t read_all_logical_processor_info_of_relation(
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
 	struct cpuinfo_core* cores,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info) {
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX infos = NULL;
@@ -509,6 +535,7 @@ static uint32_t read_all_logical_processor_info_of_relation(
 				result = parse_relation_processor_info(
 					processors,
 					number_of_processors,
+					nr_of_groups,
 					global_proc_index_per_group,
 					info,
 					info_id,
@@ -519,6 +546,7 @@ static uint32_t read_all_logical_processor_info_of_relation(
 				result = parse_relation_processor_info(
 					processors,
 					number_of_processors,
+					nr_of_groups,
 					global_proc_index_per_group,
 					info,
 					info_id,
@@ -527,7 +555,12 @@ static uint32_t read_all_logical_processor_info_of_relation(
 				break;
 			case RelationCache:
 				result = parse_relation_cache_info(
-					processors, caches, numbers_of_caches, global_proc_index_per_group, info);
+					processors,
+					caches,
+					numbers_of_caches,
+					nr_of_groups,
+					global_proc_index_per_group,
+					info);
 				break;
 			default:
 				cpuinfo_log_error(
@@ -551,6 +584,7 @@ clean_up:
 static bool parse_relation_processor_info(
 	struct cpuinfo_processor* processors,
 	uint32_t nr_of_processors,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX info,
 	const uint32_t info_id,
@@ -558,6 +592,10 @@ static bool parse_relation_processor_info(
 	const struct woa_chip_info* chip_info) {
 	for (uint32_t i = 0; i < info->Processor.GroupCount; i++) {
 		const uint32_t group_id = info->Processor.GroupMask[i].Group;
+		if (group_id >= nr_of_groups) {
+			cpuinfo_log_error("unexpected processor group %" PRIu32 "", group_id);
+			return false;
+		}
 		/* Bitmask representing processors in this group belonging to
 		 * this package
 		 */
@@ -567,7 +605,7 @@ static bool parse_relation_processor_info(
 			const uint32_t processor_global_index =
 				global_proc_index_per_group[group_id] + processor_id_in_group;
 
-			if (processor_global_index >= nr_of_processors) {
+			if (processor_global_index >= global_proc_index_per_group[group_id + 1]) {
 				cpuinfo_log_error("unexpected processor index %" PRIu32 "", processor_global_index);
 				return false;
 			}
@@ -604,6 +642,7 @@ static bool parse_relation_cache_info(
 	struct cpuinfo_processor* processors,
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
+	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX info) {
 	static uint32_t l1i_counter = 0;
@@ -712,6 +751,10 @@ static bool parse_relation_cache_info(
 	const uint32_t group_count = info->Cache.GroupCount == 0 ? 1 : info->Cache.GroupCount;
 	for (uint32_t i = 0; i < group_count; i++) {
 		const uint32_t group_id = info->Cache.GroupMasks[i].Group;
+		if (group_id >= nr_of_groups) {
+			cpuinfo_log_error("unexpected processor group %" PRIu32 "", group_id);
+			return false;
+		}
 		/* Bitmask representing processors in this group belonging to
 		 * this package
 		 */
@@ -721,6 +764,11 @@ static bool parse_relation_cache_info(
 			const uint32_t processor_global_index =
 				global_proc_index_per_group[group_id] + processor_id_in_group;
 
+			if (processor_global_index >= global_proc_index_per_group[group_id + 1]) {
+				cpuinfo_log_error("unexpected processor index %" PRIu32 "", processor_global_index);
+				return false;
+			}
+
 			store_cache_info_per_processor(processors, processor_global_index, info, current_cache);
 
 			/* Clear the bits in affinity mask, lower the least set
-- 
2.43.0


From f05f7b63534f8da5be35ff99a161861473b43875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:19 +0000
Subject: [PATCH 45/53] fix: reject relations that change while they are read
 on ARM Windows

Cores and caches are counted before their tables are allocated and read again to
fill them. More of them the second time were written past the end of the tables.
---
 src/arm/windows/init-by-logical-sys-info.c | 48 +++++++++++++++++-----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index d80fbcc..3052126 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -42,6 +42,7 @@ static uint32_t read_cores_for_processors(
 	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	struct cpuinfo_core* cores,
+	const uint32_t nr_of_cores,
 	const struct woa_chip_info* chip_info);
 
 static uint32_t read_caches_for_processors(
@@ -60,6 +61,7 @@ static uint32_t read_all_logical_processor_info_of_relation(
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
 	struct cpuinfo_core* cores,
+	const uint32_t nr_of_cores,
 	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info);
@@ -180,7 +182,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	 * structures.
 	 */
 	nr_of_cores = read_cores_for_processors(
-		processors, nr_of_processors, max_group_count, global_proc_index_per_group, NULL, chip_info);
+		processors, nr_of_processors, max_group_count, global_proc_index_per_group, NULL, 0, chip_info);
 	if (!nr_of_cores) {
 		cpuinfo_log_error("error in reading core information");
 		goto clean_up;
@@ -264,7 +266,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	}
 
 	nr_of_cores = read_cores_for_processors(
-		processors, nr_of_processors, max_group_count, global_proc_index_per_group, cores, chip_info);
+		processors, nr_of_processors, max_group_count, global_proc_index_per_group, cores, nr_of_cores, chip_info);
 	if (!nr_of_cores) {
 		cpuinfo_log_error("error in reading core information");
 		goto clean_up;
@@ -417,6 +419,7 @@ static uint32_t read_packages_for_processors(
 		NULL,
 		NULL,
 		NULL,
+		0,
 		nr_of_groups,
 		global_proc_index_per_group,
 		chip_info);
@@ -428,6 +431,7 @@ uint32_t read_cores_for_processors(
 	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	struct cpuinfo_core* cores,
+	const uint32_t nr_of_cores,
 	const struct woa_chip_info* chip_info) {
 	return read_all_logical_processor_info_of_relation(
 		RelationProcessorCore,
@@ -436,6 +440,7 @@ uint32_t read_cores_for_processors(
 		NULL,
 		NULL,
 		cores,
+		nr_of_cores,
 		nr_of_groups,
 		global_proc_index_per_group,
 		chip_info);
@@ -467,6 +472,7 @@ static uint32_t read_caches_for_processors(
 		caches,
 		numbers_of_caches,
 		NULL,
+		0,
 		nr_of_groups,
 		global_proc_index_per_group,
 		chip_info);
@@ -479,6 +485,7 @@ static uint32_t read_all_logical_processor_info_of_relation(
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
 	struct cpuinfo_core* cores,
+	const uint32_t nr_of_cores,
 	const uint32_t nr_of_groups,
 	const uint32_t* global_proc_index_per_group,
 	const struct woa_chip_info* chip_info) {
@@ -529,6 +536,11 @@ static uint32_t read_all_logical_processor_info_of_relation(
 		}
 
 		const uint32_t info_id = nr_of_structs++;
+		if (cores != NULL && info_id >= nr_of_cores) {
+			cpuinfo_log_error("more cores detected than reported");
+			nr_of_structs = 0;
+			goto clean_up;
+		}
 
 		switch (info_type) {
 			case RelationProcessorPackage:
@@ -704,12 +716,20 @@ static bool parse_relation_cache_info(
 		case 1:
 			switch (info->Cache.Type) {
 				case CacheInstruction:
-					current_cache = l1i_base + l1i_counter;
-					l1i_counter++;
+					if (l1i_counter < numbers_of_caches[cpuinfo_cache_level_1i]) {
+						current_cache = l1i_base + l1i_counter++;
+					} else {
+						cpuinfo_log_error("more caches detected than reported");
+						return false;
+					}
 					break;
 				case CacheData:
-					current_cache = l1d_base + l1d_counter;
-					l1d_counter++;
+					if (l1d_counter < numbers_of_caches[cpuinfo_cache_level_1d]) {
+						current_cache = l1d_base + l1d_counter++;
+					} else {
+						cpuinfo_log_error("more caches detected than reported");
+						return false;
+					}
 					break;
 				case CacheUnified:
 					break;
@@ -720,12 +740,20 @@ static bool parse_relation_cache_info(
 			}
 			break;
 		case 2:
-			current_cache = l2_base + l2_counter;
-			l2_counter++;
+			if (l2_counter < numbers_of_caches[cpuinfo_cache_level_2]) {
+				current_cache = l2_base + l2_counter++;
+			} else {
+				cpuinfo_log_error("more caches detected than reported");
+				return false;
+			}
 			break;
 		case 3:
-			current_cache = l3_base + l3_counter;
-			l3_counter++;
+			if (l3_counter < numbers_of_caches[cpuinfo_cache_level_3]) {
+				current_cache = l3_base + l3_counter++;
+			} else {
+				cpuinfo_log_error("more caches detected than reported");
+				return false;
+			}
 			break;
 	}
 	if (current_cache == NULL) {
-- 
2.43.0


From 9be889c010d1a122c199bd8713a6633463edbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:19 +0000
Subject: [PATCH 46/53] fix: reject processors, cores and caches that are not
 connected on ARM Windows

Processors that no core lists made detection crash. Processors that no package
lists were described as processor 0 of group 0. Packages, cores and caches without
processors were published as such.
---
 src/arm/windows/init-by-logical-sys-info.c | 32 ++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 3052126..cbd3b49 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -165,6 +165,14 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			nr_of_processors);
 		goto clean_up;
 	}
+	if (nr_of_processors == 0) {
+		cpuinfo_log_error("no logical processors detected");
+		goto clean_up;
+	}
+	/* Overwritten when the processor is found in a package. */
+	for (uint32_t i = 0; i < nr_of_processors; i++) {
+		processors[i].windows_processor_id = UINT16_MAX;
+	}
 
 	/* 2. Read topology information via MSDN API: packages, cores and
 	 * caches*/
@@ -264,6 +272,16 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 		cpuinfo_log_error("error in reading cache information");
 		goto clean_up;
 	}
+	uint32_t nr_of_described_caches = 0;
+	for (uint32_t i = 0; i < MAX_NR_OF_CACHES; i++) {
+		nr_of_described_caches += numbers_of_caches[i];
+	}
+	for (uint32_t i = 0; i < nr_of_described_caches; i++) {
+		if (caches[i].processor_count == 0) {
+			cpuinfo_log_error("no processors for cache %" PRIu32 "", i);
+			goto clean_up;
+		}
+	}
 
 	nr_of_cores = read_cores_for_processors(
 		processors, nr_of_processors, max_group_count, global_proc_index_per_group, cores, nr_of_cores, chip_info);
@@ -903,6 +921,10 @@ static bool connect_packages_cores_clusters_by_processors(
 		struct cpuinfo_processor* processor = processors + processor_id;
 
 		struct cpuinfo_core* core = (struct cpuinfo_core*)processor->core;
+		if (core == NULL || processor->windows_processor_id == UINT16_MAX) {
+			cpuinfo_log_error("processor %" PRIu32 " is not in any core or package", processor_id);
+			return false;
+		}
 
 		/* We stored the offset of pointers when we haven't allocated
 		 * memory for packages and clusters, so now add offsets to base
@@ -962,6 +984,10 @@ static bool connect_packages_cores_clusters_by_processors(
 	for (uint32_t i = nr_of_cores; i != 0; i--) {
 		const uint32_t global_core_id = i - 1;
 		struct cpuinfo_core* core = cores + global_core_id;
+		if (core->processor_count == 0) {
+			cpuinfo_log_error("no processors in core %" PRIu32 "", global_core_id);
+			return false;
+		}
 		const struct cpuinfo_processor* processor = processors + core->processor_start;
 		struct cpuinfo_package* package = (struct cpuinfo_package*)processor->package;
 		struct cpuinfo_cluster* cluster = (struct cpuinfo_cluster*)processor->cluster;
@@ -985,6 +1011,12 @@ static bool connect_packages_cores_clusters_by_processors(
 		cluster->uarch = cores[cluster->core_start].uarch;
 		cluster->frequency = cores[cluster->core_start].frequency;
 	}
+	for (uint32_t i = 0; i < nr_of_packages; i++) {
+		if (packages[i].processor_count == 0) {
+			cpuinfo_log_error("no processors in package %" PRIu32 "", i);
+			return false;
+		}
+	}
 	return true;
 }
 
-- 
2.43.0


From d81b56a352ea74624248a828947e81aed85a50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:55 +0000
Subject: [PATCH 47/53] fix: report failure to allocate the microarchitectures
 on ARM Windows

The library counted as initialized although its tables had been freed and none
were published.
---
 src/arm/windows/init-by-logical-sys-info.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index cbd3b49..f71672d 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -323,6 +323,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " uarchs",
 			nr_of_uarchs * sizeof(struct cpuinfo_uarch_info),
 			nr_of_uarchs);
+		result = false;
 		goto clean_up;
 	}
 	prev_uarch = cpuinfo_uarch_unknown;
-- 
2.43.0


From de0b2b23014db1d0984d02ab0aac679bd19e95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:55 +0000
Subject: [PATCH 48/53] fix: report a failed write in cpuinfo-dump

cpuinfo-dump copies /proc/cpuinfo to standard output and ignored whether the
output could be written. With a full disk or a closed pipe it ended with a
success status although the copy was incomplete.
---
 tools/cpuinfo-dump.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/cpuinfo-dump.c b/tools/cpuinfo-dump.c
index 1673c53..bf1ad0f 100644
--- a/tools/cpuinfo-dump.c
+++ b/tools/cpuinfo-dump.c
@@ -39,6 +39,12 @@ int main(int argc, char** argv) {
 		}
 	} while (bytes_read != 0);
 
+	/* Output is buffered: a failed write may show only here */
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "Error: failed to write content of %s: %s\n", CPUINFO_PATH, strerror(errno));
+		exit(EXIT_FAILURE);
+	}
+
 	if (close(file) != 0) {
 		fprintf(stderr, "Error: failed to close %s: %s\n", CPUINFO_PATH, strerror(errno));
 		exit(EXIT_FAILURE);
-- 
2.43.0


From 8963ce0d4b492b612f6b43a3fd5ec2f212996a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:19 +0000
Subject: [PATCH 49/53] fix: compare the first processor of a guessed ARM
 cluster with the rest

Without sibling lists, 5, 6, 8 and 10 processors are split into the usual
clusters unless their MIDRs or frequencies say otherwise. The details of the
first processor of each cluster were not looked at, so a processor of another
kind at the start gave its type to the whole cluster.
---
 src/arm/linux/clusters.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/arm/linux/clusters.c b/src/arm/linux/clusters.c
index 8dd452a..1758916 100644
--- a/src/arm/linux/clusters.c
+++ b/src/arm/linux/clusters.c
@@ -132,7 +132,22 @@ bool cpuinfo_arm_linux_detect_core_clusters_by_heuristic(
 						return false;
 					}
 				} else {
+					/* Copy known information from processor
+					 * to cluster, and set the flags
+					 * accordingly */
 					cluster_flags = 0;
+					if (processors[i].flags & CPUINFO_LINUX_FLAG_MIN_FREQUENCY) {
+						cluster_min_frequency = processors[i].min_frequency;
+						cluster_flags |= CPUINFO_LINUX_FLAG_MIN_FREQUENCY;
+					}
+					if (processors[i].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) {
+						cluster_max_frequency = processors[i].max_frequency;
+						cluster_flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
+					}
+					cluster_midr = processors[i].midr;
+					cluster_flags |= processors[i].flags &
+						(CPUINFO_ARM_LINUX_VALID_IMPLEMENTER | CPUINFO_ARM_LINUX_VALID_VARIANT |
+						 CPUINFO_ARM_LINUX_VALID_PART | CPUINFO_ARM_LINUX_VALID_REVISION);
 				}
 
 				cluster_start = i;
-- 
2.43.0


From 64e9a6e951a5edecfe7d8e195e9eabdec9f4433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:19 +0000
Subject: [PATCH 50/53] fix: guess the LITTLE cluster when the whole big
 cluster reports MIDR

The guess was made only if a single processor reported its MIDR, because the
number of processors was passed where the number of clusters is expected.
---
 src/arm/linux/midr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index 10db278..0181e70 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -981,7 +981,7 @@ uint32_t cpuinfo_arm_linux_detect_cluster_midr(
 				/* Try big.LITTLE heuristic */
 				if (cpuinfo_arm_linux_detect_cluster_midr_by_big_little_heuristic(
 					    clusters_count,
-					    processors_with_midr_count,
+					    clusters_with_midr_count,
 					    last_processor_with_midr,
 					    cluster_leaders,
 					    processors,
-- 
2.43.0


From 1a09f2b4fac3d18db167b85bdb336bfbae6f1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:19 +0000
Subject: [PATCH 51/53] fix: recognize Kryo 260 and 280 Gold when guessing the
 LITTLE core

The constant has variant and revision bits, which are masked out before the
comparison, so it never matched.
---
 src/arm/midr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/midr.h b/src/arm/midr.h
index 5530d5a..0d9d0ae 100644
--- a/src/arm/midr.h
+++ b/src/arm/midr.h
@@ -261,7 +261,7 @@ inline static uint32_t midr_little_core_for_big(uint32_t midr) {
 		case CPUINFO_ARM_MIDR_CORTEX_A17:
 		case CPUINFO_ARM_MIDR_CORTEX_A15:
 			return CPUINFO_ARM_MIDR_CORTEX_A7;
-		case CPUINFO_ARM_MIDR_KRYO280_GOLD:
+		case UINT32_C(0x510F8000): /* Kryo 260 / 280 Gold */
 			return CPUINFO_ARM_MIDR_KRYO280_SILVER;
 		case CPUINFO_ARM_MIDR_KRYO_GOLD:
 			return CPUINFO_ARM_MIDR_KRYO_SILVER_820;
-- 
2.43.0


From ab171335ef72e87e00c2e7ef6e4f38682a97990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:03 +0000
Subject: [PATCH 52/53] fix: keep reading a file after a line longer than the
 buffer

A line of /proc/cpuinfo that did not fit into the buffer was taken for
the last one, so the processors after it were lost. The flags of new x86
processors and the features of new ARM ones come close to the limits of
2048 and 1024 characters. The beginning of such a line is now processed
and the rest skipped.
---
 src/linux/multiline.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/linux/multiline.c b/src/linux/multiline.c
index 00f4583..97df955 100644
--- a/src/linux/multiline.c
+++ b/src/linux/multiline.c
@@ -40,6 +40,7 @@ bool cpuinfo_linux_parse_multiline_file(
 	uint64_t line_number = 1;
 	const char* buffer_end = &buffer[buffer_size];
 	char* data_start = buffer;
+	bool skip_line = false;
 	ssize_t bytes_read;
 	do {
 #if CPUINFO_MOCK
@@ -61,7 +62,7 @@ bool cpuinfo_linux_parse_multiline_file(
 			/* No more data in the file: process the remaining text
 			 * in the buffer as a single entry */
 			const char* line_end = data_end;
-			if (!callback(line_start, line_end, context, line_number)) {
+			if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 				goto cleanup;
 			}
 		} else {
@@ -82,13 +83,33 @@ bool cpuinfo_linux_parse_multiline_file(
 				 * data at the end; read the file once again.
 				 */
 				if (line_end != data_end) {
-					if (!callback(line_start, line_end, context, line_number++)) {
+					if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 						goto cleanup;
 					}
+					skip_line = false;
+					line_number++;
 					line_start = line_end + 1;
 				}
 			} while (line_end != data_end);
 
+			if (line_start == buffer && line_end == buffer_end && !skip_line) {
+				/* The line does not fit into the buffer: process
+				 * its beginning, up to the last complete word,
+				 * and skip the rest */
+				const char* word_end = line_end;
+				while (word_end != line_start && word_end[-1] != ' ') {
+					word_end--;
+				}
+				if (!callback(line_start, word_end, context, line_number)) {
+					goto cleanup;
+				}
+				skip_line = true;
+			}
+			if (skip_line) {
+				data_start = buffer;
+				continue;
+			}
+
 			/* Move remaining partial line data at the end to the
 			 * beginning of the buffer */
 			const size_t line_length = (size_t)(line_end - line_start);
-- 
2.43.0


From 2741bfd84c55efef049b32e1fa8773c6d8615ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:43 +0000
Subject: [PATCH 53/53] fix: ignore invalid cache parameters in /proc/cpuinfo

The parser of the cache lines in ARM /proc/cpuinfo logs that a value of
zero, or a cache line size other than 16, 32, 64 or 128, is ignored.
It then stored the value all the same. Return after the message.
---
 src/arm/linux/cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 20846ff..0b6dbe4 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -669,6 +669,7 @@ static void parse_cache_number(
 			number_name,
 			(int)(number_end - number_start),
 			number_start);
+		return;
 	}
 
 	/* If the number specifies a cache line size, verify that is a
@@ -686,6 +687,7 @@ static void parse_cache_number(
 					number_name,
 					(int)(number_end - number_start),
 					number_start);
+				return;
 		}
 	}
 
-- 
2.43.0

