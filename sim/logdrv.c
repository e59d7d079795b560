/*
 * Entry points for the log functions, compiled into the library object at
 * different configured levels (LOGDRV_LEVEL).
 */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define CPUINFO_LOG_LEVEL LOGDRV_LEVEL
#include <cpuinfo/log.h>
#if LOGDRV_CLOG
#include <clog.h>
CLOG_DEFINE_LOG_DEBUG(clog_mod_debug, "mymodule", LOGDRV_LEVEL);
CLOG_DEFINE_LOG_INFO(clog_mod_info, "mymodule", LOGDRV_LEVEL);
CLOG_DEFINE_LOG_WARNING(clog_mod_warning, "mymodule", LOGDRV_LEVEL);
CLOG_DEFINE_LOG_ERROR(clog_mod_error, "mymodule", LOGDRV_LEVEL);
CLOG_DEFINE_LOG_FATAL(clog_mod_fatal, "mymodule", LOGDRV_LEVEL);
CLOG_DEFINE_LOG_DEBUG(clog_nomod_debug, NULL, LOGDRV_LEVEL);
CLOG_DEFINE_LOG_INFO(clog_nomod_info, NULL, LOGDRV_LEVEL);
CLOG_DEFINE_LOG_WARNING(clog_nomod_warning, NULL, LOGDRV_LEVEL);
CLOG_DEFINE_LOG_ERROR(clog_nomod_error, NULL, LOGDRV_LEVEL);
CLOG_DEFINE_LOG_FATAL(clog_nomod_fatal, NULL, LOGDRV_LEVEL);
#define LONG64 "0123456789abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQ "
#define LONG512 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64
/* a module name longer than any stack buffer */
CLOG_DEFINE_LOG_WARNING(clog_long_warning, LONG512 LONG512 LONG64, LOGDRV_LEVEL);
/* prefix of about the size of the stack buffer */
CLOG_DEFINE_LOG_ERROR(clog_edge_error, LONG512 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64 "0123456789abcdefghijklmnopqrstuvwxyz012345678901234567", LOGDRV_LEVEL);
CLOG_DEFINE_LOG_INFO(clog_edge_info, LONG512 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64 LONG64 "0123456789abcdefghijklmnopqrstuvwxyz01234567890123456", LOGDRV_LEVEL);
#endif

struct LogFn {
	const char* name;
	int fd, fatal, enabled;
	void (*call)(const char* text, int kind, int num);
};

#define DRIVER(fn)                                                        \
	static void drive_##fn(const char* text, int kind, int num) {     \
		switch (kind) {                                           \
			case 0: fn("%s", text); break;                    \
			case 1: fn("%s %d", text, num); break;            \
			case 2: fn("%.*s|%08x", num, text, num); break;   \
			case 3: fn("%*d", num, 7); break;                 \
			case 4: fn(text, 0); break;                       \
			case 5: fn("%s%s", text, text); break;            \
		}                                                         \
	}
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-extra-args"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
DRIVER(cpuinfo_log_debug)
DRIVER(cpuinfo_log_info)
DRIVER(cpuinfo_log_warning)
DRIVER(cpuinfo_log_error)
DRIVER(cpuinfo_log_fatal)
#if LOGDRV_CLOG
DRIVER(clog_mod_debug)
DRIVER(clog_mod_info)
DRIVER(clog_mod_warning)
DRIVER(clog_mod_error)
DRIVER(clog_mod_fatal)
DRIVER(clog_nomod_debug)
DRIVER(clog_nomod_info)
DRIVER(clog_nomod_warning)
DRIVER(clog_nomod_error)
DRIVER(clog_nomod_fatal)
DRIVER(clog_long_warning)
DRIVER(clog_edge_error)
DRIVER(clog_edge_info)
#endif

#define ENTRY(fn, fd, level) {#fn, fd, level == 1, LOGDRV_LEVEL >= level, drive_##fn}
const struct LogFn LOGDRV_TABLE[] = {
	ENTRY(cpuinfo_log_debug, 1, 5),
	ENTRY(cpuinfo_log_info, 1, 4),
	ENTRY(cpuinfo_log_warning, 2, 3),
	ENTRY(cpuinfo_log_error, 2, 2),
	ENTRY(cpuinfo_log_fatal, 2, 1),
#if LOGDRV_CLOG
	ENTRY(clog_mod_debug, 1, 5),
	ENTRY(clog_mod_info, 1, 4),
	ENTRY(clog_mod_warning, 2, 3),
	ENTRY(clog_mod_error, 2, 2),
	ENTRY(clog_mod_fatal, 2, 1),
	ENTRY(clog_nomod_debug, 1, 5),
	ENTRY(clog_nomod_info, 1, 4),
	ENTRY(clog_nomod_warning, 2, 3),
	ENTRY(clog_nomod_error, 2, 2),
	ENTRY(clog_nomod_fatal, 2, 1),
	ENTRY(clog_long_warning, 2, 3),
	ENTRY(clog_edge_error, 2, 2),
	ENTRY(clog_edge_info, 1, 4),
#endif
	{0, 0, 0, 0, 0},
};
