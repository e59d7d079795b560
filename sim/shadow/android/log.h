/* Stand-in for the Android header. */
#ifndef SIM_SHADOW_ANDROID_LOG_H
#define SIM_SHADOW_ANDROID_LOG_H
#include <stdarg.h>
enum { ANDROID_LOG_UNKNOWN, ANDROID_LOG_DEFAULT, ANDROID_LOG_VERBOSE, ANDROID_LOG_DEBUG, ANDROID_LOG_INFO, ANDROID_LOG_WARN, ANDROID_LOG_ERROR, ANDROID_LOG_FATAL, ANDROID_LOG_SILENT };
#ifdef __cplusplus
extern "C" {
#endif
int __android_log_vprint(int, const char*, const char*, va_list);
int __android_log_print(int, const char*, const char*, ...);
int __android_log_write(int, const char*, const char*);
#ifdef __cplusplus
}
#endif
#endif
