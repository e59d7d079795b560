/* Stand-in for the Android header. */
#ifndef SIM_SHADOW_SYSTEM_PROPERTIES_H
#define SIM_SHADOW_SYSTEM_PROPERTIES_H
#define PROP_NAME_MAX 32
#define PROP_VALUE_MAX 92
#ifdef __cplusplus
extern "C" {
#endif
int __system_property_get(const char*, char*);
#ifdef __cplusplus
}
#endif
#endif
