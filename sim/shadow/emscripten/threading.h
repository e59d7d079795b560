/* Stand-in for the Emscripten header. */
#ifndef SIM_SHADOW_EMSCRIPTEN_THREADING_H
#define SIM_SHADOW_EMSCRIPTEN_THREADING_H
#ifdef __cplusplus
extern "C" {
#endif
int emscripten_num_logical_cores(void);
int emscripten_has_threading_support(void);
#ifdef __cplusplus
}
#endif
#endif
