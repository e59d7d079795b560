#include <emscripten/threading.h>
