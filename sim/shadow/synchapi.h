#include <windows.h>
