/*
 * For the files that implement simulated calls.
 */
#pragma once
#include "env.h"
#include <sys/types.h>

/* One faultable operation.  Returns 0 or the variant of the fault to inject. */
u32 op(const char* kind);
/* sets errno, returns -1 */
int fail(int e);
str errname(int e);
void* do_alloc(const char* what, size_t align, size_t n, bool zero);
void do_free(void* p);
ssize_t do_write(int fd, const void* p, size_t n);
/* Answer to a named system query, as overridden by the scenario or else as the machine has it. */
bool ask(const str& key, str* raw, const std::function<bool(str*)>& machine);
