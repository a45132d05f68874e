//go:build asan

package main

/*
#include <sanitizer/asan_interface.h>
#include <string.h>

static volatile int reports;
static char last[4096];
static void onReport(const char *s) {
	reports++;
	strncpy(last, s, sizeof last - 1);
}
static void listen(void) { __asan_set_error_report_callback(onReport); }
static int count(void) { return reports; }
static char *text(void) { return last; }
*/
import "C"

import "unsafe"

func init() {
	C.listen()
	asanReports = func() int { return int(C.count()) }
	asanText = func() string { return C.GoString(C.text()) }
	poison = func(p unsafe.Pointer, n int) { C.__asan_poison_memory_region(p, C.size_t(n)) }
	unpoison = func(p unsafe.Pointer, n int) { C.__asan_unpoison_memory_region(p, C.size_t(n)) }
}
