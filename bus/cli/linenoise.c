#define _GNU_SOURCE
#include "linenoise.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static linenoiseCompletionCallback* g_comp; static linenoiseHintsCallback* g_hint;
__attribute__((constructor)) static void start(void) { setvbuf(stdout, NULL, _IOLBF, 1 << 20); }
void linenoiseSetCompletionCallback(linenoiseCompletionCallback* f) { g_comp = f; }
void linenoiseSetHintsCallback(linenoiseHintsCallback* f) { g_hint = f; }
static const char* g_typed; static int g_bad;
void linenoiseAddCompletion(linenoiseCompletions* c, const char* s) { c->len++; if (strncmp(s, g_typed, strlen(g_typed))) g_bad = 1; }
char* linenoise(const char* prompt) {
  (void)prompt; printf("\n\002READY\n"); fflush(stdout);
  char* l = NULL; size_t n = 0; ssize_t k = getline(&l, &n, stdin); if (k < 0) { free(l); return NULL; }
  if (k && l[k - 1] == '\n') l[--k] = 0;
  size_t step = k > 200 ? k / 50 : 1;
  for (size_t i = 1; i <= (size_t)k; i += step) { // typing
    char* p = strndup(l, i); int col = 0, bold = 0; linenoiseCompletions c = {0, NULL}; if (g_hint) { char* h = g_hint(p, &col, &bold); if (h) (void)strlen(h); }
    g_typed = p; g_bad = 0; if (g_comp) g_comp(p, &c); if (g_bad) { printf("\002BAD completion of what was typed: %s\n", p); } free(p); }
  char* r = strdup(l); free(l); return r;
}
void linenoiseFree(void* p) { free(p); }
int linenoiseHistoryAdd(const char* s) { return (int)strlen(s); }
int linenoiseHistorySave(const char* s) { (void)s; return 0; }
int linenoiseHistoryLoad(const char* s) { (void)s; return 0; }
