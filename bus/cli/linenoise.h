// Stands in for the line editor which the command line tool is built with: lines come from standard input, and completion and hints are asked for as they would be while the line is typed.
#ifndef LINENOISE_H
#define LINENOISE_H
#include <stddef.h>
typedef struct linenoiseCompletions { size_t len; char** cvec; } linenoiseCompletions;
typedef void(linenoiseCompletionCallback)(const char*, linenoiseCompletions*);
typedef char*(linenoiseHintsCallback)(const char*, int* color, int* bold);
void linenoiseSetCompletionCallback(linenoiseCompletionCallback*);
void linenoiseSetHintsCallback(linenoiseHintsCallback*);
void linenoiseAddCompletion(linenoiseCompletions*, const char*);
char* linenoise(const char* prompt);
void linenoiseFree(void*);
int linenoiseHistoryAdd(const char*);
int linenoiseHistorySave(const char*);
int linenoiseHistoryLoad(const char*);
#endif
