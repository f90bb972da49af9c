#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
void *__wrap_PyPyRun_String(const char *src, int start, void *g, void *l) {
    void *(*real)(const char *, int, void *, void *) = dlsym(RTLD_DEFAULT, "PyPyRun_String");
    if (src[0] == '\\' && src[1] == '\n' && src[2] == ' ') {
        char *s = malloc(strlen(src) + 16); strcpy(s, "if True:\n"); strcat(s, src + 2);
        void *r = real(s, start, g, l); free(s); return r;
    }
    return real(src, start, g, l);
}
