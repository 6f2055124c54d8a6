/* Lists the directories below $MC_DIR_ROOT in a chosen order (LD_PRELOAD).
 * MC_DIRS="a,b,..": number of the permutation for the k-th directory listed (default 0: by name).
 * MC_DIR_TRACE: file that receives the number of entries of every directory listed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct list { DIR *d; struct dirent64 *e; size_t n, at; int ready; struct list *next; };
static struct list *lists;
static int seen;

static int cmp(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
DIR *opendir(const char *p) {
    static DIR *(*real)(const char *);
    if (!real) real = dlsym(RTLD_NEXT, "opendir");
    DIR *d = real(p);
    const char *root = getenv("MC_DIR_ROOT");
    char a[PATH_MAX];
    if (d && root && realpath(p, a) && !strncmp(a, root, strlen(root))) {
        struct list *l = calloc(1, sizeof *l);
        l->d = d; l->next = lists; lists = l;
    }
    return d;
}
static void load(struct list *l, struct dirent64 *(*real)(DIR *)) {
    struct dirent64 *e, dots[2];
    size_t nd = 0;
    while ((e = real(l->d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) { if (nd < 2) dots[nd++] = *e; continue; }
        l->e = realloc(l->e, (l->n + 1) * sizeof *e);
        l->e[l->n++] = *e;
    }
    if (l->n) qsort(l->e, l->n, sizeof *l->e, cmp);
    int k = seen++;
    const char *c = getenv("MC_DIRS"), *t = getenv("MC_DIR_TRACE");
    unsigned long perm = 0;
    for (int i = 0; c && *c; i++) {
        if (i == k) { perm = strtoul(c, 0, 10); break; }
        c = strchr(c, ','); if (c) c++;
    }
    if (t) { FILE *f = fopen(t, "a"); if (f) { fprintf(f, "%zu\n", l->n); fclose(f); } }
    /* the perm-th permutation in the factorial number system */
    for (size_t i = 0; i + 1 < l->n; i++) {
        size_t left = l->n - i, j = i + perm % left;
        perm /= left;
        struct dirent64 x = l->e[j];
        memmove(l->e + i + 1, l->e + i, (j - i) * sizeof x);
        l->e[i] = x;
    }
    if (nd) {
        l->e = realloc(l->e, (l->n + nd) * sizeof *l->e);
        for (size_t i = 0; i < nd; i++) l->e[l->n++] = dots[i];
    }
    l->ready = 1;
}
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    for (struct list *l = lists; l; l = l->next)
        if (l->d == d) {
            if (!l->ready) load(l, real);
            return l->at < l->n ? &l->e[l->at++] : 0;
        }
    return real(d);
}
int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "closedir");
    for (struct list **p = &lists; *p; p = &(*p)->next)
        if ((*p)->d == d) { struct list *l = *p; *p = l->next; free(l->e); free(l); break; }
    return real(d);
}
