/* LD_PRELOAD: a world that answers otherwise.  Every environment variable is
 * set (to SHIM_VALUE), the clocks are years ahead and run fast; what was asked
 * for is written to SHIM_LOG when the process ends.  With SHIM_MACHINE it is
 * another machine too: other names, one processor, directories listed
 * backwards. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/utsname.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static char names[64][64];
static int n;
static long clocks;

static char *real(const char *k)
{
    static char *(*f)(const char *);
    if (!f)
        f = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    return f(k);
}
static int ours(const char *k)
{
    return !strncmp(k, "RUST_", 5) || !strncmp(k, "VMON_", 5) || !strncmp(k, "SHIM_", 5) || !strncmp(k, "LD_", 3) || !strncmp(k, "MALLOC", 6);
}
char *getenv(const char *k)
{
    if (ours(k) || real("SHIM_CLOCK_ONLY"))
        return real(k);
    int i;
    for (i = 0; i < n && strncmp(names[i], k, 63); i++)
        ;
    if (i == n && n < 64)
        strncpy(names[n++], k, 63);
    char *v = real("SHIM_VALUE");
    return v ? v : real(k);
}
char *secure_getenv(const char *k) { return getenv(k); }
int clock_gettime(clockid_t c, struct timespec *t)
{
    static int (*f)(clockid_t, struct timespec *);
    if (!f)
        f = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = f(c, t);
    clocks++;
    if (!r && real("SHIM_VALUE"))
        t->tv_sec = t->tv_sec * 3 + 400000000;
    return r;
}
int uname(struct utsname *u)
{
    static int (*f)(struct utsname *);
    if (!f)
        f = (int (*)(struct utsname *))dlsym(RTLD_NEXT, "uname");
    int r = f(u);
    if (!r && real("SHIM_MACHINE")) {
        strcpy(u->nodename, "elsewhere");
        strcpy(u->release, "99.1.0-other");
        strcpy(u->version, "#99 other");
    }
    return r;
}
int gethostname(char *b, size_t k)
{
    static int (*f)(char *, size_t);
    if (!f)
        f = (int (*)(char *, size_t))dlsym(RTLD_NEXT, "gethostname");
    int r = f(b, k);
    if (!r && real("SHIM_MACHINE"))
        strncpy(b, "elsewhere", k);
    return r;
}
long sysconf(int k)
{
    static long (*f)(int);
    if (!f)
        f = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if ((k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) && real("SHIM_MACHINE"))
        return 1;
    return f(k);
}
/* directories backwards: all entries are read at the first call */
static struct { DIR *d; struct dirent64 *e; int n; } dirs[16];
struct dirent64 *readdir64(DIR *d)
{
    static struct dirent64 *(*f)(DIR *);
    if (!f)
        f = (struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64");
    if (!real("SHIM_MACHINE"))
        return f(d);
    int i;
    for (i = 0; i < 16 && dirs[i].d != d; i++)
        ;
    if (i == 16) {
        for (i = 0; i < 16 && dirs[i].d; i++)
            ;
        if (i == 16)
            return f(d);
        struct dirent64 *x;
        dirs[i].d = d;
        while ((x = f(d))) {
            dirs[i].e = realloc(dirs[i].e, (dirs[i].n + 1) * sizeof *x);
            memset(&dirs[i].e[dirs[i].n], 0, sizeof *x);
            memcpy(&dirs[i].e[dirs[i].n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        }
    }
    return dirs[i].n ? &dirs[i].e[--dirs[i].n] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d)
{
    static int (*f)(DIR *);
    if (!f)
        f = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 16; i++)
        if (dirs[i].d == d) {
            free(dirs[i].e);
            memset(&dirs[i], 0, sizeof dirs[i]);
        }
    return f(d);
}
__attribute__((destructor)) static void end(void)
{
    char *p = real("SHIM_LOG");
    if (!p)
        return;
    FILE *o = fopen(p, "w");
    if (!o)
        return;
    for (int i = 0; i < n; i++)
        fprintf(o, "getenv %s\n", names[i]);
    fprintf(o, "clocks %ld\n", clocks);
    fclose(o);
}
