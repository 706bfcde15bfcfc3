/* Serves the account database from the files in $NSSDB_DIR (passwd, group, shadow),
   so that scenarios can use accounts that do not exist on this machine. */
#define _GNU_SOURCE
#include <errno.h>
#include <grp.h>
#include <pwd.h>
#include <shadow.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *dbopen(const char *n) {
    char p[4096]; const char *d = getenv("NSSDB_DIR");
    if (!d) return NULL;
    snprintf(p, sizeof p, "%s/%s", d, n);
    return fopen(p, "re");
}
#define SCAN(file, fget, type, cond) \
    FILE *f = dbopen(file); *res = NULL; if (!f) return 0; \
    int rc; struct type *e; \
    while ((rc = fget(f, buf, b, n, &e)) == 0) if (cond) { *res = buf; break; } \
    fclose(f); return rc == ENOENT || rc == 0 ? 0 : rc;
int getpwnam_r(const char *k, struct passwd *buf, char *b, size_t n, struct passwd **res) { SCAN("passwd", fgetpwent_r, passwd, !strcmp(e->pw_name, k)) }
int getpwuid_r(uid_t k, struct passwd *buf, char *b, size_t n, struct passwd **res) { SCAN("passwd", fgetpwent_r, passwd, e->pw_uid == k) }
int getgrnam_r(const char *k, struct group *buf, char *b, size_t n, struct group **res) { SCAN("group", fgetgrent_r, group, !strcmp(e->gr_name, k)) }
int getgrgid_r(gid_t k, struct group *buf, char *b, size_t n, struct group **res) { SCAN("group", fgetgrent_r, group, e->gr_gid == k) }
int getspnam_r(const char *k, struct spwd *buf, char *b, size_t n, struct spwd **res) { SCAN("shadow", fgetspent_r, spwd, !strcmp(e->sp_namp, k)) }
static char pb[65536], gb[65536], sb[65536];
static struct passwd pe; static struct group ge; static struct spwd se;
struct passwd *getpwnam(const char *k) { struct passwd *r; getpwnam_r(k, &pe, pb, sizeof pb, &r); return r; }
struct passwd *getpwuid(uid_t k) { struct passwd *r; getpwuid_r(k, &pe, pb, sizeof pb, &r); return r; }
struct group *getgrnam(const char *k) { struct group *r; getgrnam_r(k, &ge, gb, sizeof gb, &r); return r; }
struct group *getgrgid(gid_t k) { struct group *r; getgrgid_r(k, &ge, gb, sizeof gb, &r); return r; }
struct spwd *getspnam(const char *k) { struct spwd *r; if (geteuid()) { errno = EACCES; return NULL; } getspnam_r(k, &se, sb, sizeof sb, &r); return r; }
static FILE *pf, *gf, *sf;
#define ENUM(F, file, set, end, get, fget, type, e_, b_) \
    void end(void) { if (F) fclose(F); F = NULL; } \
    void set(void) { end(); } \
    struct type *get(void) { struct type *r; if (!F && !(F = dbopen(file))) return NULL; return fget(F, &e_, b_, sizeof b_, &r) ? NULL : r; }
ENUM(pf, "passwd", setpwent, endpwent, getpwent, fgetpwent_r, passwd, pe, pb)
ENUM(gf, "group", setgrent, endgrent, getgrent, fgetgrent_r, group, ge, gb)
ENUM(sf, "shadow", setspent, endspent, getspent, fgetspent_r, spwd, se, sb)
int getgrouplist(const char *user, gid_t gid, gid_t *gs, int *n) {
    int cap = *n, k = 0; struct group g, *e; char b[65536]; FILE *f = dbopen("group");
    if (k < cap) gs[k] = gid;
    k++;
    while (f && fgetgrent_r(f, &g, b, sizeof b, &e) == 0)
        for (char **m = e->gr_mem; *m; m++) if (!strcmp(*m, user) && e->gr_gid != gid) { if (k < cap) gs[k] = e->gr_gid; k++; break; }
    if (f) fclose(f);
    *n = k;
    return k > cap ? -1 : k;
}
int initgroups(const char *user, gid_t gid) {
    gid_t gs[256]; int n = 256;
    if (getgrouplist(user, gid, gs, &n) < 0) { errno = ENOMEM; return -1; }
    return setgroups(n, gs);
}
