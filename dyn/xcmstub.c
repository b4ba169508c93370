/* A scripted libxcm: records every call and does what it was told to. */
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#define LOG_MAX (1 << 20)
static char log_[LOG_MAX];
static int len_;
static int fail_;               /* errno of the next call, or 0 */
static int noise_;              /* errno left behind by calls that succeed */
static int rc_;                 /* result of the next call returning int */
static int type_;
static char data_[70000];
static size_t datalen_;
static char handles[64];
static int nh;

#define LOG(...) do { if (len_ < LOG_MAX - 70000) \
    len_ += snprintf(log_ + len_, 70000, __VA_ARGS__); } while (0)

void stub_script(int fail, int noise, int rc, int type, const char *data,
                 size_t n)
{
    fail_ = fail; noise_ = noise; rc_ = rc; type_ = type;
    memcpy(data_, data, n);
    datalen_ = n;
}
const char *stub_log(void) { return log_; }
void stub_reset(void) { len_ = 0; log_[0] = 0; nh = 0; }

static void hex(const void *p, size_t n)
{
    const unsigned char *c = p;
    for (size_t i = 0; i < n && i < 20000; i++)
        LOG("%02x", c[i]);
}
static int ret(void)
{
    if (fail_) { errno = fail_; return -1; }
    errno = noise_;
    return rc_;
}
static int id(void *s)
{
    char *p = s;
    return s == NULL ? -1 : p >= handles && p < handles + 64 ?
        (int)(p - handles) : -2;
}
static void *mk(void)
{
    if (fail_) { errno = fail_; return NULL; }
    errno = noise_;
    return handles + (nh++ % 64);
}

void *xcm_attr_map_create(void) { errno = noise_; LOG("map\n");
    return malloc(1); }
void xcm_attr_map_destroy(void *m)
{
    errno = noise_;
    if (m) { LOG("free\n"); free(m); }
}
void xcm_attr_map_add_bool(void *m, const char *n, bool v)
{ LOG("add %s bool %d\n", n, v); }
void xcm_attr_map_add_int64(void *m, const char *n, int64_t v)
{ LOG("add %s int %lld\n", n, (long long)v); }
void xcm_attr_map_add_str(void *m, const char *n, const char *v)
{ LOG("add %s str %s\n", n, v); }
void *xcm_connect_a(const char *a, const void *m)
{ LOG("connect %s %d\n", a, m != NULL); return mk(); }
void *xcm_server_a(const char *a, const void *m)
{ LOG("server %s %d\n", a, m != NULL); return mk(); }
void *xcm_accept_a(void *s, const void *m)
{ LOG("accept %d %d\n", id(s), m != NULL); return mk(); }
int xcm_close(void *s) { LOG("close %d\n", id(s)); return ret(); }
int xcm_finish(void *s) { LOG("finish %d\n", id(s)); return ret(); }
int xcm_send(void *s, const void *b, size_t n)
{ LOG("send %d %zu ", id(s), n); hex(b, n); LOG("\n"); return ret(); }
int xcm_receive(void *s, void *b, size_t cap)
{
    LOG("receive %d %zu\n", id(s), cap);
    if (fail_) return ret();
    size_t n = datalen_ < cap ? datalen_ : cap;
    memcpy(b, data_, n);
    errno = noise_;
    return n;
}
int xcm_await(void *s, int c) { LOG("await %d %d\n", id(s), c);
    return ret(); }
int xcm_fd(void *s) { LOG("fd %d\n", id(s)); return ret(); }
int xcm_want(void *s, int c, int *f, int *e, size_t n) { return 0; }
int xcm_set_blocking(void *s, bool v)
{ LOG("set_blocking %d %d\n", id(s), v); return ret(); }
bool xcm_is_blocking(void *s) { LOG("is_blocking %d\n", id(s));
    errno = noise_; return rc_; }
int xcm_attr_get(void *s, const char *n, int *t, void *b, size_t cap)
{
    LOG("get %d %s\n", id(s), n);
    if (fail_) return ret();
    if (datalen_ > cap) { errno = EOVERFLOW; return -1; }
    memset(b, 0xaa, cap);
    memcpy(b, data_, datalen_);
    if (t) *t = type_;
    errno = noise_;
    return datalen_;
}
int xcm_attr_set_bool(void *s, const char *n, bool v)
{ LOG("set %d %s bool %d\n", id(s), n, v); return ret(); }
int xcm_attr_set_int64(void *s, const char *n, int64_t v)
{ LOG("set %d %s int %lld\n", id(s), n, (long long)v); return ret(); }
int xcm_attr_set_str(void *s, const char *n, const char *v)
{ LOG("set %d %s str %s\n", id(s), n, v); return ret(); }
