// Simulated disk, console and clock behind the libc functions libstdc++ and the library call.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "internal.h"
#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <random>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" {

struct SimDisk sim_disk = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0};
struct SimConsole sim_console = {0, 0, 0, 0, 4096, 4096, 0, 0};

}

#define REAL(name) ({ static decltype(&::name) f_; if (!f_) f_ = (decltype(&::name))dlsym(RTLD_NEXT, #name); f_; })

namespace {

const int FD0 = 1000;
const int MAXFD = 64;
const int MAXINODE = 24;

// base: a hole in front of the data, for files that are larger than memory
struct Inode { char name[256]; char* data; size_t size, cap; int linked; int refs; size_t base; };
struct Fd { int used; int inode; size_t off; int flags; };
struct FileObj { FILE* fp; int fd; };

Inode inodes[MAXINODE];
Fd fds[MAXFD];
FileObj fobjs[MAXFD];
uint32_t n_syscalls, n_errors, n_eintr;

int sim_on() { return g_active; }

void grow(Inode& i, size_t n)
{
    if (n <= i.cap) return;
    size_t c = i.cap ? i.cap : 256;
    while (c < n) c *= 2;
    i.data = (char*)realloc(i.data, c);
    i.cap = c;
}

Inode* find(const char* path)
{
    for (int i = 0; i < MAXINODE; ++i) if (inodes[i].linked && !strcmp(inodes[i].name, path)) return &inodes[i];
    return nullptr;
}

Inode* create(const char* path)
{
    for (int i = 0; i < MAXINODE; ++i)
        if (!inodes[i].linked && !inodes[i].refs)
        {
            Inode& n = inodes[i];
            snprintf(n.name, sizeof n.name, "%s", path);
            n.size = 0; n.base = 0; n.linked = 1; n.refs = 0;
            return &n;
        }
    sim_fail("harness", "too many simulated files");
}

int64_t used_bytes()
{
    int64_t t = 0;
    for (int i = 0; i < MAXINODE; ++i) if (inodes[i].linked || inodes[i].refs) t += (int64_t)inodes[i].size;
    return t;
}

void enter(const char* what)
{
    ++n_syscalls;
    sim_step(what);
    g_now += 10000;
    if (sim_disk.slow && sim_chance(sim_disk.slow)) { g_now += 1000000000ull * (1 + sim_choose(30)); sim_count("fault:slow_device", 1); sim_trace("slow %s", what); }
    core_sched_point(what, 0);
}

bool crash_draw(const char* what)
{
    if (sim_disk.crash && core_can_crash() && sim_chance(sim_disk.crash))
    {
        sim_count("fault:crash", 1);
        sim_trace("CRASH at %s", what);
        return true;
    }
    return false;
}

bool err_draw(uint32_t rate, const char* kind)
{
    if (!rate || n_errors >= sim_disk.max_faults) return false;
    if (!sim_chance(rate)) return false;
    ++n_errors;
    char b[44];
    snprintf(b, sizeof b, "fault:%s", kind);
    sim_count(b, 1);
    return true;
}

bool eintr_draw()
{
    if (!sim_disk.eintr || n_eintr > 400 || !sim_chance(sim_disk.eintr)) return false;
    ++n_eintr;
    sim_count("fault:EINTR", 1);
    return true;
}

Fd* getfd(int fd)
{
    if (fd < FD0 || fd >= FD0 + MAXFD || !fds[fd - FD0].used) return nullptr;
    return &fds[fd - FD0];
}

int vopen(const char* path, int flags)
{
    enter("open");
    if (crash_draw("open")) core_crash_here();
    if (err_draw(sim_disk.open_fail, "open"))
    {
        static const int e[] = {EMFILE, EACCES, ENOSPC, EIO};
        errno = e[sim_choose(4)];
        sim_trace("open %s -> errno %d", path, errno);
        return -1;
    }
    Inode* n = find(path);
    if (!n)
    {
        if (!(flags & O_CREAT)) { errno = ENOENT; sim_trace("open %s -> ENOENT", path); return -1; }
        n = create(path);
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) n->size = n->base = 0;
    for (int i = 0; i < MAXFD; ++i)
        if (!fds[i].used)
        {
            fds[i].used = 1; fds[i].inode = (int)(n - inodes); fds[i].off = 0; fds[i].flags = flags;
            n->refs++;
            sim_trace("open %s flags=%x -> %d (size %zu)", path, (unsigned)flags & 0xffffu, i, n->size);
            return FD0 + i;
        }
    errno = EMFILE;
    sim_fail("descriptor-leak", "%d descriptors are open at once", MAXFD);
}

int vclose(int fd)
{
    Fd* f = getfd(fd);
    if (!f)
    {
        if (fd >= FD0) sim_fail("double-close", "close of descriptor %d which is not open", fd - FD0);
        errno = EBADF;
        return -1;
    }
    enter("close");
    if (crash_draw("close")) core_crash_here();
    f->used = 0;
    inodes[f->inode].refs--;
    sim_trace("close %d", fd - FD0);
    if (err_draw(sim_disk.close_fail, "close")) { errno = EIO; sim_trace("close -> EIO"); return -1; }
    return 0;
}

void apply_write(Fd* f, const char* p, size_t n)
{
    Inode& i = inodes[f->inode];
    size_t at = (f->flags & O_APPEND) ? i.size : f->off - i.base;
    if (!(f->flags & O_APPEND) && f->off < i.base) sim_fail("harness", "write into the hole of a file");
    grow(i, at + n);
    if (at > i.size) memset(i.data + i.size, 0, at - i.size);
    memcpy(i.data + at, p, n);
    if (at + n > i.size) i.size = at + n;
    f->off = i.base + at + n;
}


uint64_t wmarks[256];
uint32_t n_wmarks;

ssize_t vwrite(int fd, const char* p, size_t n)
{
    Fd* f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    enter("write");
    if (n_wmarks < 256 && (!n_wmarks || wmarks[n_wmarks - 1] != inodes[f->inode].size)) wmarks[n_wmarks++] = inodes[f->inode].size;
    if (crash_draw("write"))
    {
        const uint32_t how = sim_choose(3);   // before, torn, after
        size_t k = how == 0 ? 0 : how == 2 ? n : (n > 1 ? 1 + sim_choose((uint32_t)n - 1) : 0);
        if (k) apply_write(f, p, k);
        if (how == 1) sim_count("fault:torn_write", 1);
        sim_trace("write %d %zu: died with %zu on disk", fd - FD0, n, k);
        core_crash_here();
    }
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (eintr_draw()) { errno = EINTR; sim_trace("write %d %zu -> EINTR", fd - FD0, n); return -1; }
    if (err_draw(sim_disk.enospc, "ENOSPC")) { errno = ENOSPC; sim_trace("write %d %zu -> ENOSPC", fd - FD0, n); return -1; }
    if (err_draw(sim_disk.eio_write, "EIO_write")) { errno = EIO; sim_trace("write %d %zu -> EIO", fd - FD0, n); return -1; }
    size_t k = n;
    if (n > 1 && sim_disk.short_write && sim_chance(sim_disk.short_write)) { k = 1 + sim_choose((uint32_t)n - 1); sim_count("fault:short_write", 1); }
    if (sim_disk.capacity >= 0)
    {
        const int64_t room = sim_disk.capacity - used_bytes();
        if (room <= 0 && n) { errno = ENOSPC; ++n_errors; sim_count("fault:disk_full", 1); sim_trace("write %d %zu -> ENOSPC (full)", fd - FD0, n); return -1; }
        if ((int64_t)k > room) { k = (size_t)room; sim_count("fault:disk_full_partial", 1); }
    }
    apply_write(f, p, k);
    sim_trace("write %d %zu -> %zu", fd - FD0, n, k);
    return (ssize_t)k;
}

ssize_t vread(int fd, char* p, size_t n)
{
    Fd* f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    enter("read");
    if (crash_draw("read")) core_crash_here();
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (eintr_draw()) { errno = EINTR; sim_trace("read %d %zu -> EINTR", fd - FD0, n); return -1; }
    if (err_draw(sim_disk.eio_read, "EIO_read")) { errno = EIO; sim_trace("read %d %zu -> EIO", fd - FD0, n); return -1; }
    Inode& i = inodes[f->inode];
    if (f->off < i.base)
    {
        const size_t h = i.base - f->off < n ? i.base - f->off : n;
        memset(p, '#', h);
        f->off += h;
        sim_trace("read %d %zu -> %zu of the hole", fd - FD0, n, h);
        return (ssize_t)h;
    }
    size_t k = f->off - i.base < i.size ? i.size - (f->off - i.base) : 0;
    if (k > n) k = n;
    if (k > 1 && sim_disk.short_read && sim_chance(sim_disk.short_read)) { k = 1 + sim_choose((uint32_t)k - 1); sim_count("fault:short_read", 1); }
    memcpy(p, i.data + (f->off - i.base), k);
    f->off += k;
    sim_trace("read %d %zu -> %zu", fd - FD0, n, k);
    return (ssize_t)k;
}

off_t vlseek(int fd, off_t off, int whence)
{
    Fd* f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    enter("lseek");
    if (crash_draw("lseek")) core_crash_here();
    int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)f->off : (int64_t)(inodes[f->inode].base + inodes[f->inode].size);
    b += off;
    if (b < 0) { errno = EINVAL; return -1; }
    f->off = (size_t)b;
    sim_trace("lseek %d %lld %d -> %lld", fd - FD0, (long long)off, whence, (long long)b);
    return (off_t)b;
}

// ---- FILE objects over simulated descriptors ------------------------------------------------------------------

ssize_t ck_read(void* c, char* b, size_t n) { return vread((int)(intptr_t)c, b, n); }
ssize_t ck_write(void* c, const char* b, size_t n)
{
    size_t done = 0;
    while (done < n)
    {
        ssize_t k = vwrite((int)(intptr_t)c, b + done, n - done);
        if (k < 0) return (ssize_t)done;
        done += (size_t)k;
    }
    return (ssize_t)done;
}
int ck_seek(void* c, off64_t* o, int w)
{
    off_t r = vlseek((int)(intptr_t)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
int ck_close(void* c) { return vclose((int)(intptr_t)c); }

FileObj* fobj(FILE* fp)
{
    for (int i = 0; i < MAXFD; ++i) if (fobjs[i].fp == fp && fp) return &fobjs[i];
    return nullptr;
}

FILE* wrap(int fd, const char* mode)
{
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* fp = fopencookie((void*)(intptr_t)fd, mode, io);
    if (!fp) return nullptr;
    for (int i = 0; i < MAXFD; ++i) if (!fobjs[i].fp) { fobjs[i].fp = fp; fobjs[i].fd = fd; return fp; }
    return fp;
}

int mode_flags(const char* m)
{
    int f;
    const bool plus = strchr(m, '+') != nullptr;
    if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}

bool path_ours(const char* p)
{
    if (!sim_on()) return false;
    return strncmp(p, "/proc", 5) && strncmp(p, "/dev", 4) && strncmp(p, "/etc", 4) && strncmp(p, "/sys", 4) && strncmp(p, "/usr", 4);
}

// ---- console -----------------------------------------------------------------------------------------------------

struct Out { char* data; size_t n, cap; char* buf; size_t bn; size_t bcap; uint32_t calls; int err; };
Out outs[3];
char* in_data; size_t in_n, in_pos, in_buf_end; int in_eof;
uint32_t con_errors;
void (*on_block)(void*); void* on_block_arg;

void out_reserve(char*& p, size_t& cap, size_t n)
{
    if (n <= cap) return;
    size_t c = cap ? cap : 256;
    while (c < n) c *= 2;
    p = (char*)realloc(p, c);
    cap = c;
}

ssize_t con_device_write(int fd, const char* p, size_t n)
{
    Out& o = outs[fd];
    sim_step("console write");
    g_now += 10000;
    if (sim_console.out_slow && sim_chance(sim_console.out_slow)) { g_now += 1000000000ull * (1 + sim_choose(30)); sim_count("fault:slow_console", 1); sim_trace("slow console"); }
    ++o.calls;
    if (sim_console.out_error && con_errors < sim_console.max_errors && sim_chance(sim_console.out_error))
    {
        ++con_errors;
        static const int e[] = {EIO, EPIPE, EAGAIN, EINTR, ENOSPC};
        errno = e[sim_choose(5)];
        sim_count("fault:console_error", 1);
        sim_trace("console %d write %zu -> errno %d", fd, n, errno);
        return -1;
    }
    size_t k = n;
    if (n > 1 && sim_console.out_short && sim_chance(sim_console.out_short)) { k = 1 + sim_choose((uint32_t)n - 1); sim_count("fault:console_short_write", 1); }
    out_reserve(o.data, o.cap, o.n + k);
    memcpy(o.data + o.n, p, k);
    o.n += k;
    sim_trace("console %d write %zu -> %zu", fd, n, k);
    return (ssize_t)k;
}

// like glibc: a failing flush drops what was buffered and sets the error flag
int con_flush_all(int fd, const char* p, size_t n)
{
    size_t done = 0;
    while (done < n)
    {
        ssize_t k = con_device_write(fd, p + done, n - done);
        if (k < 0) { outs[fd].err = 1; return -1; }
        done += (size_t)k;
    }
    return 0;
}

int con_flush(int fd)
{
    Out& o = outs[fd];
    const size_t n = o.bn;
    o.bn = 0;
    if (!n) return 0;
    return con_flush_all(fd, o.buf, n);
}

// returns bytes accepted
size_t con_put(int fd, const char* p, size_t n)
{
    core_sched_point("console", 0);
    hb_acquire(&outs[fd]);
    size_t r = n;
    Out& o = outs[fd];
    if (fd == 2) { if (n && con_flush_all(2, p, n)) r = 0; }
    else
    {
        const size_t cap = sim_console.out_buffer;
        if (o.bn + n > cap)
        {
            if (con_flush(fd)) r = 0;
            else if (n >= cap) { if (con_flush_all(fd, p, n)) r = 0; }
            else { out_reserve(o.buf, o.bcap, n); memcpy(o.buf, p, n); o.bn = n; }
        }
        else { out_reserve(o.buf, o.bcap, o.bn + n); memcpy(o.buf + o.bn, p, n); o.bn += n; }
    }
    hb_release(&outs[fd]);
    return r;
}

int con_fd(FILE* fp)
{
    if (!sim_on()) return -1;
    if (fp == stdout) return 1;
    if (fp == stderr) return 2;
    if (fp == stdin) return 0;
    return -1;
}

// device read of standard input into the stdio buffer; false at end of input
bool con_fill()
{
    core_sched_point("console read", 0);
    sim_step("console read");
    g_now += 10000;
    if (on_block) on_block(on_block_arg);
    size_t k = in_n - in_buf_end;
    if (k == 0) { in_eof = 1; sim_trace("console read -> end of input"); return false; }
    uint32_t m = sim_console.in_chunk ? sim_console.in_chunk : 1;
    if (k > m) k = m;
    if (k > 1) k = (size_t)(k - sim_choose((uint32_t)k));
    in_buf_end += k;
    sim_count("fault:console_chunked_read", 1);
    sim_trace("console read -> %zu", k);
    return true;
}

int con_getc()
{
    if (in_pos >= in_buf_end) { if (in_eof || !con_fill()) return EOF; }
    return (unsigned char)in_data[in_pos++];
}

// ---- clock -------------------------------------------------------------------------------------------------------

int clk_mode; uint64_t clk_tick = 1; uint64_t (*clk_fn)(void*); void* clk_arg; uint32_t clk_reads; int64_t clk_wall;   // wall clock minus monotonic clock

uint64_t clock_read()
{
    ++clk_reads;
    sim_step("clock");
    if (clk_mode == 1 && clk_fn) g_now = clk_fn(clk_arg);
    else g_now += clk_tick;
    return g_now;
}

}  // namespace

extern "C" {

void sim_disk_faults_off(void)
{
    const int64_t cap = sim_disk.capacity;
    memset(&sim_disk, 0, sizeof sim_disk);
    sim_disk.capacity = cap;
}
uint32_t sim_disk_errors(void) { return n_errors; }
void sim_disk_put(const char* path, const void* data, size_t n)
{
    Inode* i = find(path);
    if (!i) i = create(path);
    grow(*i, n ? n : 1);
    memcpy(i->data, data, n);
    i->size = n;
    i->base = 0;
}
void sim_disk_hole(const char* path, uint64_t n) { Inode* i = find(path); if (i) i->base = n; }
long sim_disk_size(const char* path) { Inode* i = find(path); return i ? (long)i->size : -1; }
size_t sim_disk_get(const char* path, void* out, size_t cap)
{
    Inode* i = find(path);
    if (!i) return 0;
    size_t n = i->size < cap ? i->size : cap;
    memcpy(out, i->data, n);
    return n;
}
void sim_disk_remove(const char* path) { Inode* i = find(path); if (i) i->linked = 0; }
int sim_disk_files(void) { int n = 0; for (int i = 0; i < MAXINODE; ++i) n += inodes[i].linked; return n; }
void sim_disk_reset(void)
{
    for (int i = 0; i < MAXINODE; ++i) { inodes[i].linked = 0; inodes[i].refs = 0; inodes[i].size = inodes[i].base = 0; }
    for (int i = 0; i < MAXFD; ++i) { fds[i].used = 0; fobjs[i].fp = nullptr; }
    n_errors = 0; n_eintr = 0;
}
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; ++i) n += fds[i].used; return n; }
void sim_write_marks_reset(void) { n_wmarks = 0; }
uint32_t sim_write_marks(uint64_t* out, uint32_t cap)
{
    uint32_t k = n_wmarks < cap ? n_wmarks : cap;
    memcpy(out, wmarks, k * sizeof *out);
    return k;
}
uint32_t sim_syscalls(void) { return n_syscalls; }
void sim_process_restart(void)
{
    for (int i = 0; i < MAXFD; ++i)
    {
        if (fds[i].used) { inodes[fds[i].inode].refs--; fds[i].used = 0; }
        fobjs[i].fp = nullptr;
    }
    n_eintr = 0;
}

void sim_console_reset(void)
{
    for (int i = 0; i < 3; ++i) { outs[i].n = 0; outs[i].bn = 0; outs[i].calls = 0; outs[i].err = 0; }
    in_n = in_pos = in_buf_end = 0; in_eof = 0; con_errors = 0;
}
void sim_console_input(const void* data, size_t n)
{
    in_data = (char*)realloc(in_data, in_n + n + 1);
    memcpy(in_data + in_n, data, n);
    in_n += n;
}
size_t sim_console_delivered(int fd, void* out, size_t cap)
{
    if (!out) return outs[fd].n;
    size_t n = outs[fd].n < cap ? outs[fd].n : cap;
    memcpy(out, outs[fd].data, n);
    return n;
}
size_t sim_console_pending(int fd) { return outs[fd].bn; }
uint32_t sim_console_errors(void) { return con_errors; }
uint32_t sim_console_write_calls(int fd) { return outs[fd].calls; }
void sim_console_on_block(void (*fn)(void*), void* arg) { on_block = fn; on_block_arg = arg; }

uint64_t sim_now_ns(void) { return g_now; }
void sim_advance_ns(uint64_t d) { g_now += d; }
void sim_clock_mode(int mode, uint64_t tick) { clk_mode = mode; clk_tick = tick; }
void sim_clock_on_read(uint64_t (*fn)(void*), void* arg) { clk_fn = fn; clk_arg = arg; }
void sim_clock_set(uint64_t ns) { g_now = ns; }
void sim_wall_jump(int64_t d) { clk_wall += d; }
uint32_t sim_clock_reads(void) { return clk_reads; }

ssize_t real_write_err(const void* p, size_t n) { return syscall(SYS_write, 2, p, n); }

// ---- interposed libc -------------------------------------------------------------------------------------------

#define VIS __attribute__((visibility("default")))

VIS FILE* fopen(const char* path, const char* mode)
{
    if (!path_ours(path)) return REAL(fopen)(path, mode);
    const int fd = vopen(path, mode_flags(mode));
    if (fd < 0) return nullptr;
    return wrap(fd, mode);
}
VIS FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
VIS FILE* fdopen(int fd, const char* mode)
{
    if (!sim_on() || !getfd(fd)) return REAL(fdopen)(fd, mode);
    return wrap(fd, mode);
}
VIS FILE* freopen(const char* path, const char* mode, FILE* fp)
{
    if (!sim_on()) return REAL(freopen)(path, mode, fp);
    sim_fail("harness", "freopen is not modelled");
}
VIS int fclose(FILE* fp)
{
    FileObj* o = sim_on() ? fobj(fp) : nullptr;
    if (!o) return REAL(fclose)(fp);
    o->fp = nullptr;
    return REAL(fclose)(fp);
}
VIS int fileno(FILE* fp)
{
    FileObj* o = sim_on() ? fobj(fp) : nullptr;
    return o ? o->fd : REAL(fileno)(fp);
}
VIS int fflush(FILE* fp)
{
    const int c = fp ? con_fd(fp) : -1;
    if (!fp && sim_on()) { int r = con_flush(1); int q = REAL(fflush)(nullptr); return r ? r : q; }
    if (c == 1)
    {
        core_sched_point("console flush", 0);
        hb_acquire(&outs[1]);
        int r = con_flush(1);
        hb_release(&outs[1]);
        return r;
    }
    if (c >= 0) return 0;
    return REAL(fflush)(fp);
}
VIS int open(const char* path, int flags, ...)
{
    int mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    if (!path_ours(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return vopen(path, flags);
}
VIS int open64(const char* path, int flags, ...)
{
    int mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    if (!path_ours(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return vopen(path, flags);
}
VIS int creat(const char* path, mode_t mode)
{
    if (!path_ours(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
    return vopen(path, O_CREAT | O_WRONLY | O_TRUNC);
}
VIS int close(int fd)
{
    if (sim_on() && fd >= FD0 && fd < FD0 + MAXFD) return vclose(fd);
    return (int)syscall(SYS_close, fd);
}
VIS ssize_t read(int fd, void* p, size_t n)
{
    if (sim_on() && fd >= FD0 && fd < FD0 + MAXFD) return vread(fd, (char*)p, n);
    if (sim_on() && fd == 0)
    {
        if (in_pos >= in_buf_end && !con_fill()) return 0;
        size_t k = in_buf_end - in_pos;
        if (k > n) k = n;
        memcpy(p, in_data + in_pos, k);
        in_pos += k;
        return (ssize_t)k;
    }
    return syscall(SYS_read, fd, p, n);
}
VIS ssize_t write(int fd, const void* p, size_t n)
{
    if (sim_on() && fd >= FD0 && fd < FD0 + MAXFD) return vwrite(fd, (const char*)p, n);
    if (sim_on() && (fd == 1 || fd == 2)) { core_sched_point("console write", 0); return con_device_write(fd, (const char*)p, n); }
    return syscall(SYS_write, fd, p, n);
}
VIS ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (sim_on() && ((fd >= FD0 && fd < FD0 + MAXFD) || fd == 1 || fd == 2))
    {
        size_t n = 0;
        for (int i = 0; i < c; ++i) n += v[i].iov_len;
        char* b = (char*)malloc(n ? n : 1);
        size_t at = 0;
        for (int i = 0; i < c; ++i) { memcpy(b + at, v[i].iov_base, v[i].iov_len); at += v[i].iov_len; }
        ssize_t r = write(fd, b, n);
        const int e = errno;
        free(b);
        errno = e;
        return r;
    }
    return syscall(SYS_writev, fd, v, c);
}
VIS ssize_t pread(int fd, void* p, size_t n, off_t off)
{
    Fd* f = sim_on() ? getfd(fd) : nullptr;
    if (!f) return syscall(SYS_pread64, fd, p, n, off);
    const size_t keep = f->off;
    f->off = (size_t)off;
    ssize_t r = vread(fd, (char*)p, n);
    f->off = keep;
    return r;
}
VIS ssize_t pwrite(int fd, const void* p, size_t n, off_t off)
{
    Fd* f = sim_on() ? getfd(fd) : nullptr;
    if (!f) return syscall(SYS_pwrite64, fd, p, n, off);
    const size_t keep = f->off;
    f->off = (size_t)off;
    ssize_t r = vwrite(fd, (const char*)p, n);
    f->off = keep;
    return r;
}
VIS off_t lseek(int fd, off_t o, int w)
{
    if (sim_on() && fd >= FD0 && fd < FD0 + MAXFD) return vlseek(fd, o, w);
    return (off_t)syscall(SYS_lseek, fd, o, w);
}
VIS off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
VIS int ftruncate(int fd, off_t n)
{
    Fd* f = sim_on() ? getfd(fd) : nullptr;
    if (!f) return (int)syscall(SYS_ftruncate, fd, n);
    enter("ftruncate");
    if (crash_draw("ftruncate")) core_crash_here();
    if (err_draw(sim_disk.eio_write, "EIO_truncate")) { errno = EIO; return -1; }
    Inode& i = inodes[f->inode];
    if (i.base && n) sim_fail("harness", "a file with a hole is cut");
    i.base = 0;
    grow(i, (size_t)n);
    if ((size_t)n > i.size) memset(i.data + i.size, 0, (size_t)n - i.size);
    i.size = (size_t)n;
    sim_trace("ftruncate %d %lld", fd - FD0, (long long)n);
    return 0;
}
VIS int truncate(const char* path, off_t n)
{
    if (!path_ours(path)) return (int)syscall(SYS_truncate, path, n);
    const int fd = vopen(path, O_RDWR);
    if (fd < 0) return -1;
    const int r = ftruncate(fd, n);
    fds[fd - FD0].used = 0;
    inodes[fds[fd - FD0].inode].refs--;
    return r;
}
VIS int unlink(const char* path)
{
    if (!path_ours(path)) return (int)syscall(SYS_unlink, path);
    enter("unlink");
    if (crash_draw("unlink")) core_crash_here();
    if (err_draw(sim_disk.open_fail, "unlink")) { errno = EACCES; return -1; }
    Inode* i = find(path);
    if (!i) { errno = ENOENT; return -1; }
    i->linked = 0;
    sim_trace("unlink %s", path);
    return 0;
}
VIS int remove(const char* path) { return path_ours(path) ? unlink(path) : REAL(remove)(path); }
VIS int rename(const char* a, const char* b)
{
    if (!path_ours(a)) return (int)syscall(SYS_rename, a, b);
    enter("rename");
    if (crash_draw("rename")) core_crash_here();
    if (err_draw(sim_disk.open_fail, "rename")) { errno = EACCES; return -1; }
    Inode* i = find(a);
    if (!i) { errno = ENOENT; return -1; }
    Inode* j = find(b);
    if (j && j != i) j->linked = 0;
    snprintf(i->name, sizeof i->name, "%s", b);
    sim_trace("rename %s %s", a, b);
    return 0;
}
VIS int access(const char* path, int mode)
{
    if (!path_ours(path)) return (int)syscall(SYS_access, path, mode);
    if (find(path)) return 0;
    errno = ENOENT;
    return -1;
}
static int fill_stat(struct stat* st, Inode* i)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t)(i->base + i->size);
    st->st_blksize = 4096;
    st->st_nlink = 1;
    st->st_ino = (ino_t)(i - inodes) + 1;
    return 0;
}
VIS int fstat(int fd, struct stat* st)
{
    Fd* f = sim_on() ? getfd(fd) : nullptr;
    if (!f) return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
    return fill_stat(st, &inodes[f->inode]);
}
VIS int stat(const char* path, struct stat* st)
{
    if (!path_ours(path)) return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
    Inode* i = find(path);
    if (!i) { errno = ENOENT; return -1; }
    return fill_stat(st, i);
}
VIS int lstat(const char* path, struct stat* st) { if (path_ours(path)) return stat(path, st); return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
VIS int fsync(int fd) { if (sim_on() && getfd(fd)) { enter("fsync"); return 0; } return (int)syscall(SYS_fsync, fd); }
VIS int fdatasync(int fd) { if (sim_on() && getfd(fd)) { enter("fdatasync"); return 0; } return (int)syscall(SYS_fdatasync, fd); }
VIS int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    Fd* f = sim_on() ? getfd(fd) : nullptr;
    if (!f) return (int)syscall(SYS_ioctl, fd, req, arg);
    if (req == FIONREAD)
    {
        Inode& i = inodes[f->inode];
        *(int*)arg = (int)(f->off < i.base + i.size ? i.base + i.size - f->off : 0);
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
VIS int poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (sim_on() && n == 1 && (getfd(p[0].fd) || p[0].fd == 0)) { p[0].revents = p[0].events; return 1; }
    return (int)syscall(SYS_poll, p, n, timeout);
}
VIS int isatty(int fd) { if (sim_on()) { errno = ENOTTY; return 0; } struct termios_ { char x[64]; } t; return syscall(SYS_ioctl, fd, 0x5401, &t) == 0; }

// stdio on the console
VIS size_t fwrite(const void* p, size_t s, size_t n, FILE* fp)
{
    const int c = con_fd(fp);
    if (c < 1) return REAL(fwrite)(p, s, n, fp);
    if (!s || !n) return 0;
    return con_put(c, (const char*)p, s * n) / s;
}
VIS int fputs(const char* s, FILE* fp)
{
    const int c = con_fd(fp);
    if (c < 1) return REAL(fputs)(s, fp);
    const size_t n = strlen(s);
    return con_put(c, s, n) == n ? 1 : EOF;
}
VIS int fputc(int ch, FILE* fp)
{
    const int c = con_fd(fp);
    if (c < 1) return REAL(fputc)(ch, fp);
    const char b = (char)ch;
    return con_put(c, &b, 1) == 1 ? (unsigned char)b : EOF;
}
#undef putc
VIS int putc(int ch, FILE* fp) { return fputc(ch, fp); }
VIS int putchar(int ch) { return fputc(ch, stdout); }
VIS int puts(const char* s)
{
    if (!sim_on()) return REAL(puts)(s);
    return (fputs(s, stdout) == EOF || fputc('\n', stdout) == EOF) ? EOF : 1;
}
static int con_vprintf(int c, const char* fmt, va_list ap)
{
    va_list cp;
    va_copy(cp, ap);
    const int n = vsnprintf(nullptr, 0, fmt, cp);
    va_end(cp);
    if (n < 0) return n;
    char* b = (char*)malloc((size_t)n + 1);
    vsnprintf(b, (size_t)n + 1, fmt, ap);
    const size_t k = con_put(c, b, (size_t)n);
    free(b);
    return k == (size_t)n ? n : -1;
}
VIS int vfprintf(FILE* fp, const char* fmt, va_list ap)
{
    const int c = con_fd(fp);
    if (c < 1) return REAL(vfprintf)(fp, fmt, ap);
    return con_vprintf(c, fmt, ap);
}
VIS int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
VIS int printf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
VIS int fprintf(FILE* fp, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = vfprintf(fp, fmt, ap);
    va_end(ap);
    return r;
}
VIS int fgetc(FILE* fp)
{
    if (con_fd(fp) != 0) return REAL(fgetc)(fp);
    return con_getc();
}
#undef getc
VIS int getc(FILE* fp) { return fgetc(fp); }
VIS int getchar(void) { return fgetc(stdin); }
VIS int ungetc(int ch, FILE* fp)
{
    if (con_fd(fp) != 0) return REAL(ungetc)(ch, fp);
    if (ch == EOF || in_pos == 0) return EOF;
    --in_pos;
    in_data[in_pos] = (char)ch;
    return ch;
}
VIS size_t fread(void* p, size_t s, size_t n, FILE* fp)
{
    if (con_fd(fp) != 0) return REAL(fread)(p, s, n, fp);
    size_t i = 0;
    for (; i < s * n; ++i)
    {
        const int ch = con_getc();
        if (ch == EOF) break;
        ((char*)p)[i] = (char)ch;
    }
    return s ? i / s : 0;
}

// clock
VIS int clock_gettime(clockid_t id, struct timespec* t)
{
    if (!sim_on() || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int)syscall(SYS_clock_gettime, id, t);
    uint64_t n = clock_read();
    if (id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME) n += (uint64_t)clk_wall;
    t->tv_sec = (time_t)(n / 1000000000ull);
    t->tv_nsec = (long)(n % 1000000000ull);
    return 0;
}
VIS int gettimeofday(struct timeval* tv, void* tz)
{
    if (!sim_on()) return (int)syscall(SYS_gettimeofday, tv, tz);
    const uint64_t n = clock_read() + (uint64_t)clk_wall;
    tv->tv_sec = (time_t)(n / 1000000000ull);
    tv->tv_usec = (suseconds_t)(n % 1000000000ull / 1000);
    return 0;
}
VIS time_t time(time_t* t)
{
    time_t v;
    if (!sim_on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    else v = (time_t)((clock_read() + (uint64_t)clk_wall) / 1000000000ull);
    if (t) *t = v;
    return v;
}
VIS clock_t clock(void)
{
    if (sim_on()) { clock_read(); return (clock_t)clk_reads; }   // processor time: waiting costs none
    return REAL(clock)();
}
VIS int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (!sim_on()) return (int)syscall(SYS_nanosleep, a, b);
    g_now += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
    core_sched_point("sleep", 0);
    return 0;
}
VIS int clock_nanosleep(clockid_t id, int flags, const struct timespec* a, struct timespec* b)
{
    if (!sim_on()) return (int)syscall(SYS_clock_nanosleep, id, flags, a, b);
    const uint64_t v = (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec;
    if (flags & TIMER_ABSTIME) { if (v > g_now) g_now = v; }
    else g_now += v;
    core_sched_point("sleep", 0);
    return 0;
}
VIS int usleep(useconds_t u) { if (sim_on()) { g_now += (uint64_t)u * 1000; core_sched_point("sleep", 0); return 0; } return REAL(usleep)(u); }
VIS unsigned sleep(unsigned s) { if (sim_on()) { g_now += (uint64_t)s * 1000000000ull; core_sched_point("sleep", 0); return 0; } return REAL(sleep)(s); }
VIS int getentropy(void* p, size_t n)
{
    if (!sim_on()) return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1;
    for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)sim_choose(256);
    return 0;
}
VIS ssize_t getrandom(void* p, size_t n, unsigned f)
{
    if (!sim_on()) return syscall(SYS_getrandom, p, n, f);
    return getentropy(p, n) == 0 ? (ssize_t)n : -1;
}
VIS int rand(void) { return sim_on() ? (int)sim_choose(0x7fffffff) : REAL(rand)(); }
VIS uint32_t arc4random(void) { return sim_on() ? sim_choose(0xffffffffu) : (uint32_t)core_prng(); }

}  // extern "C"

// std::random_device draws from the simulator (a library change might start using it)
std::random_device::result_type std::random_device::_M_getval() { return (result_type)sim_choose(0xffffffffu); }
