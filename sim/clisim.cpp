// htmlext on a simulated operating system.
//
// Each run is one forked process in which the real htmlext main(), libhext, libstdc++ and libc run
// unchanged; a seccomp filter turns every file-related system call into a signal whose handler *is* the
// operating system: files, pipes, standard streams, their faults and their timing all come from the plan.
#include "driver.hpp"
#include "gen.hpp"

#include "hext/Hext.h"

#include <cerrno>
#include <cstddef>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <new>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

int htmlext_main(int argc, const char** argv);

extern "C" const char* __asan_default_options() {
  return "exitcode=77:detect_leaks=0:symbolize=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=4";
}
extern "C" const char* __ubsan_default_options() { return "symbolize=0:print_stacktrace=0"; }

// ---- result block shared between the simulated process and the simulator -----
struct Shm {
  static constexpr std::size_t OUT = 16u << 20, ERR = 256u << 10, EV = 512u << 10;
  int ended;            // exit_group was reached
  int code;
  unsigned outlen, errlen, evlen;
  unsigned steps, syscalls;
  int out_failed;       // a write to stdout was refused
  int hang;
  unsigned fired[32];   // fault counters, see Kind
  unsigned allocs;      // allocations of the program
  unsigned long long evhash;
  unsigned long long clock;   // basic blocks executed by libhext and htmlext
  int nfiles;
  struct { int open_failed, read_failed, opened, eof; unsigned delivered; } f[64];
  char out[OUT], err[ERR], ev[EV];
};
static Shm* shm;

enum Kind { F_SHORT, F_EINTR, F_READERR, F_OPENERR, F_STAT, F_MAXOPEN, F_WSHORT, F_WEINTR, F_WERR, F_PIPE, F_STDIN,
            F_DIR, F_ERRSHORT, F_ALLOC, F_GUMBO, F_N };
static const char* kind_name[] = {"read_short", "read_eintr", "read_error", "open_error", "stat_size_lies", "open_limit",
                                  "write_short", "write_eintr", "write_error", "delivered_by_pipe", "delivered_by_stdin",
                                  "is_directory", "stderr_short_or_eintr", "allocation_failed", "gumbo_allocation_failed"};

struct Ev { char k; long v; };
struct VFile {
  std::string name, kind, content;
  std::vector<Ev> rd;
  std::size_t rdpos = 0;
  int openerr = 0;
  int dead = 0;          // errno of a persistent read failure
  long statsize = -1;
  std::size_t pos = 0;   // pipes
  bool pipe() const { return kind == "fifo" || kind == "stdin"; }
};
struct VFd { int file = -1; std::size_t off = 0; };

// Never destroyed: the system calls made by the process's own exit handlers still need them.
static std::vector<VFile>& vfs = *new std::vector<VFile>;
static VFd fds[64];
static constexpr int FDBASE = 200;
static int stdin_file = -1;
static int maxopen = 0, tty_out = 0, tty_err = 0;
static std::vector<Ev>& outev = *new std::vector<Ev>;
static std::vector<Ev>& errev = *new std::vector<Ev>;
static std::size_t outpos, errpos;
static int out_dead;
static const long STEP_LIMIT = 200000;

// ---- the allocator: operator new of the simulated process --------------------
static bool alloc_armed, in_handler;
static unsigned long alloc_from, alloc_to;     // of these, alloc_from < n <= alloc_to fail
static std::size_t alloc_big;                  // requests of at least this size fail
static bool alloc_fails(std::size_t n) {
  if (!alloc_armed || in_handler) return false;
  ++shm->allocs;
  if ((shm->allocs > alloc_from && shm->allocs <= alloc_to) || (alloc_big && n >= alloc_big)) { shm->fired[F_ALLOC]++; return true; }
  return false;
}
#ifdef SIM_MALLOC
// Without a sanitizer malloc is a seam as well. The simulated process calls it
// from the program itself (RapidJSON is a header) and from Gumbo.
extern "C" { void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); }
static std::uintptr_t exe_lo, exe_hi, gumbo_lo, gumbo_hi;
static unsigned long gumbo_from, gumbo_count;   // this many of Gumbo's requests succeed
static int module_range(struct dl_phdr_info* i, size_t, void*) {
  bool exe = !i->dlpi_name || !*i->dlpi_name, gumbo = i->dlpi_name && std::strstr(i->dlpi_name, "libgumbo");
  if (!exe && !gumbo) return 0;
  std::uintptr_t lo = ~0ul, hi = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    lo = std::min<std::uintptr_t>(lo, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
    hi = std::max<std::uintptr_t>(hi, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
  }
  if (exe) { if (!exe_lo) { exe_lo = lo; exe_hi = hi; } } else { gumbo_lo = lo; gumbo_hi = hi; }
  return 0;
}
static bool malloc_fails(std::size_t n, void* caller) {
  if (!alloc_armed || in_handler) return false;
  std::uintptr_t c = reinterpret_cast<std::uintptr_t>(caller);
  if (c >= gumbo_lo && c < gumbo_hi) {
    if (!gumbo_from || ++gumbo_count != gumbo_from) return false;
    shm->fired[F_GUMBO]++;
    return true;
  }
  return c >= exe_lo && c < exe_hi && alloc_fails(n);
}
extern "C" void* malloc(size_t n) { return malloc_fails(n, __builtin_return_address(0)) ? nullptr : __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) { return malloc_fails(a * b, __builtin_return_address(0)) ? nullptr : __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { return malloc_fails(n, __builtin_return_address(0)) ? nullptr : __libc_realloc(p, n); }
static void* raw_malloc(std::size_t n) { return __libc_malloc(n); }
#else
static unsigned long gumbo_from;
static void* raw_malloc(std::size_t n) { return std::malloc(n); }
#endif
static void* must(std::size_t n) {
  if (alloc_fails(n)) throw std::bad_alloc();
  void* p = raw_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void* must_al(std::size_t n, std::size_t a) {
  if (alloc_fails(n)) throw std::bad_alloc();
  void* p = nullptr;
  if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc();
  return p;
}
void* operator new(std::size_t n) { return must(n); }
void* operator new[](std::size_t n) { return must(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return alloc_fails(n) ? nullptr : raw_malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return alloc_fails(n) ? nullptr : raw_malloc(n ? n : 1); }
void* operator new(std::size_t n, std::align_val_t a) { return must_al(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return must_al(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

// ---- step clock: basic blocks of the code under test --------------------------
static unsigned long long clk, clk_limit = ~0ull;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
static void finish(int code);
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (++clk > clk_limit) { shm->hang = 1; finish(99); }
}

// ---- the only real system calls the simulated process makes --------------------
extern "C" long sim_raw(long nr, long a, long b, long c, long d, long e, long f);
__asm__(
    ".pushsection .simraw,\"ax\",@progbits\n.balign 4096\n.globl sim_raw\nsim_raw:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
    "syscall\nret\n.balign 4096\n.popsection\n");

static void ev(const char* f, long a = 0, long b = 0, long c = 0) {
  char buf[160];
  int n = std::snprintf(buf, sizeof buf, f, a, b, c);
  if (n < 0) return;
  shm->evhash = sim::fnv(buf, static_cast<std::size_t>(n), shm->evhash ? shm->evhash : 1469598103934665603ull);
  if (shm->evlen + static_cast<unsigned>(n) + 2 < Shm::EV) {
    std::memcpy(shm->ev + shm->evlen, buf, static_cast<std::size_t>(n));
    shm->evlen += static_cast<unsigned>(n);
    shm->ev[shm->evlen++] = '\n';
  }
}

static void finish(int code) {
  shm->ended = 1;
  shm->code = code;
  shm->clock = clk;
  ev("exit %ld", code);
  sim_raw(SYS_exit_group, code & 0xff, 0, 0, 0, 0, 0);
}

static int find_file(const char* path) {
  for (std::size_t i = 0; i < vfs.size(); ++i)
    if (vfs[i].kind != "stdin" && vfs[i].kind != "stdinreg" && vfs[i].name == path) return static_cast<int>(i);
  if (!std::strcmp(path, "/dev/stdin") || !std::strcmp(path, "/proc/self/fd/0") || !std::strcmp(path, "/dev/fd/0")) return stdin_file;
  return -1;
}
static bool system_path(const char* p) {
  for (auto s : {"/proc/", "/sys/", "/usr/", "/lib", "/etc/", "/dev/null", "/dev/urandom"})
    if (!std::strncmp(p, s, std::strlen(s))) return true;
  return false;
}
static VFd* vfd(long fd) {
  if (fd == 0) {
    static VFd in;
    in.file = stdin_file;
    return stdin_file >= 0 ? &in : nullptr;
  }
  if (fd >= FDBASE && fd < FDBASE + 64 && fds[fd - FDBASE].file >= 0) return &fds[fd - FDBASE];
  return nullptr;
}
static int alloc_fd(int file) {
  for (int i = 0; i < 64; ++i)
    if (fds[i].file < 0) { fds[i].file = file; fds[i].off = 0; return FDBASE + i; }
  return -EMFILE;
}
static long do_open(const char* path, long flags) {
  int f = find_file(path);
  if (f < 0) {
    if (system_path(path)) {
      if ((flags & O_ACCMODE) != O_RDONLY) return -EROFS;
      return sim_raw(SYS_openat, AT_FDCWD, reinterpret_cast<long>(path), flags, 0, 0, 0);
    }
    ev("open ? ENOENT");
    return -ENOENT;
  }
  VFile& v = vfs[static_cast<std::size_t>(f)];
  auto& r = shm->f[f];
  if ((flags & O_ACCMODE) != O_RDONLY) { ev("open %ld rw", f); return -EACCES; }
  if (v.kind == "missing") { r.open_failed = 1; shm->fired[F_OPENERR]++; ev("open %ld missing", f); return -ENOENT; }
  if (v.openerr) { r.open_failed = 1; shm->fired[F_OPENERR]++; ev("open %ld err %ld", f, v.openerr); return -v.openerr; }
  int open_now = 0;
  for (auto& d : fds) open_now += d.file >= 0;
  if (maxopen && open_now >= maxopen) { shm->fired[F_MAXOPEN]++; ev("open %ld EMFILE", f); return -EMFILE; }
  if (maxopen) shm->fired[F_MAXOPEN]++;
  r.opened++;
  int fd = alloc_fd(f);
  ev("open %ld -> %ld", f, fd);
  return fd;
}
static long do_read(long fd, VFd* d, char* buf, std::size_t n, long at) {
  VFile& v = vfs[static_cast<std::size_t>(d->file)];
  auto& r = shm->f[d->file];
  int fi = d->file;
  if (v.kind == "dir") { r.read_failed = 1; shm->fired[F_DIR]++; ev("read %ld EISDIR", fi); return -EISDIR; }
  if (v.dead) { ev("read %ld dead %ld", fi, v.dead); return -v.dead; }
  std::size_t pos = at >= 0 ? static_cast<std::size_t>(at) : v.pipe() ? v.pos : d->off;
  std::size_t avail = pos < v.content.size() ? v.content.size() - pos : 0;
  std::size_t k = std::min(n, avail);
  if (n && v.rdpos < v.rd.size()) {
    Ev e = v.rd[v.rdpos++];
    if (e.k == 'i') { shm->fired[F_EINTR]++; ev("read %ld EINTR", fi); return -EINTR; }
    if (e.k == 'e') {
      v.dead = static_cast<int>(e.v);
      r.read_failed = 1;
      shm->fired[F_READERR]++;
      ev("read %ld err %ld", fi, e.v);
      return -e.v;
    }
    if (e.k == 's' && e.v >= 1 && static_cast<std::size_t>(e.v) < k) { k = static_cast<std::size_t>(e.v); shm->fired[F_SHORT]++; }
  }
  if (k) {
    std::memcpy(buf, v.content.data() + pos, k);
    if (v.kind == "fifo") shm->fired[F_PIPE]++;
    if (v.kind[0] == 's') shm->fired[F_STDIN]++;
  }
  if (at < 0) { if (v.pipe()) v.pos += k; else d->off += k; }
  r.delivered += static_cast<unsigned>(k);
  if (!k && n) r.eof = 1;
  (void)fd;
  ev("read %ld %ld -> %ld", fi, static_cast<long>(n), static_cast<long>(k));
  return static_cast<long>(k);
}
static long do_write(long fd, const char* buf, std::size_t n) {
  if (fd == 1) {
    if (out_dead) { ev("write 1 dead"); return -out_dead; }
    std::size_t k = n;
    if (n && outpos < outev.size()) {
      Ev e = outev[outpos++];
      if (e.k == 'i') { shm->fired[F_WEINTR]++; ev("write 1 EINTR"); return -EINTR; }
      if (e.k == 'e') { out_dead = static_cast<int>(e.v); shm->out_failed = 1; shm->fired[F_WERR]++; ev("write 1 err %ld", e.v); return -e.v; }
      if (e.k == 's' && e.v >= 1 && static_cast<std::size_t>(e.v) < k) { k = static_cast<std::size_t>(e.v); shm->fired[F_WSHORT]++; }
      // the disk has room for e.v more bytes in total, then fails
      if (e.k == 'f') {
        std::size_t room = static_cast<std::size_t>(e.v) > shm->outlen ? static_cast<std::size_t>(e.v) - shm->outlen : 0;
        if (room < k) {
          if (!room) { out_dead = ENOSPC; shm->out_failed = 1; shm->fired[F_WERR]++; ev("write 1 ENOSPC"); return -ENOSPC; }
          k = room;
          shm->fired[F_WSHORT]++;
        }
        --outpos;
      }
    }
    if (shm->outlen + k > Shm::OUT) k = Shm::OUT - shm->outlen;
    std::memcpy(shm->out + shm->outlen, buf, k);
    shm->outlen += static_cast<unsigned>(k);
    ev("write 1 %ld -> %ld", static_cast<long>(n), static_cast<long>(k));
    return static_cast<long>(k);
  }
  std::size_t k = n;
  if (n && errpos < errev.size()) {
    Ev e = errev[errpos++];
    shm->fired[F_ERRSHORT]++;
    if (e.k == 'i') { ev("write 2 EINTR"); return -EINTR; }
    if (e.k == 's' && e.v >= 1 && static_cast<std::size_t>(e.v) < k) k = static_cast<std::size_t>(e.v);
  }
  if (shm->errlen + k > Shm::ERR) k = Shm::ERR - shm->errlen;
  if (!k) return static_cast<long>(n);
  std::memcpy(shm->err + shm->errlen, buf, k);
  shm->errlen += static_cast<unsigned>(k);
  ev("write 2 -> %ld", static_cast<long>(k));
  return static_cast<long>(k);
}
static void fill_stat(struct stat* st, int f, int std_fd) {
  std::memset(st, 0, sizeof *st);
  st->st_nlink = 1;
  st->st_blksize = 4096;
  if (f < 0) { st->st_mode = (std_fd == 1 ? tty_out : tty_err) ? (S_IFCHR | 0620) : (S_IFREG | 0644); st->st_ino = 7; return; }
  VFile& v = vfs[static_cast<std::size_t>(f)];
  st->st_ino = static_cast<ino_t>(100 + f);
  if (v.kind == "dir") st->st_mode = S_IFDIR | 0755;
  else if (v.pipe()) st->st_mode = S_IFIFO | 0644;
  else {
    st->st_mode = S_IFREG | 0644;
    st->st_size = v.statsize >= 0 ? v.statsize : static_cast<off_t>(v.content.size());
    if (v.statsize >= 0) shm->fired[F_STAT]++;
  }
}
static long do_stat_path(const char* path, struct stat* st) {
  int f = find_file(path);
  if (f < 0) return system_path(path) ? 1 : -ENOENT;
  VFile& v = vfs[static_cast<std::size_t>(f)];
  if (v.kind == "missing") return -ENOENT;
  fill_stat(st, f, -1);
  return 0;
}
static void to_statx(const struct stat& s, struct statx* x) {
  std::memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_mode = static_cast<__u16>(s.st_mode);
  x->stx_size = static_cast<__u64>(s.st_size);
  x->stx_ino = s.st_ino;
  x->stx_nlink = 1;
  x->stx_blksize = 4096;
}

static long handle(long nr, long a, long b, long c, long d, long e, long f) {
  auto pass = [&] { return sim_raw(nr, a, b, c, d, e, f); };
  bool std_fd = a == 1 || a == 2;
  switch (nr) {
    case SYS_open: return do_open(reinterpret_cast<const char*>(a), b);
    case SYS_openat: return do_open(reinterpret_cast<const char*>(b), c);
    case SYS_openat2: return -ENOSYS;
    case SYS_creat: return -EROFS;
    case SYS_read: case SYS_pread64: {
      VFd* v = vfd(a);
      if (!v) { if (a == 0 || std_fd) return a == 0 ? 0 : -EBADF; return pass(); }
      if (nr == SYS_pread64 && vfs[static_cast<std::size_t>(v->file)].pipe()) return -ESPIPE;
      return do_read(a, v, reinterpret_cast<char*>(b), static_cast<std::size_t>(c), nr == SYS_pread64 ? d : -1);
    }
    case SYS_readv: case SYS_preadv: case SYS_preadv2: {
      VFd* v = vfd(a);
      if (!v) { if (a == 0) return 0; return pass(); }
      auto iov = reinterpret_cast<const iovec*>(b);
      for (long i = 0; i < c; ++i)   // a vectored read may always stop after its first buffer
        if (iov[i].iov_len) return do_read(a, v, static_cast<char*>(iov[i].iov_base), iov[i].iov_len, nr == SYS_readv ? -1 : d);
      return 0;
    }
    case SYS_write: case SYS_pwrite64:
      if (std_fd) return do_write(a, reinterpret_cast<const char*>(b), static_cast<std::size_t>(c));
      if (vfd(a)) return -EBADF;
      return pass();
    case SYS_writev: case SYS_pwritev: {
      if (!std_fd) return vfd(a) ? -EBADF : pass();
      auto iov = reinterpret_cast<const iovec*>(b);
      std::string all;   // only on the caller's thread, outside malloc
      for (long i = 0; i < c; ++i) all.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
      return do_write(a, all.data(), all.size());
    }
    case SYS_lseek: {
      VFd* v = vfd(a);
      if (!v) return std_fd ? -ESPIPE : pass();
      VFile& vf = vfs[static_cast<std::size_t>(v->file)];
      if (vf.pipe()) return -ESPIPE;
      long size = vf.statsize >= 0 ? vf.statsize : static_cast<long>(vf.content.size());
      if (vf.kind == "dir") size = LONG_MAX;
      long base = c == SEEK_SET ? 0 : c == SEEK_CUR ? static_cast<long>(v->off) : size;
      if (c == SEEK_END && vf.statsize >= 0) shm->fired[F_STAT]++;
      if (base + b < 0) return -EINVAL;
      v->off = static_cast<std::size_t>(base + b);
      ev("lseek %ld -> %ld", v->file, static_cast<long>(v->off));
      return static_cast<long>(v->off);
    }
    case SYS_fstat: {
      VFd* v = vfd(a);
      if (!v && !std_fd && a != 0) return pass();
      fill_stat(reinterpret_cast<struct stat*>(b), v ? v->file : -1, static_cast<int>(a));
      return 0;
    }
    case SYS_stat: case SYS_lstat: { long r = do_stat_path(reinterpret_cast<const char*>(a), reinterpret_cast<struct stat*>(b)); return r == 1 ? pass() : r; }
    case SYS_newfstatat: {
      auto path = reinterpret_cast<const char*>(b);
      if (!path || !*path) {
        VFd* v = vfd(a);
        if (!v && !std_fd && a != 0) return pass();
        fill_stat(reinterpret_cast<struct stat*>(c), v ? v->file : -1, static_cast<int>(a));
        return 0;
      }
      long r = do_stat_path(path, reinterpret_cast<struct stat*>(c));
      return r == 1 ? pass() : r;
    }
    case SYS_statx: {
      auto path = reinterpret_cast<const char*>(b);
      struct stat s;
      if (!path || !*path) {
        VFd* v = vfd(a);
        if (!v && !std_fd && a != 0) return pass();
        fill_stat(&s, v ? v->file : -1, static_cast<int>(a));
      } else {
        long r = do_stat_path(path, &s);
        if (r == 1) return pass();
        if (r) return r;
      }
      to_statx(s, reinterpret_cast<struct statx*>(e));
      return 0;
    }
    case SYS_access: case SYS_faccessat: case SYS_faccessat2: {
      auto path = reinterpret_cast<const char*>(nr == SYS_access ? a : b);
      int fi = find_file(path);
      if (fi < 0) return system_path(path) ? pass() : -ENOENT;
      VFile& v = vfs[static_cast<std::size_t>(fi)];
      if (v.kind == "missing") return -ENOENT;
      if (v.openerr == EACCES) return -EACCES;
      return 0;
    }
    case SYS_close: {
      if (a >= FDBASE && a < FDBASE + 64) {
        if (fds[a - FDBASE].file < 0) return -EBADF;
        ev("close %ld", fds[a - FDBASE].file);
        fds[a - FDBASE].file = -1;
        return 0;
      }
      if (a >= 0 && a <= 2) return 0;
      return pass();
    }
    case SYS_ioctl:
      if (a == 1 || a == 2 || a == 0 || vfd(a)) {
        if (b == 0x5401 /* TCGETS */ && ((a == 1 && tty_out) || (a == 2 && tty_err))) { std::memset(reinterpret_cast<void*>(c), 0, 36); return 0; }
        if (b == 0x541B /* FIONREAD */ && vfd(a)) { *reinterpret_cast<int*>(c) = 0; return 0; }
        return -ENOTTY;
      }
      return pass();
    case SYS_poll: case SYS_ppoll: {
      auto p = reinterpret_cast<pollfd*>(a);
      for (long i = 0; i < b; ++i) p[i].revents = static_cast<short>(p[i].events & (POLLIN | POLLOUT));
      return b;
    }
    case SYS_select: case SYS_pselect6: return a > 0 ? 1 : 0;
    case SYS_mmap: {
      VFd* v = vfd(e);
      if (!v) return (e >= 0 && e <= 2) ? -ENODEV : pass();
      VFile& vf = vfs[static_cast<std::size_t>(v->file)];
      if (vf.pipe() || vf.kind == "dir") return -ENODEV;
      long m = sim_raw(SYS_mmap, 0, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m < 0) return m;
      std::size_t o = static_cast<std::size_t>(f);
      if (o < vf.content.size()) std::memcpy(reinterpret_cast<void*>(m), vf.content.data() + o, std::min(static_cast<std::size_t>(b), vf.content.size() - o));
      ev("mmap %ld", v->file);
      return m;
    }
    case SYS_fcntl:
      if (std_fd || a == 0 || vfd(a)) {
        if (b == F_GETFL) return std_fd ? O_WRONLY : O_RDONLY;
        if (b == F_DUPFD || b == F_DUPFD_CLOEXEC) { VFd* v = vfd(a); return v ? alloc_fd(v->file) : -EINVAL; }
        return 0;
      }
      return pass();
    case SYS_dup: { VFd* v = vfd(a); if (v) return alloc_fd(v->file); return std_fd ? -EMFILE : pass(); }
    case SYS_dup2: case SYS_dup3: return -EBADF;
    case SYS_fadvise64: case SYS_flock: case SYS_fsync: case SYS_fdatasync: case SYS_readahead: return 0;
    case SYS_nanosleep: case SYS_clock_nanosleep: return 0;
    case SYS_exit_group: case SYS_exit: finish(static_cast<int>(a)); return 0;
    case SYS_readlink: case SYS_readlinkat: return -EINVAL;
    default: return -ENOSYS;   // rename, unlink, truncate, fork, execve, sockets, ...: none is the program's business
  }
}

static void on_sys(int, siginfo_t* si, void* u) {
  auto* c = static_cast<ucontext_t*>(u);
  auto* g = c->uc_mcontext.gregs;
  int saved = errno;
  if (++shm->syscalls > STEP_LIMIT) { shm->hang = 1; finish(99); }
  bool inside = in_handler;
  in_handler = true;
  g[REG_RAX] = handle(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  in_handler = inside;
  errno = saved;
}

static bool install_os() {
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, nullptr)) return false;
  static const int nrs[] = {SYS_read, SYS_write, SYS_open, SYS_close, SYS_stat, SYS_fstat, SYS_lstat, SYS_poll, SYS_lseek, SYS_ioctl, SYS_pread64,
      SYS_pwrite64, SYS_readv, SYS_writev, SYS_access, SYS_select, SYS_dup, SYS_dup2, SYS_nanosleep, SYS_sendfile, SYS_fork, SYS_vfork, SYS_execve,
      SYS_fcntl, SYS_flock, SYS_fsync, SYS_fdatasync, SYS_truncate, SYS_ftruncate, SYS_getdents, SYS_getdents64, SYS_chdir, SYS_fchdir, SYS_rename, SYS_mkdir, SYS_rmdir,
      SYS_creat, SYS_link, SYS_unlink, SYS_symlink, SYS_readlink, SYS_chmod, SYS_chown, SYS_openat, SYS_newfstatat, SYS_unlinkat, SYS_renameat, SYS_renameat2,
      SYS_mkdirat, SYS_symlinkat, SYS_linkat, SYS_readlinkat, SYS_fchmodat, SYS_fchownat, SYS_faccessat, SYS_pselect6, SYS_ppoll, SYS_splice, SYS_tee, SYS_vmsplice,
      SYS_fallocate, SYS_dup3, SYS_preadv, SYS_pwritev, SYS_preadv2, SYS_pwritev2, SYS_statx, SYS_copy_file_range, SYS_faccessat2, SYS_close_range, SYS_exit_group, SYS_exit,
      SYS_openat2, SYS_clock_nanosleep, SYS_fadvise64, SYS_readahead, SYS_socket, SYS_connect, SYS_execveat, SYS_io_uring_setup, SYS_mount, SYS_umount2};
  const int n = static_cast<int>(sizeof nrs / sizeof *nrs);
  auto base = reinterpret_cast<std::uintptr_t>(&sim_raw);
  std::vector<sock_filter> f;
  auto ld = [&](std::size_t off) { f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, static_cast<__u32>(off))); };
  // our own system calls are allowed: instruction pointer inside the page of sim_raw
  ld(offsetof(seccomp_data, instruction_pointer) + 4);
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<__u32>(base >> 32), 0, 4));
  ld(offsetof(seccomp_data, instruction_pointer));
  f.push_back(BPF_STMT(BPF_ALU | BPF_AND | BPF_K, 0xfffff000u));
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<__u32>(base & 0xfffff000u), 0, 1));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  ld(offsetof(seccomp_data, nr));
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 4));
  ld(offsetof(seccomp_data, args) + 4 * 8);
  f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffffu, 0, 1));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  for (int i = 0; i < n; ++i)
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<__u32>(nrs[i]), static_cast<__u8>(n - i), 0));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  sock_fprog p{static_cast<unsigned short>(f.size()), f.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}

// ---- scenario --------------------------------------------------------------------
using sim::Plan; using sim::Words; using sim::Rng; using sim::str; using sim::num;

struct Scenario {
  std::vector<VFile> hext, html;       // as given on the command line
  std::vector<std::string> strs;
  std::vector<std::string> opts;       // --compact, --pretty, --array, --lint, --help, --version
  bool has_filter = false;
  std::string filter;
  std::string budget;
  bool positional = false;
  bool has(const char* o) const { for (auto& x : opts) if (x == o) return true; return false; }
};

static Scenario scenario(const Plan& p) {
  Scenario s;
  std::set<std::string> names;
  for (auto& w : p.lines) {
    if (w[0] == "opt" && w.size() > 1) s.opts.push_back(w[1]);
    else if (w[0] == "filter" && w.size() > 1) { s.has_filter = true; s.filter = w[1]; }
    else if (w[0] == "budget" && w.size() > 1) s.budget = w[1];
    else if (w[0] == "positional") s.positional = true;
    else if (w[0] == "hexts" && w.size() > 1) s.strs.push_back(w[1]);
    else if (w[0] == "again" && w.size() > 1) {   // the same file named once more
      for (auto* l : {&s.hext, &s.html})
        for (auto& v : *l) if (v.name == w[1] && v.kind == "reg") { VFile c = v; l->push_back(c); break; }
    } else if ((w[0] == "hext" || w[0] == "html") && w.size() > 3 && names.insert(w[1]).second) {
      VFile v;
      v.name = w[1]; v.kind = w[2]; v.content = w[3];
      (w[0] == "hext" ? s.hext : s.html).push_back(v);
    }
  }
  return s;
}
static VFile* by_name(Scenario& s, const std::string& n) {
  for (auto& v : s.hext) if (v.name == n) return &v;
  for (auto& v : s.html) if (v.name == n) return &v;
  return nullptr;
}
static Ev parse_ev(const std::string& w) { Ev e{w.empty() ? '?' : w[0], 0}; if (w.size() > 2) e.v = std::strtol(w.c_str() + 2, nullptr, 10); return e; }
static unsigned long base_allocs;
static void apply_faults(const Plan& p, Scenario& s) {
  alloc_from = alloc_to = 0; alloc_big = 0; gumbo_from = 0;
  outev.clear(); errev.clear(); outpos = errpos = 0; out_dead = 0; maxopen = tty_out = tty_err = 0;
  for (auto& w : p.lines) {
    VFile* v = w.size() > 1 ? by_name(s, w[1]) : nullptr;
    if (w[0] == "rd" && v) for (std::size_t i = 2; i < w.size(); ++i) v->rd.push_back(parse_ev(w[i]));
    else if (w[0] == "openerr" && v && w.size() > 2) v->openerr = static_cast<int>(num(w[2]));
    else if (w[0] == "stat" && v && w.size() > 2) v->statsize = static_cast<long>(num(w[2]));
    else if (w[0] == "maxopen" && w.size() > 1) maxopen = static_cast<int>(num(w[1]));
    else if (w[0] == "out") for (std::size_t i = 1; i < w.size(); ++i) outev.push_back(parse_ev(w[i]));
    else if (w[0] == "errw") for (std::size_t i = 1; i < w.size(); ++i) errev.push_back(parse_ev(w[i]));
    else if (w[0] == "alloc" && w.size() > 2) {   // where (in 1/10000 of the undisturbed run's allocations), how many
      alloc_from = num(w[1]) * base_allocs / 10000;
      alloc_to = w[2] == "a" ? ~0ul : alloc_from + num(w[2]);
    } else if (w[0] == "allocbig" && w.size() > 1) alloc_big = num(w[1]);
    else if (w[0] == "galloc" && w.size() > 1) gumbo_from = num(w[1]);
    else if (w[0] == "tty" && w.size() > 1) (w[1] == "out" ? tty_out : tty_err) = 1;
  }
}

// Result of the library for the scenario, computed by a pristine process.
struct LibResult {
  bool crashed = false;
  std::string crash;
  std::vector<int> hext_ok;                 // files, then strings
  // per rule x document: groups, or threw
  struct Cell { bool threw = false; std::vector<std::vector<std::pair<std::string, std::string>>> groups; };
  std::vector<Cell> cells;
};

static void put(std::string& o, const std::string& s) { o += str(s.size()); o += ':'; o += s; }
static std::string get(const std::string& s, std::size_t& i) {
  auto c = s.find(':', i);
  auto n = static_cast<std::size_t>(num(s.substr(i, c - i)));
  std::string r = s.substr(c + 1, n);
  i = c + 1 + n;
  return r;
}

static std::string wait_desc(int st) {
  if (WIFSIGNALED(st)) return "signal " + str(static_cast<std::uint64_t>(WTERMSIG(st)));
  return "exit " + str(static_cast<std::uint64_t>(WEXITSTATUS(st)));
}

static void limits() {
  rlimit r{30, 30};
  setrlimit(RLIMIT_CPU, &r);
  rlimit z{0, 0};
  setrlimit(RLIMIT_CORE, &z);
}

static LibResult library(const Scenario& s) {
  std::memset(static_cast<void*>(shm), 0, offsetof(Shm, out));
  LibResult L;
  pid_t pid = fork();
  if (pid == 0) {
    limits();
    clk = 0;
    clk_limit = 400000000ull;
    std::string o;
    std::vector<hext::Rule> rules;
    std::vector<std::string> texts;
    for (auto& f : s.hext) texts.push_back(f.content);
    for (auto& t : s.strs) texts.push_back(std::string(t.c_str()));   // argv cannot carry zero bytes
    bool all = true;
    for (auto& t : texts) {
      bool ok = true;
      try { rules.push_back(hext::ParseHext(t.data(), t.size())); } catch (const hext::SyntaxError&) { ok = false; }
      all = all && ok;
      put(o, ok ? "1" : "0");
    }
    if (all)
      for (auto& r : rules)
        for (auto& h : s.html) {
          hext::Html html(h.content.c_str(), h.content.size());
          try {
            hext::Result res = r.extract(html, num(s.budget));
            put(o, "r" + str(res.size()));
            for (auto& g : res) {
              put(o, str(g.size()));
              for (auto& kv : g) { put(o, kv.first); put(o, kv.second); }
            }
          } catch (const std::exception&) { put(o, "t"); }
        }
    if (o.size() < Shm::OUT) {
      std::memcpy(shm->out, o.data(), o.size());
      shm->outlen = static_cast<unsigned>(o.size());
      shm->ended = 1;
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (!shm->ended || st) { L.crashed = true; L.crash = wait_desc(st); return L; }
  std::string o(shm->out, shm->outlen);
  std::size_t i = 0;
  bool all = true;
  for (std::size_t k = 0; k < s.hext.size() + s.strs.size(); ++k) { L.hext_ok.push_back(get(o, i) == "1"); all = all && L.hext_ok.back(); }
  if (all)
    while (i < o.size()) {
      LibResult::Cell c;
      std::string h = get(o, i);
      if (h == "t") c.threw = true;
      else
        for (std::size_t g = num(h.substr(1)); g-- > 0;) {
          c.groups.emplace_back();
          for (std::size_t n = num(get(o, i)); n-- > 0;) { std::string k = get(o, i); std::string v = get(o, i); c.groups.back().emplace_back(k, v); }
        }
      L.cells.push_back(std::move(c));
    }
  return L;
}

// ---- a small JSON reader on bytes (no encoding assumed) ---------------------------
struct J { char t = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o; };
struct JParser {
  const std::string& s; std::size_t i = 0; bool bad = false;
  explicit JParser(const std::string& t) : s(t) {}
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
  static void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
    else { o += static_cast<char>(0xf0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
  }
  std::string string() {
    std::string o;
    if (i >= s.size() || s[i] != '"') { bad = true; return o; }
    ++i;
    while (i < s.size() && s[i] != '"') {
      if (static_cast<unsigned char>(s[i]) < 32) { bad = true; return o; }
      if (s[i] != '\\') { o += s[i++]; continue; }
      if (++i >= s.size()) { bad = true; return o; }
      char c = s[i++];
      switch (c) {
        case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break;
        case 'b': o += '\b'; break; case 'f': o += '\f'; break;
        case '"': case '\\': case '/': o += c; break;
        case 'u': {
          unsigned v = static_cast<unsigned>(std::strtoul(s.substr(i, 4).c_str(), nullptr, 16));
          i += 4;
          if (v >= 0xd800 && v < 0xdc00 && s.compare(i, 2, "\\u") == 0) {
            unsigned w = static_cast<unsigned>(std::strtoul(s.substr(i + 2, 4).c_str(), nullptr, 16));
            i += 6;
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
          }
          utf8(o, v);
          break;
        }
        default: bad = true;
      }
    }
    if (i >= s.size()) bad = true;
    ++i;
    return o;
  }
  J value() {
    J j;
    ws();
    if (bad || i >= s.size()) { bad = true; return j; }
    if (s[i] == '"') { j.t = 's'; j.s = string(); }
    else if (s[i] == '[' || s[i] == '{') {
      bool ob = s[i] == '{';
      j.t = ob ? 'o' : 'a';
      char e = ob ? '}' : ']';
      ++i; ws();
      if (i < s.size() && s[i] == e) { ++i; return j; }
      for (;;) {
        ws();
        if (ob) { std::string k = string(); ws(); if (i >= s.size() || s[i] != ':') { bad = true; return j; } ++i; j.o.emplace_back(k, value()); }
        else j.a.push_back(value());
        ws();
        if (bad || i >= s.size()) { bad = true; return j; }
        if (s[i] == ',') { ++i; continue; }
        if (s[i] == e) { ++i; return j; }
        bad = true;
        return j;
      }
    } else bad = true;
    return j;
  }
};

using Group = std::map<std::string, std::vector<std::string>>;
static bool to_group(const J& j, Group& g) {
  if (j.t != 'o') return false;
  for (auto& kv : j.o) {
    if (g.count(kv.first)) return false;
    auto& v = g[kv.first];
    if (kv.second.t == 's') v.push_back(kv.second.s);
    else if (kv.second.t == 'a' && kv.second.a.size() > 1) {
      for (auto& x : kv.second.a) { if (x.t != 's') return false; v.push_back(x.s); }
    } else return false;
  }
  return true;
}

// Does the output of an undisturbed run contain exactly the library's results? Empty if so.
static std::string check_content(const Scenario& s, const LibResult& L, const std::string& out) {
  if (s.has_filter) {
    std::string want;
    bool threw = false;
    for (auto& c : L.cells) {
      if (c.threw) { threw = true; break; }
      for (auto& g : c.groups) for (auto& kv : g) if (kv.first == s.filter) want += kv.second + "\n";
    }
    if (threw) return out.compare(0, out.size(), want, 0, out.size()) == 0 && out.size() <= want.size() ? "" : "filtered output is not a prefix of the results before the failing extraction";
    return out == want ? "" : "filtered output differs from the library's results";
  }
  std::vector<std::vector<Group>> want;
  bool threw = false;
  for (auto& c : L.cells) {
    if (c.threw) { threw = true; break; }
    std::vector<Group> gs;
    for (auto& g : c.groups) { Group m; for (auto& kv : g) m[kv.first].push_back(kv.second); gs.push_back(m); }
    if (!gs.empty()) want.push_back(gs);
  }
  std::vector<Group> flat_want, flat_got;
  std::vector<std::vector<Group>> got;
  JParser p(out);
  bool array = s.has("--array");
  for (;;) {
    p.ws();
    if (p.i >= out.size()) break;
    J j = p.value();
    if (p.bad) return "output is not valid JSON";
    if (array) {
      if (j.t != 'a') return "expected a JSON array";
      std::vector<Group> gs;
      for (auto& x : j.a) { Group g; if (!to_group(x, g)) return "array element is not an object of results"; gs.push_back(g); }
      got.push_back(gs);
    } else { Group g; if (!to_group(j, g)) return "value is not an object of results"; flat_got.push_back(g); }
  }
  for (auto& v : want) for (auto& g : v) flat_want.push_back(g);
  if (array) {
    if (threw && got.size() <= want.size()) want.resize(got.size());
    if (got != want) return "arrays differ from the library's results, rule by rule and document by document";
  } else {
    if (threw && flat_got.size() <= flat_want.size()) flat_want.resize(flat_got.size());
    if (flat_got != flat_want) return "objects differ from the library's results, rule by rule and document by document";
  }
  return "";
}

struct RunResult {
  bool ended = false, hang = false;
  int code = -1, status = 0;
  std::string out, err, events;
  std::uint64_t evhash = 0;
  unsigned syscalls = 0, allocs = 0;
  unsigned long long clock = 0;
  bool out_failed = false;
  unsigned fired[F_N] = {};
  std::vector<int> open_failed, read_failed;
  bool crashed() const { return !ended || code == 77; }
  std::string desc() const {
    if (hang) return "no end within the step limit";
    if (!ended) return "died: " + wait_desc(status) + " " + sim::one_line(err, 300);
    return "exit " + std::to_string(code);
  }
};

static RunResult run_cli(const Scenario& s) {
  std::memset(static_cast<void*>(shm), 0, offsetof(Shm, out));
  vfs.clear();
  stdin_file = -1;
  for (auto& v : s.hext) vfs.push_back(v);
  for (auto& v : s.html) vfs.push_back(v);
  for (std::size_t i = 0; i < vfs.size(); ++i) if (vfs[i].kind == "stdin" || vfs[i].kind == "stdinreg") stdin_file = static_cast<int>(i);
  for (auto& d : fds) d = VFd();
  std::vector<std::string> av{"htmlext"};
  for (auto& o : s.opts) av.push_back(o);
  if (!s.budget.empty()) { av.push_back("--max-searches"); av.push_back(s.budget); }
  if (s.has_filter) { av.push_back("--filter"); av.push_back(s.filter); }
  auto path = [](const VFile& v) { return v.kind == "stdin" || v.kind == "stdinreg" ? std::string("-") : v.name; };
  bool pos = s.positional && s.hext.size() == 1 && !s.has("--lint");
  if (pos) { av.push_back(path(s.hext[0])); for (auto& v : s.html) av.push_back(path(v)); }
  else {
    for (auto& v : s.hext) { av.push_back("-x"); av.push_back(path(v)); }
    for (auto& v : s.html) { av.push_back("-i"); av.push_back(path(v)); }
  }
  for (auto& t : s.strs) { av.push_back("-s"); av.push_back(t.c_str()); }
  std::vector<const char*> argv;
  for (auto& a : av) argv.push_back(a.c_str());
  argv.push_back(nullptr);
  RunResult r;
  pid_t pid = fork();
  if (pid == 0) {
    limits();
    if (!install_os()) _exit(98);
    clk = 0;
    clk_limit = 400000000ull;
    int rc = 0;
#ifdef SIM_MALLOC
    dl_iterate_phdr(module_range, nullptr);
#endif
    std::ios_base::sync_with_stdio(false);   // libstdc++ cannot report a failure here; the call in main() finds it done
    alloc_armed = true;
    rc = htmlext_main(static_cast<int>(av.size()), argv.data());
    alloc_armed = false;
    std::exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  r.status = st;
  r.ended = shm->ended;
  r.hang = shm->hang;
  r.code = shm->code;
  r.out.assign(shm->out, shm->outlen);
  r.err.assign(shm->err, shm->errlen);
  r.events.assign(shm->ev, shm->evlen);
  r.evhash = shm->evhash;
  r.syscalls = shm->syscalls;
  r.allocs = shm->allocs;
  r.clock = shm->clock;
  r.out_failed = shm->out_failed;
  for (int i = 0; i < F_N; ++i) r.fired[i] = shm->fired[i];
  for (std::size_t i = 0; i < vfs.size(); ++i) {
    r.open_failed.push_back(shm->f[i].open_failed);
    r.read_failed.push_back(shm->f[i].read_failed);
  }
  if (!r.ended && WIFEXITED(st) && WEXITSTATUS(st) == 98) r.err = "SIMULATOR: seccomp not available";
  return r;
}

// ---- generation -------------------------------------------------------------------
struct CliEngine : sim::Engine {
  std::vector<std::pair<std::string, std::string>> cases;   // corpus: template, document
  bool corpus_loaded = false;
  void load_corpus() {
    if (corpus_loaded) return;
    corpus_loaded = true;
    if (corpus.empty()) return;
    std::string list;
    sim::slurp(corpus + "/LIST", list);
    std::size_t i = 0;
    while (i < list.size()) {
      auto e = list.find('\n', i);
      if (e == std::string::npos) e = list.size();
      std::string n = list.substr(i, e - i), t, d;
      i = e + 1;
      if (sim::slurp(corpus + "/" + n + ".hext", t) && sim::slurp(corpus + "/" + n + ".html", d)) cases.emplace_back(t, d);
    }
  }

  // The undamaged program input of group g; several runs share it under different faults.
  struct Base { std::vector<std::string> tpl, doc; int ns; };
  Base base(Rng& r, const std::string& prop) {
    Base b;
    int nt = r.chance(60) ? 1 : r.range(1, 4);
    int nd = r.chance(45) ? 1 : r.range(1, 4);
    bool big = r.chance(prop == "C11" ? 45 : 20);
    for (int i = 0; i < nd; ++i) {
      sim::DocOpts o;
      o.nodes = big ? r.range(100, 900) : r.range(3, 40);
      o.text_len = big ? 12 : 3;
      sim::Doc d = sim::gen_doc(r, o);
      if (!cases.empty() && r.chance(15)) b.doc.push_back(r.pick(cases).second);
      else b.doc.push_back(d.html);
      if (r.chance(1)) b.doc.back() = sim::deepen_doc(r, b.doc.back(), r.range(20, 500));
      if (i == 0)
        for (int k = 0; k < nt; ++k) {
          sim::TplOpts t;
          t.rules = r.range(1, 6);
          if (!cases.empty() && r.chance(12)) { auto& c = r.pick(cases); b.tpl.push_back(c.first); b.doc[0] = c.second; }
          else if (big && r.chance(60)) b.tpl.push_back(r.pick({"<* @text:t class:c? />", "<* @inner-html:h />", "<div @text:n /> ", "<*><* @text:t id:i? /></*>", "<* @strip-tags:s />"}));
          else b.tpl.push_back(sim::gen_any_tpl(r, d, t));
        }
    }
    if (r.chance(prop == "C09" ? 14 : 6)) {   // many small fragments, mostly with elements of their own
      b.doc.clear();
      for (int k = r.range(2, 6); k-- > 0;)
        b.doc.push_back(r.pick({"<x-a>1</x-a>", "<x-a id=i>2</x-a>", "<b>x</b>", "<x-b/>", "t", "", "<p>", "<x-c x=1>", "<a-b>z", "<i>1<i>2", "<custom_tag>", "<q a=1>&lt;"}));
      b.tpl.clear();
      for (int k = 0; k < nt; ++k) b.tpl.push_back(r.pick({"<* @text:t />", "<x-a @text:t id:i? />", "<x-b @inner-html:n /><?p @text:v />", "<* @inner-html:h />", "<b @text:t />", "<*><x-a @text:n /></*>", "<custom_tag @text:t />", "<*><* @text:v /></*>"}));
    }
    if (r.chance(prop == "C11" ? 18 : 5)) {   // values longer than the buffers of the output streams
      std::string v;
      std::size_t n = static_cast<std::size_t>(r.pick(std::vector<int>{1000, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 9000, 20000, 66000})) + r.below(40);
      while (v.size() < n) v += r.chance(3) ? std::string(" ") : r.pick(sim::vocab().word);
      std::string tag = r.pick({"p", "x-a", "b"});
      for (int k = r.range(1, 3); k-- > 0;) {
        auto& d = b.doc[r.below(b.doc.size())];
        std::string x = "<" + tag + " href='" + v.substr(0, r.chance(50) ? 20 : v.size()) + "'>" + v + "</" + tag + ">";
        d = r.chance(50) ? x + d : d + x;
      }
      b.tpl[r.below(b.tpl.size())] = "<" + tag + " " + r.pick({"@text:t", "@inner-html:h", "href:link", "@strip-tags:v", "@text:t href:link"}) + " />";
    }
    if (r.chance(1)) {   // inputs beyond any buffer, their matter at the very end
      static const std::size_t big[] = {65536, 131072, 262144, 1u << 20, 2u << 20, 4u << 20};
      std::size_t n = big[r.below(6)] + r.below(3) - 1;
      bool tpl = r.chance(30);
      auto& d = tpl ? b.tpl[r.below(b.tpl.size())] : b.doc[r.below(b.doc.size())];
      if (d.size() < n) {
        std::size_t k = n - d.size();
        d = (tpl || r.chance(50) ? std::string(k, r.chance(50) ? ' ' : '\n') : k > 7 ? "<!--" + std::string(k - 7, 'x') + "-->" : std::string()) + d;
      }
    }
    b.ns = r.chance(30) ? r.range(1, nt) : 0;
    // zero bytes and damaged bytes are ordinary content
    for (auto& t : b.tpl) {
      if (!r.chance(prop == "C09" ? 12 : 4)) continue;
      std::vector<std::size_t> at;
      for (std::size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == '"' || (r.chance(10) && (t[i] == ' ' || t[i] == '\n'))) at.push_back(i + 1);
      if (!at.empty()) t.insert(r.pick(at), std::string("\0z", 2));
    }
    for (auto& d : b.doc) if (r.chance(10)) d = sim::damage(r, d, r.range(1, 3));
    return b;
  }

  Plan generate(const std::string& prop, std::uint64_t seed, std::uint64_t idx) override {
    load_corpus();
    std::uint64_t group = idx / 4;
    Rng b(sim::run_seed(seed, prop + "/base", group));
    Rng r(sim::run_seed(seed, prop, idx));
    Base B = base(b, prop);
    Plan p;
    if (prop == "C23" && idx == 0) {   // known finding: Gumbo, a third party, does not survive a failing malloc
      p.add({"hext", "a.hext", "reg", "<a @text:t />"});
      p.add({"html", "b.html", "reg", "<a>x</a>"});
      p.add({"galloc", "2"});
      return p;
    }
    bool lint = prop == "C12" ? r.chance(60) : prop == "C11" ? r.chance(3) : r.chance(8);
    if (prop == "C11" && r.chance(8)) p.add({"opt", r.chance(50) ? "--help" : "--version"});
    if (lint) p.add({"opt", "--lint"});
    if (r.chance(40)) p.add({"opt", r.chance(50) ? "--compact" : "--pretty"});
    if (r.chance(25)) p.add({"opt", "--array"});
    if (r.chance(18)) p.add({"filter", r.pick({"n", "t", "t", "v", "link", "text", "h", "h"})});
    if (r.chance(12)) p.add({"budget", str(r.chance(50) ? r.range(1, 12) : r.range(1000, 100000))});
    if (r.chance(15) && !lint) p.add({"positional"});   // lint takes no positional files
    if (r.chance(20)) p.add({"tty", "out"});
    if (r.chance(10)) p.add({"tty", "err"});
    std::vector<std::string> names;
    std::vector<std::size_t> sizes;
    bool used_stdin = false;
    int k = 0;
    auto name = [&](const char* ext) {
      std::string n = r.pick({"a", "dir/b", "c d", "./e", "-f", "g\xc3\xa9", "/tmp/nope/h"});
      if (n[0] == '-') n = "./" + n;
      return n + str(static_cast<std::uint64_t>(k++)) + ext;
    };
    auto kind = [&]() -> std::string {
      if (prop == "C09" || r.chance(25)) {
        if (!used_stdin && r.chance(12)) { used_stdin = true; return r.chance(60) ? "stdin" : "stdinreg"; }
        if (r.chance(30)) return "fifo";
      }
      return "reg";
    };
    std::size_t nstr = std::min<std::size_t>(static_cast<std::size_t>(B.ns), B.tpl.size());
    for (std::size_t i = 0; i < B.tpl.size(); ++i) {
      std::string t = B.tpl[i];
      bool s = i >= B.tpl.size() - nstr;
      if (prop == "C12" && r.chance(75)) {
        t = sim::damage(r, t, r.range(1, 2));
        if (s) t = std::string(t.c_str());
      }
      if (prop == "C10" && r.chance(10)) t += r.pick({"<", "<div", "</div>", "<a @foo:x />", "{", "<a class=~/(/ />", "<p :nth-child(x) />"});
      if (s) { p.add({"hexts", t}); continue; }
      std::string n = name(".hext");
      names.push_back(n); sizes.push_back(t.size());
      p.add({"hext", n, kind(), t});
    }
    for (auto& d : B.doc) {
      std::string n = name(".html");
      names.push_back(n); sizes.push_back(d.size());
      p.add({"html", n, kind(), d});
    }
    if (r.chance(prop == "C09" ? 10 : 5)) for (int j = r.range(1, 2); j-- > 0;) if (!names.empty()) p.add({"again", names[r.below(names.size())]});
    auto benign = [&](std::size_t i) {
      Words w{"rd", names[i]};
      int n = r.chance(30) ? r.range(5, 40) : r.range(1, 6);
      int style = r.range(0, 3);
      for (int j = 0; j < n; ++j) {
        if (r.chance(style == 1 ? 60 : 15)) w.push_back("i");
        else w.push_back("s:" + str(style == 2 ? 1 : r.chance(50) ? static_cast<std::uint64_t>(r.range(1, 16)) : 1 + r.below(sizes[i] + 2)));
      }
      p.add(w);
      if (r.chance(30)) p.add({"stat", names[i], str(r.chance(35) ? 0 : r.below(2 * sizes[i] + 3))});
    };
    if (prop == "C09") {
      for (std::size_t i = 0; i < names.size(); ++i) if (r.chance(70)) benign(i);
      if (r.chance(35)) p.add({"maxopen", "1"});
      if (r.chance(25)) { Words w{"out"}; for (int j = r.range(1, 5); j-- > 0;) w.push_back(r.chance(30) ? "i" : "s:" + str(static_cast<std::uint64_t>(r.range(1, 50)))); p.add(w); }
    } else if (prop == "C10") {
      if (!names.empty()) {
        int n = r.chance(85) ? 1 : 2;
        for (int j = 0; j < n; ++j) {
          std::size_t i = r.below(names.size());
          int what = r.range(0, 9);
          if (what < 3) p.add({"openerr", names[i], str(static_cast<std::uint64_t>(std::vector<int>{ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP, ENAMETOOLONG}[r.below(8)]))});
          else if (what < 4) { for (auto& l : p.lines) if (l.size() > 3 && l[1] == names[i]) l[2] = r.chance(60) ? "dir" : "missing"; }
          else {
            // fail after any number of bytes, at any call
            Words w{"rd", names[i]};
            for (int m = r.chance(40) ? 0 : r.range(1, 4); m-- > 0;) w.push_back(r.chance(25) ? "i" : "s:" + str(r.chance(50) ? static_cast<std::uint64_t>(r.range(1, 16)) : 1 + r.below(sizes[i] + 2)));
            w.push_back("e:" + str(static_cast<std::uint64_t>(std::vector<int>{EIO, EIO, EISDIR, ENOMEM, EAGAIN, ESTALE, EFAULT, ETIMEDOUT}[r.below(8)])));
            p.add(w);
          }
        }
      }
      if (r.chance(10)) { Words w{"errw"}; for (int j = r.range(1, 4); j-- > 0;) w.push_back(r.chance(40) ? "i" : "s:" + str(static_cast<std::uint64_t>(r.range(1, 20)))); p.add(w); }
    } else if (prop == "C23") {
      if (r.chance(90)) p.add({"alloc", str(r.chance(15) ? (r.chance(50) ? 0 : 9999) : r.below(10000)), r.chance(60) ? "1" : r.chance(50) ? str(static_cast<std::uint64_t>(r.range(2, 8))) : std::string("a")});
      else p.add({"allocbig", str(static_cast<std::uint64_t>(r.pick(std::vector<int>{64, 256, 1024, 4096, 16384})))});
      if (r.chance(10) && !names.empty()) benign(r.below(names.size()));
      if (r.chance(10)) { Words w{"out"}; for (int j = r.range(1, 5); j-- > 0;) w.push_back(r.chance(30) ? "i" : "s:" + str(static_cast<std::uint64_t>(r.range(1, 50)))); p.add(w); }
      if (r.chance(3)) p.add({"opt", "--version"});   // --help is formatted by Boost, which loses padding
    } else if (prop == "C11") {
      Words w{"out"};
      int style = r.range(0, 4);
      if (style <= 1) {   // full disk after any number of bytes
        w.push_back("f:" + str(r.chance(40) ? static_cast<std::uint64_t>(r.range(0, 64)) : r.below(r.chance(50) ? 2000 : 70000)));
      } else {
        for (int j = r.chance(35) ? 0 : r.range(1, 8); j-- > 0;) w.push_back(r.chance(25) ? "i" : r.chance(30) ? "n" : "s:" + str(r.chance(50) ? static_cast<std::uint64_t>(r.range(1, 64)) : r.below(9000) + 1));
        if (style <= 3) w.push_back("e:" + str(static_cast<std::uint64_t>(std::vector<int>{ENOSPC, EIO, EPIPE, EFBIG, EDQUOT, EBADF, EAGAIN}[r.below(7)])));
      }
      p.add(w);
      if (r.chance(10)) { Words e{"errw"}; for (int j = r.range(1, 4); j-- > 0;) e.push_back(r.chance(40) ? "i" : "s:" + str(static_cast<std::uint64_t>(r.range(1, 20)))); p.add(e); }
      if (r.chance(20) && !names.empty()) benign(r.below(names.size()));
    }
    return p;
  }

  std::string lib_key, base_key;   // inputs of the cached reference results
  LibResult L;
  RunResult R0;
  std::string base_bad;

  sim::Outcome execute(const std::string& prop, const Plan& p) override {
    sim::Outcome o;
    Scenario s = scenario(p);
    tty_out = 0;
    bool usable = !s.html.empty() || s.has("--lint");
    bool info = s.has("--help") || s.has("--version");
    if (!info && (!usable || (s.hext.empty() && s.strs.empty()))) return o;
    // undisturbed: every input a regular file, everything delivered at once
    Scenario q = s;
    for (auto* v : {&q.hext, &q.html}) for (auto& f : *v) f.kind = "reg";
    Plan none;
    for (auto& w : p.lines) if (w[0] == "tty") none.add(w);
    std::string lk, bk;
    for (auto* v : {&q.hext, &q.html}) { put(lk, str(v->size())); for (auto& x : *v) put(lk, x.content); }
    for (auto& x : q.strs) put(lk, x);
    put(lk, q.budget);
    bk = lk + none.text();
    for (auto* v : {&q.hext, &q.html}) for (auto& x : *v) put(bk, x.name);
    for (auto& x : q.opts) put(bk, x);
    if (q.has_filter) put(bk, q.filter);
    if (q.positional) put(bk, "positional");
    if (lk != lib_key) { L = library(q); lib_key = lk; st.n["reference_runs"]++; }
    if (L.crashed) {
      // The library itself dies on these bytes, without any fault: other properties decide that.
      st.n["library_died"]++;
      if (prop == "C12") o.fail("library-died", "libhext died parsing a template: " + L.crash);
      return o;
    }
    if (bk != base_key) { apply_faults(none, q); R0 = run_cli(q); base_key = bk; st.n["simulated_runs"]++; }
    if (R0.err.rfind("SIMULATOR", 0) == 0) { o.error = true; o.msg = R0.err; return o; }
    Scenario f = s;
    base_allocs = R0.allocs;
    apply_faults(p, f);
    RunResult R = run_cli(f);
    st.n["simulated_runs"]++;
    st.n["simulated_syscalls"] += R.syscalls;
    st.n["simulated_steps"] += R.clock;
    for (int i = 0; i < F_N; ++i) if (R.fired[i]) st.n[std::string("fault:") + kind_name[i]] += R.fired[i];
    o.trace = sim::fnv(R.out, sim::fnv(R.err, R.evhash));
    o.trace = sim::fnv(R0.out, o.trace);
    bool fired = false;
    for (int i = 0; i < F_N; ++i) fired = fired || R.fired[i];
    o.nontrivial = fired || prop == "C12";
    if (verbose) o.detail = "--- undisturbed run: " + R0.desc() + "\n" + R0.events + "stdout: " + sim::esc(R0.out.substr(0, 2000)) + "\nstderr: " + R0.err +
                            "\n--- run under the plan: " + R.desc() + "\n" + R.events + "stdout: " + sim::esc(R.out.substr(0, 2000)) + "\nstderr: " + R.err;
    for (auto* x : {&R0, &R}) {
      if (x->hang) { o.fail("hang", "htmlext made no progress: no exit within the step limit"); return o; }
      if (x == &R && R.fired[F_GUMBO] && x->crashed()) { o.fail("gumbo-malloc", "malloc failed inside Gumbo: htmlext " + x->desc()); return o; }
      if (x->crashed()) { o.fail("died", "htmlext " + x->desc()); return o; }
    }
    // -- what must happen, from the plan, the library's verdict and the faults that fired
    bool invalid = false;
    std::vector<std::string> bad;
    std::vector<const VFile*> all;
    for (auto& v : f.hext) all.push_back(&v);
    for (auto& v : f.html) all.push_back(&v);
    auto shown = [](const VFile& v) { return v.kind[0] == 's' ? std::string("-") : v.name; };
    if (!info) {
      for (std::size_t i = 0; i < f.hext.size(); ++i) if (!L.hext_ok[i]) { invalid = true; bad.push_back(shown(f.hext[i])); }
      for (std::size_t i = 0; i < f.strs.size(); ++i) if (!L.hext_ok[f.hext.size() + i]) { invalid = true; bad.push_back("<hext-string>"); }
    }
    bool input_failed = false;
    for (std::size_t i = 0; i < all.size(); ++i)
      if (R.open_failed[i] || R.read_failed[i]) { input_failed = true; bad.push_back(shown(*all[i])); }
    // undisturbed run against the library
    if (!info) {
      if (invalid != (R0.code != 0) && !invalid) {
        bool threw = false;
        for (auto& c : L.cells) threw = threw || c.threw;
        if (!(threw && !s.has("--lint"))) o.fail("undisturbed-fails", "all inputs are valid and readable but htmlext reports failure: " + sim::one_line(R0.err));
      } else if (invalid && R0.code == 0) o.fail("accepts-invalid", "the library rejects a template but htmlext exits with 0");
      if (prop != "C09" && prop != "C23") {}   // what the results are is decided by C09 only
      else if (!invalid && R0.code == 0 && !s.has("--lint")) {
        std::string why = check_content(s, L, R0.out);
        if (!why.empty()) o.fail("content", "undisturbed run: " + why);
        for (auto& c : L.cells) if (c.threw) o.fail("exit-status", "the library fails for one of the pairs but htmlext exits with 0");
      } else if (!invalid && !s.has("--lint")) {
        std::string why = check_content(s, L, R0.out);
        if (!why.empty()) o.fail("content", "run with exhausted budget: " + why);
      }
      if (s.has("--lint") && !R0.out.empty()) o.fail("content", "lint wrote to standard output");
      if (invalid && !R0.out.empty()) o.fail("output-despite-error", "undisturbed run with an invalid template wrote to standard output");
    }
    if (o.violation) return o;
    auto names_bad = [&](const RunResult& r) {
      for (auto& b : bad) {
        if (b == "-" ? (r.err.find("/dev/stdin") != std::string::npos || r.err.find("'-'") != std::string::npos || r.err.find(" -") != std::string::npos) : r.err.find(b) != std::string::npos) return true;
      }
      return false;
    };
    if (R.fired[F_ALLOC] || R.fired[F_GUMBO]) {
      bool prefix = R.out.size() <= R0.out.size() && R0.out.compare(0, R.out.size(), R.out) == 0;
      if (R.code == 0 && R0.code != 0) o.fail("failure-forgotten", "exit status 0 when an allocation failed, " + std::to_string(R0.code) + " undisturbed");
      else if (R.code == 0 && R.out != R0.out) o.fail("incomplete-success", "exit status 0 although an allocation failed and the output is not complete");
      else if (!prefix) o.fail("not-a-prefix", "the output after a failed allocation is not a prefix of the complete output");
      else if (R.code != 0 && R.err.empty()) o.fail("no-error-message", "an allocation failed but nothing is on standard error");
      else if (R.code != 0 && !invalid && R.err.find("Error in ") != std::string::npos) o.fail("wrong-error", "an allocation failed and a valid template is called invalid: " + sim::one_line(R.err));
      else st.n[R.code == 0 ? "probe:failed allocation survived" : "probe:failed allocation reported"]++;
      return o;
    }
    if (invalid || input_failed) {
      if (R.code == 0) o.fail(input_failed ? "input-error-ignored" : "accepts-invalid", std::string("exit status 0 although an input ") + (input_failed ? "could not be read: " : "is invalid: ") + bad[0]);
      else if (!R.out.empty()) o.fail("output-despite-error", "standard output is not empty although an input failed: " + bad[0]);
      else if (R.err.empty()) o.fail("no-error-message", "nothing on standard error");
      else if (!names_bad(R)) o.fail("input-not-named", "standard error does not name the offending input " + bad[0] + ": " + sim::one_line(R.err));
      return o;
    }
    if (R.out_failed) {
      if (R.code == 0) o.fail("output-error-ignored", "exit status 0 although standard output refused a write");
      else if (R.err.empty()) o.fail("no-error-message", "standard output refused a write but nothing is on standard error");
      else if (R.out.size() > R0.out.size() || R0.out.compare(0, R.out.size(), R.out) != 0) o.fail("not-a-prefix", "the accepted bytes are not a prefix of the output");
      return o;
    }
    if (R.out != R0.out) {
      bool prefix = R.out.size() < R0.out.size() && R0.out.compare(0, R.out.size(), R.out) == 0;
      o.fail(prefix ? "output-truncated" : "output-differs", "output depends on how the bytes were delivered (or accepted): " + str(R0.out.size()) + " bytes undisturbed, " + str(R.out.size()) + " bytes now; " + sim::one_line(R.err));
    } else if (R.code != R0.code) o.fail("exit-status", "exit status " + std::to_string(R.code) + " instead of " + std::to_string(R0.code) + "; " + sim::one_line(R.err));
    return o;
  }
};

int main(int argc, char** argv) {
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shm == MAP_FAILED) return 2;
  CliEngine e;
  return sim::driver_main(e, argc, argv);
}
