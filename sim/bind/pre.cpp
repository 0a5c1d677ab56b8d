// Preloaded into the interpreter: operator new and delete with failing allocations inside libhext,
// freed memory overwritten, and the accounting that the scripts read.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <new>
#include <unwind.h>

static std::uintptr_t lib_lo, lib_hi;         // where libhextsim.so is mapped
static unsigned long lib_n, f_from, f_to, f_fired;
static bool armed;
static long live;
static int fill_new, fill_free = 0xdd;

struct Hdr { std::size_t size; std::uint64_t magic; };
static const std::uint64_t kLive = 0x6c69766562797465ull, kFreed = 0x6672656564212121ull;

static int find_lib(dl_phdr_info* i, std::size_t, void*) {
  if (!i->dlpi_name || !std::strstr(i->dlpi_name, "libhextsim")) return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      lib_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      lib_hi = lib_lo + i->dlpi_phdr[k].p_memsz;
    }
  return 1;
}
struct Walk { bool found; int depth; };
static _Unwind_Reason_Code frame(_Unwind_Context* c, void* p) {
  auto w = static_cast<Walk*>(p);
  auto ip = static_cast<std::uintptr_t>(_Unwind_GetIP(c));
  if (ip >= lib_lo && ip < lib_hi) { w->found = true; return _URC_END_OF_STACK; }
  return ++w->depth > 40 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
static bool in_library(const void* caller) {
  auto ip = reinterpret_cast<std::uintptr_t>(caller);
  if (ip >= lib_lo && ip < lib_hi) return true;
  Walk w{false, 0};
  _Unwind_Backtrace(frame, &w);
  return w.found;
}
static bool fails(const void* caller) {
  if (!armed) return false;
  armed = false;                              // the walk itself may allocate
  bool in = in_library(caller);
  armed = true;
  if (!in) return false;
  ++lib_n;
  if (lib_n > f_from && lib_n <= f_to) { ++f_fired; return true; }
  return false;
}
static void* get(std::size_t n, std::size_t al) {
  if (al < 16) al = 16;
  if (n > (std::size_t(1) << 40)) return nullptr;
  std::size_t pad = al;                       // a multiple of 16
  char* b = static_cast<char*>(al == 16 ? std::malloc(n + pad) : std::aligned_alloc(al, (n + pad + al - 1) / al * al));
  if (!b) return nullptr;
  auto h = reinterpret_cast<Hdr*>(b + pad - 16);
  h->size = n;
  h->magic = kLive;
  std::memset(b + pad, fill_new, n);
  ++live;
  return b + pad;
}
static void put(void* p, std::size_t al) {
  if (!p) return;
  if (al < 16) al = 16;
  auto h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - 16);
  if (h->magic != kLive) {
    std::fprintf(stderr, "SIM %s\n", h->magic == kFreed ? "double-free" : "wild-free");
    std::fflush(stderr);
    std::abort();
  }
  h->magic = kFreed;
  std::memset(p, fill_free, h->size);
  --live;
  std::free(static_cast<char*>(p) - al);
}
#define CALLER __builtin_return_address(0)
static void* make(std::size_t n, std::size_t al, const void* c) {
  void* p = fails(c) ? nullptr : get(n, al);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(std::size_t n) { return make(n, 16, CALLER); }
void* operator new[](std::size_t n) { return make(n, 16, CALLER); }
void* operator new(std::size_t n, std::align_val_t a) { return make(n, std::size_t(a), CALLER); }
void* operator new[](std::size_t n, std::align_val_t a) { return make(n, std::size_t(a), CALLER); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fails(CALLER) ? nullptr : get(n, 16); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fails(CALLER) ? nullptr : get(n, 16); }
void operator delete(void* p) noexcept { put(p, 16); }
void operator delete[](void* p) noexcept { put(p, 16); }
void operator delete(void* p, std::size_t) noexcept { put(p, 16); }
void operator delete[](void* p, std::size_t) noexcept { put(p, 16); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p, 16); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, std::size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { put(p, std::size_t(a)); }
void operator delete(void* p, std::size_t, std::align_val_t a) noexcept { put(p, std::size_t(a)); }
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept { put(p, std::size_t(a)); }

extern "C" {
void simp_arm(unsigned long from, unsigned long to) {
  if (!lib_lo) dl_iterate_phdr(find_lib, nullptr);
  lib_n = f_fired = 0;
  f_from = from;
  f_to = to;
  armed = true;
}
void simp_disarm() { armed = false; }
unsigned long simp_allocs() { return lib_n; }
unsigned long simp_fired() { return f_fired; }
long simp_live() { return live; }
void simp_fill(int a, int b) { fill_new = a & 255; fill_free = b & 255; }
bool simp_armed() { return armed; }
}
