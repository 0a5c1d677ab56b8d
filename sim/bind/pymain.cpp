// A Python interpreter whose allocator the simulator owns.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>

extern "C" {
unsigned long simp_allocs();
void simp_arm(unsigned long, unsigned long);
void simp_disarm();
}

struct Hdr { std::size_t size; std::size_t magic; };
static const std::size_t kLive = 0x70794c4956450000ull, kFreed = 0x7079465245450000ull;
static long live;
static unsigned long n, from, to, fired;
static bool window, track;                  // inside the wrapped function; library has been called
static bool bt = std::getenv("SIM_BT");      // where the failing allocations are
static const std::size_t kRing = 256;
static Hdr* ring[kRing];
static std::size_t at;
static PyMemAllocatorEx old_mem, old_obj;

[[noreturn]] static void broken(const char* what) {
  std::fprintf(stderr, "SIM %s\n", what);
  std::fflush(stderr);
  std::abort();
}
static bool fails() {
  if (!window || !simp_allocs()) return false;
  ++n;
  if (n > from && n <= to) { ++fired; if (bt) { void* b[40]; backtrace_symbols_fd(b, backtrace(b, 40), 2); } return true; }
  return false;
}
static void* get(void*, std::size_t s) {
  if (fails()) return nullptr;
  if (s > (std::size_t(1) << 40)) return nullptr;
  auto h = static_cast<Hdr*>(std::malloc(s + sizeof(Hdr) + !s));
  if (!h) return nullptr;
  h->size = s;
  h->magic = kLive;
  std::memset(static_cast<void*>(h + 1), 0xcd, s);
  ++live;
  return h + 1;
}
static void put(void*, void* p) {
  if (!p) return;
  auto h = static_cast<Hdr*>(p) - 1;
  if (h->magic != kLive) broken(h->magic == kFreed ? "double-free of a Python object" : "wild free of a Python object");
  h->magic = kFreed;
  --live;
  std::memset(p, 0xdb, h->size);
  Hdr*& r = ring[at++ % kRing];             // freed memory is kept a while, and must stay as it is
  if (r) {
    auto b = reinterpret_cast<unsigned char*>(r + 1);
    for (std::size_t i = 0; i < r->size; ++i) if (b[i] != 0xdb) broken("write to a freed Python object");
    std::free(r);
  }
  r = h;
}
static void* zero(void* c, std::size_t a, std::size_t b) {
  if (b && a > (std::size_t(1) << 40) / b) return nullptr;
  void* p = get(c, a * b);
  if (p) std::memset(p, 0, a * b);
  return p;
}
static void* again(void* c, void* p, std::size_t s) {
  if (!p) return get(c, s);
  auto h = static_cast<Hdr*>(p) - 1;
  if (h->magic != kLive) broken("realloc of a freed Python object");
  void* q = get(c, s);
  if (!q) return nullptr;
  std::memcpy(q, p, h->size < s ? h->size : s);
  put(c, p);
  return q;
}

static PyObject* py_arm(PyObject*, PyObject* a) {
  unsigned long f, t;
  if (!PyArg_ParseTuple(a, "kk", &f, &t)) return nullptr;
  from = f;
  to = t;
  n = fired = 0;
  Py_RETURN_NONE;
}
static PyObject* py_stat(PyObject*, PyObject*) { return Py_BuildValue("kkl", n, fired, live); }
static PyObject* py_call(PyObject*, PyObject* a) {      // call(function, args): the window is open during the call
  PyObject *f, *args;
  if (!PyArg_ParseTuple(a, "OO", &f, &args)) return nullptr;
  window = true;
  PyObject* r = PyObject_Call(f, args, nullptr);
  window = false;
  return r;
}
static PyMethodDef methods[] = {{"arm", py_arm, METH_VARARGS, ""}, {"stat", py_stat, METH_NOARGS, ""}, {"call", py_call, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef module = {PyModuleDef_HEAD_INIT, "simpy", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
static PyObject* init_simpy() { return PyModule_Create(&module); }

int main(int argc, char** argv) {
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig(&pre);
  pre.utf8_mode = 1;
  if (PyStatus_Exception(Py_PreInitialize(&pre))) return 90;
  PyMemAllocatorEx mine{nullptr, get, zero, again, put};
  PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &mine);
  PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &mine);
  PyImport_AppendInittab("simpy", init_simpy);
  PyConfig c;
  PyConfig_InitIsolatedConfig(&c);
  c.site_import = 0;
  c.write_bytecode = 0;
  c.use_hash_seed = 1;
  c.hash_seed = 0;
  c.parse_argv = 0;
  c.install_signal_handlers = 0;
  PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
  PyConfig_SetBytesArgv(&c, argc - 1, argv + 1);
  PyConfig_SetBytesString(&c, &c.run_filename, argv[1]);
  if (PyStatus_Exception(Py_InitializeFromConfig(&c))) return 91;
  return Py_RunMain();
}
