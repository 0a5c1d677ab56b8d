// Node.js: the binding's calls into Node-API are linked to these functions (ld --wrap), which fail or
// collect garbage where the plan says. The functions of the simulator are added to the module's exports.
#include <node_api.h>
#include <cstdint>
#include <cstdlib>

extern "C" {
void simp_arm(unsigned long, unsigned long);
void simp_disarm();
unsigned long simp_allocs();
unsigned long simp_fired();
long simp_live();
void simp_fill(int, int);
napi_value hext_register(napi_env env, napi_value exports);
}

static bool open_;
static std::uint64_t n, from, to, fired, gcs;
static std::int64_t gcpoint;

static bool point(napi_env env) {
  if (!open_) return false;
  ++n;
  if (gcpoint >= 0 && static_cast<std::uint64_t>(gcpoint) == n) {
    open_ = false;
    napi_value g, f, r;
    if (napi_get_global(env, &g) == napi_ok && napi_get_named_property(env, g, "gc", &f) == napi_ok && napi_call_function(env, g, f, 0, nullptr, &r) == napi_ok) ++gcs;
    open_ = true;
  }
  if (n > from && n <= to) { ++fired; return true; }
  return false;
}
extern "C" {
#define W1(F, A) napi_status __real_##F(napi_env, A); napi_status __wrap_##F(napi_env e, A a) { return point(e) ? napi_generic_failure : __real_##F(e, a); }
#define W2(F, A, B) napi_status __real_##F(napi_env, A, B); napi_status __wrap_##F(napi_env e, A a, B b) { return point(e) ? napi_generic_failure : __real_##F(e, a, b); }
#define W3(F, A, B, C) napi_status __real_##F(napi_env, A, B, C); napi_status __wrap_##F(napi_env e, A a, B b, C c) { return point(e) ? napi_generic_failure : __real_##F(e, a, b, c); }
#define W4(F, A, B, C, D) napi_status __real_##F(napi_env, A, B, C, D); napi_status __wrap_##F(napi_env e, A a, B b, C c, D d) { return point(e) ? napi_generic_failure : __real_##F(e, a, b, c, d); }
W3(napi_create_string_utf8, const char*, size_t, napi_value*)
W1(napi_create_array, napi_value*)
W2(napi_create_array_with_length, size_t, napi_value*)
W1(napi_create_object, napi_value*)
W3(napi_set_property, napi_value, napi_value, napi_value)
W3(napi_set_named_property, napi_value, const char*, napi_value)
W3(napi_set_element, napi_value, uint32_t, napi_value)
W2(napi_get_array_length, napi_value, uint32_t*)
W4(napi_get_value_string_utf8, napi_value, char*, size_t, size_t*)
W2(napi_type_tag_object, napi_value, const napi_type_tag*)
W3(napi_check_object_type_tag, napi_value, const napi_type_tag*, bool*)
W2(napi_get_value_uint32, napi_value, uint32_t*)
W2(napi_get_value_int64, napi_value, int64_t*)
W2(napi_get_value_double, napi_value, double*)
W2(napi_coerce_to_number, napi_value, napi_value*)
W2(napi_unwrap, napi_value, void**)
W2(napi_typeof, napi_value, napi_valuetype*)
W3(napi_define_properties, napi_value, size_t, const napi_property_descriptor*)
}

static double num(napi_env env, napi_value v) { double d = 0; __real_napi_get_value_double(env, v, &d); return d; }
static napi_value js_arm(napi_env env, napi_callback_info info) {
  size_t c = 5;
  napi_value a[5];
  napi_get_cb_info(env, info, &c, a, nullptr, nullptr);
  n = fired = gcs = 0;
  from = static_cast<std::uint64_t>(num(env, a[2]));
  to = static_cast<std::uint64_t>(num(env, a[3]));
  gcpoint = static_cast<std::int64_t>(num(env, a[4]));
  simp_arm(static_cast<unsigned long>(num(env, a[0])), static_cast<unsigned long>(num(env, a[1])));
  open_ = true;
  return nullptr;
}
static napi_value js_disarm(napi_env env, napi_callback_info) {
  open_ = false;
  simp_disarm();
  napi_value r, v;
  __real_napi_create_array(env, &r);
  double d[] = {static_cast<double>(simp_allocs()), static_cast<double>(simp_fired()), static_cast<double>(n), static_cast<double>(fired), static_cast<double>(gcs)};
  for (uint32_t i = 0; i < 5; ++i) { napi_create_double(env, d[i], &v); __real_napi_set_element(env, r, i, v); }
  return r;
}
static napi_value js_live(napi_env env, napi_callback_info) {
  napi_value v;
  napi_create_double(env, static_cast<double>(simp_live()), &v);
  return v;
}
static napi_value js_fill(napi_env env, napi_callback_info info) {
  size_t c = 2;
  napi_value a[2];
  napi_get_cb_info(env, info, &c, a, nullptr, nullptr);
  simp_fill(static_cast<int>(num(env, a[0])), static_cast<int>(num(env, a[1])));
  return nullptr;
}
extern "C" __attribute__((visibility("default"))) napi_value napi_register_module_v1(napi_env env, napi_value exports) {
  napi_value m = hext_register(env, exports);
  if (!m) m = exports;
  struct { const char* name; napi_callback f; } fs[] = {{"arm", js_arm}, {"disarm", js_disarm}, {"live", js_live}, {"fill", js_fill}};
  for (auto& x : fs) {
    napi_value f;
    napi_create_function(env, x.name, NAPI_AUTO_LENGTH, x.f, nullptr, &f);
    __real_napi_set_named_property(env, m, x.name, f);
  }
  return m;
}
