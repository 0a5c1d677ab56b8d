// Garbage collections at planned points of the conversion: the calls the wrapper makes into Ruby are
// linked to these functions (ld --wrap), which may collect, compact and overwrite freed slots first.
#include <ruby.h>
#include <ruby/encoding.h>
#include <cstdlib>
#include <cstring>

static unsigned long calls, fired;
static char kind[256];
static unsigned long point[256];
static int npoints;
static bool busy;

static VALUE collect(VALUE k) {
  if (k == 'c' || k == 'v') rb_funcall(rb_const_get(rb_cObject, rb_intern("GC")), rb_intern("compact"), 0);
  else if (k == 'm') rb_funcall(rb_const_get(rb_cObject, rb_intern("GC")), rb_intern("start"), 0);
  else rb_gc_start();
  if (k != 'm')
    for (int i = 0; i < 40; ++i) { volatile VALUE s = rb_str_new("overwritten overwritten overwritten", 35); volatile VALUE t = rb_str_new("xyz", 3); volatile VALUE a = rb_ary_new(); volatile VALUE h = rb_hash_new(); (void)s; (void)t; (void)a; (void)h; }
  return Qnil;
}
static void point_here() {
  if (busy || !npoints) return;
  ++calls;
  for (int i = 0; i < npoints; ++i)
    if (point[i] == calls || point[i] == 0) {
      busy = true;
      ++fired;
      int st = 0;
      rb_protect(collect, static_cast<VALUE>(kind[i]), &st);
      busy = false;
      break;
    }
}
extern "C" {
void simr_plan(const char* s) {       // "g3,c0": collect before the third call, compact before every call
  npoints = 0;
  calls = fired = 0;
  while (s && *s && npoints < 256) {
    kind[npoints] = *s++;
    point[npoints++] = std::strtoul(s, const_cast<char**>(&s), 10);
    if (*s == ',') ++s;
  }
}
unsigned long simr_calls() { return calls; }
unsigned long simr_fired() { return fired; }
#define W0(R, F) R __real_##F(); R __wrap_##F() { point_here(); return __real_##F(); }
#define W1(R, F, A) R __real_##F(A); R __wrap_##F(A a) { point_here(); return __real_##F(a); }
#define W2(R, F, A, B) R __real_##F(A, B); R __wrap_##F(A a, B b) { point_here(); return __real_##F(a, b); }
#define W3(R, F, A, B, C) R __real_##F(A, B, C); R __wrap_##F(A a, B b, C c) { point_here(); return __real_##F(a, b, c); }
W0(VALUE, rb_ary_new)
W1(VALUE, rb_ary_new_capa, long)
W2(VALUE, rb_ary_push, VALUE, VALUE)
W3(void, rb_ary_store, VALUE, long, VALUE)
W2(VALUE, rb_ary_unshift, VALUE, VALUE)
W2(VALUE, rb_ary_concat, VALUE, VALUE)
W0(VALUE, rb_hash_new)
W1(VALUE, rb_hash_new_capa, long)
W3(VALUE, rb_hash_aset, VALUE, VALUE, VALUE)
W2(VALUE, rb_hash_aref, VALUE, VALUE)
W2(VALUE, rb_hash_lookup, VALUE, VALUE)
W3(VALUE, rb_hash_lookup2, VALUE, VALUE, VALUE)
W2(VALUE, rb_str_new, const char*, long)
W1(VALUE, rb_str_new_cstr, const char*)
W2(VALUE, rb_str_new_static, const char*, long)
W3(VALUE, rb_enc_str_new, const char*, long, rb_encoding*)
W2(VALUE, rb_enc_str_new_cstr, const char*, rb_encoding*)
W3(VALUE, rb_enc_str_new_static, const char*, long, rb_encoding*)
W2(VALUE, rb_utf8_str_new, const char*, long)
W1(VALUE, rb_utf8_str_new_cstr, const char*)
W2(VALUE, rb_utf8_str_new_static, const char*, long)
W2(VALUE, rb_external_str_new, const char*, long)
W3(VALUE, rb_external_str_new_with_enc, const char*, long, rb_encoding*)
W2(VALUE, rb_interned_str, const char*, long)
W3(VALUE, rb_enc_interned_str, const char*, long, rb_encoding*)
W1(VALUE, rb_str_freeze, VALUE)
W1(VALUE, rb_obj_freeze, VALUE)
W2(VALUE, rb_enc_associate, VALUE, rb_encoding*)
W1(VALUE, rb_str_dup, VALUE)
W2(VALUE, rb_ary_new_from_values, long, const VALUE*)
}
