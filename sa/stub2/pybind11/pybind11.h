// Analysis model of pybind11: registering a function under the selected name
// runs it on the selected arguments.  Only read by the analyser.
#ifndef SA_PYBIND_MODEL
#define SA_PYBIND_MODEL
#include <string>
#include <vector>
#include <array>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <tuple>
#include <new>
extern "C" {
bool __sa_same(const char* a, const char* b) noexcept;   // equal literals; folded before the analysis
long __sa_py_type(unsigned long o) noexcept;             // 0 int, 1 float, 2 str, 3 bool, 4 None, others
long __sa_py_int(unsigned long o) noexcept;
double __sa_py_num(unsigned long o) noexcept;
unsigned long __sa_h_py_text(unsigned long o) noexcept;
bool __sa_py_truth(unsigned long o) noexcept;
}
typedef struct sa_pyobject PyObject;
namespace pybind11 {
class error_already_set : public std::exception {};
class builtin_exception : public std::exception { public: using exception::exception; };
#define SA_EXC(N) class N : public builtin_exception { public: N() {} explicit N(const char*) {} explicit N(const std::string&) {} };
SA_EXC(index_error) SA_EXC(value_error) SA_EXC(type_error) SA_EXC(key_error) SA_EXC(cast_error) SA_EXC(stop_iteration) SA_EXC(buffer_error) SA_EXC(import_error) SA_EXC(attribute_error)
#undef SA_EXC

// ---- Python values
template <typename T, typename = void> struct sa_cast;
class handle {
 public:
  unsigned long id;
  handle() : id(0) {}
  handle(unsigned long i) : id(i) {}
  template <typename T> T cast() const { return sa_cast<T>::get(id); }
  bool is_none() const { return __sa_py_type(id) == 4; }
  explicit operator bool() const { return true; }
};
class object : public handle { public: using handle::handle; object() {} object(const handle& h) : handle(h) {} };
struct sa_kind_int {}; struct sa_kind_float {}; struct sa_kind_str {}; struct sa_kind_bool {}; struct sa_kind_other {};
class int_ : public object { public: using kind = sa_kind_int; using object::object; int_(const object& o) : object(o) {} operator int() const { return this->cast<int>(); } };
class float_ : public object { public: using kind = sa_kind_float; using object::object; float_(const object& o) : object(o) {} operator float() const { return this->cast<float>(); } operator double() const { return this->cast<double>(); } };
class str : public object { public: using kind = sa_kind_str; using object::object; str(const object& o) : object(o) {} operator std::string() const { return this->cast<std::string>(); } };
class bool_ : public object { public: using kind = sa_kind_bool; using object::object; bool_(const object& o) : object(o) {} operator bool() const { return this->cast<bool>(); } };
class none : public object { public: using kind = sa_kind_other; };
class list : public object { public: using kind = sa_kind_other; };
class tuple : public object { public: using kind = sa_kind_other; };
class dict : public object { public: using kind = sa_kind_other; };
inline bool sa_is(sa_kind_int, long t) { return t == 0 || t == 3; }
inline bool sa_is(sa_kind_float, long t) { return t == 1; }
inline bool sa_is(sa_kind_str, long t) { return t == 2; }
inline bool sa_is(sa_kind_bool, long t) { return t == 3; }
template <typename T> bool isinstance(handle h) { return sa_is(typename T::kind(), __sa_py_type(h.id)); }
inline long sa_intval(unsigned long o, long t) { return t == 3 ? (__sa_py_truth(o) ? 1 : 0) : __sa_py_int(o); }
inline double sa_numval(unsigned long o, long t) { return t == 1 ? __sa_py_num(o) : (double)sa_intval(o, t); }
template <> struct sa_cast<bool> {
  static bool get(unsigned long o) {
    const long t = __sa_py_type(o);
    if (t == 0 || t == 3) return sa_intval(o, t) != 0;
    if (t == 1) return __sa_py_num(o) != 0;
    return __sa_py_truth(o);
  }
};
template <typename T> struct sa_cast<T, std::enable_if_t<std::is_integral<T>::value>> {
  static T get(unsigned long o) {
    const long t = __sa_py_type(o);
    if (t != 0 && t != 3) throw cast_error("int");
    const long v = sa_intval(o, t);
    if (sizeof(T) < 8 && (v < -(1L << (sizeof(T) * 8 - 1)) || v >= (1L << (sizeof(T) * 8 - 1)))) throw cast_error("int");
    if (std::is_unsigned<T>::value && v < 0) throw cast_error("int");
    return (T)v;
  }
};
template <typename T> struct sa_cast<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static T get(unsigned long o) {
    const long t = __sa_py_type(o);
    if (t != 0 && t != 1 && t != 3) throw cast_error("float");
    return (T)sa_numval(o, t);
  }
};
template <> struct sa_cast<std::string> {
  static std::string get(unsigned long o) {
    if (__sa_py_type(o) != 2) throw cast_error("str");
    return std::string(std::string::raw(), __sa_h_py_text(o));
  }
};
template <typename T> T cast(const handle& h) { return sa_cast<T>::get(h.id); }

// ---- annotations
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <size_t N, size_t P> struct keep_alive {};
template <typename... G> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};
struct doc { doc(const char*) {} };
struct is_operator {}; struct kw_only {}; struct pos_only {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} };
struct name { name(const char*) {} }; struct arithmetic {};
template <typename... A> struct init {};
template <typename T> struct arg_v { const char* n; T v; };
struct arg {
  const char* n;
  explicit constexpr arg(const char* s) : n(s) {}
  template <typename T> arg_v<std::decay_t<T>> operator=(T&& v) const { return {n, v}; }
  arg& noconvert(bool = true) { return *this; }
};
namespace literals { inline arg operator""_a(const char* s, size_t) { return arg(s); } }
inline namespace sa_lit { using namespace literals; }

// ---- the selected call
struct sa_sel {
  const char *cls, *fun;     // names in Python
  long argc;                 // arguments given, without self
};
struct sa_call {
  void* self;
  void* p[4];                // objects passed
  unsigned long o[4];        // Python values passed
  long found, safe, ri;      // outcome
  double rf;
  std::string rs, names;     // names: parameter names for keyword arguments
  void* rp;
  char* buf;                 // a class instance returned or built
};

// one argument as Python passes it
template <typename T, typename = void> struct sa_in {       // a class instance
  static T& get(sa_call& c, int i) { return *(T*)c.p[i]; }
};
template <typename T> struct sa_in<T, std::enable_if_t<std::is_arithmetic<T>::value>> {
  static T get(sa_call& c, int i) { return sa_cast<T>::get(c.o[i]); }
};
template <typename T> struct sa_in<T, std::enable_if_t<std::is_enum<T>::value>> {
  static T get(sa_call& c, int i) { return (T)c.o[i]; }
};
template <> struct sa_in<std::string> { static std::string get(sa_call& c, int i) { return std::string(std::string::raw(), c.o[i]); } };
template <typename T> struct sa_in<T, std::enable_if_t<std::is_base_of<handle, T>::value>> { static T get(sa_call& c, int i) { T t; t.id = c.o[i]; return t; } };

// the annotations of one registration
struct sa_notes {
  return_value_policy pol = return_value_policy::automatic;
  bool alive = false;
  std::string all;
  int n = 0;
  bool hasdef[6] = {};
  long defs[6] = {};
};
template <typename T> void sa_note(sa_notes&, const T&) {}
inline void sa_note(sa_notes& n, return_value_policy p) { n.pol = p; }
template <size_t N, size_t P> void sa_note(sa_notes& n, const keep_alive<N, P>&) { if (N == 0 && P == 1) n.alive = true; }
inline void sa_note(sa_notes& n, const arg& a) { n.n++; n.all += std::string(",") + a.n; }
template <typename T> void sa_note(sa_notes& n, const arg_v<T>& a) { n.all += std::string(",") + a.n; n.hasdef[n.n] = true; n.defs[n.n] = (long)a.v; n.n++; }

// what Python gets back
template <typename R, typename = void> struct sa_out;
template <> struct sa_out<void> {};
template <typename T> struct sa_borrows { static constexpr bool value = false; };   // an instance refers to the object it was taken from
template <typename R> void sa_ret_class(sa_call& c, const sa_notes& n, R& r) {       // by reference
  const bool copies = n.pol == return_value_policy::automatic || n.pol == return_value_policy::automatic_reference || n.pol == return_value_policy::copy || n.pol == return_value_policy::move;
  c.safe = copies || n.alive || n.pol == return_value_policy::reference_internal;
  if (n.pol == return_value_policy::take_ownership) c.safe = 0;
  if (copies) { new (c.buf) std::remove_cv_t<R>(r); c.rp = c.buf; }
  else c.rp = (void*)&r;
}
template <typename R> using sa_bare = std::remove_cv_t<std::remove_reference_t<R>>;
template <typename R, typename F> void sa_run(sa_call& c, const sa_notes& n, F f) {
  using B = sa_bare<R>;
  if constexpr (std::is_void<R>::value) { f(); c.safe = 1; }
  else if constexpr (std::is_floating_point<B>::value) { c.rf = f(); c.safe = 1; }
  else if constexpr (std::is_arithmetic<B>::value || std::is_enum<B>::value) { c.ri = (long)f(); c.safe = 1; }
  else if constexpr (std::is_same<B, std::string>::value) { c.rs = f(); c.safe = 1; }
  else if constexpr (std::is_pointer<B>::value) { auto* r = f(); sa_notes m = n; if (m.pol == return_value_policy::automatic) m.pol = return_value_policy::take_ownership; if (m.pol == return_value_policy::automatic_reference) m.pol = return_value_policy::reference; sa_ret_class(c, m, *r); }
  else if constexpr (std::is_lvalue_reference<R>::value) { sa_ret_class<std::remove_reference_t<R>>(c, n, f()); }
  else { new (c.buf) B(f()); c.safe = !sa_borrows<B>::value || n.alive; }
}
// signatures
template <typename F> struct sa_sig : sa_sig<decltype(&F::operator())> {};
template <typename R, typename C, typename... A> struct sa_sig<R (C::*)(A...)> { using ret = R; using args = std::tuple<A...>; static constexpr int n = sizeof...(A); };
template <typename R, typename C, typename... A> struct sa_sig<R (C::*)(A...) const> : sa_sig<R (C::*)(A...)> {};
template <typename R, typename C, typename... A> struct sa_sig<R (C::*)(A...) noexcept> : sa_sig<R (C::*)(A...)> {};
template <typename R, typename C, typename... A> struct sa_sig<R (C::*)(A...) const noexcept> : sa_sig<R (C::*)(A...)> {};
template <typename R, typename... A> struct sa_sig<R (*)(A...)> { using ret = R; using args = std::tuple<A...>; static constexpr int n = sizeof...(A); };
template <typename T> using sa_arg = sa_in<sa_bare<T>>;

template <typename F, size_t... I> void sa_invoke(sa_call& c, const sa_notes& n, F& f, int from, std::index_sequence<I...>) {
  using S = sa_sig<F>;
  sa_run<typename S::ret>(c, n, [&]() -> typename S::ret { return f(sa_arg<std::tuple_element_t<I, typename S::args>>::get(c, from + (int)I)...); });
}
template <typename T, typename F, size_t... I> void sa_invoke_self(sa_call& c, const sa_notes& n, F& f, std::index_sequence<I...>) {
  using S = sa_sig<F>;
  sa_run<typename S::ret>(c, n, [&]() -> typename S::ret { return f(*(T*)c.self, sa_arg<std::tuple_element_t<I + 1, typename S::args>>::get(c, (int)I)...); });
}
template <typename T, typename F, size_t... I> void sa_invoke_mem(sa_call& c, const sa_notes& n, F f, std::index_sequence<I...>) {
  using S = sa_sig<F>;
  sa_run<typename S::ret>(c, n, [&]() -> typename S::ret { return (((T*)c.self)->*f)(sa_arg<std::tuple_element_t<I, typename S::args>>::get(c, (int)I)...); });
}

class module_ : public object {
 public:
  sa_call& c; sa_sel s;
  module_(sa_call& c, const char* a, const char* b, long n) : c(c), s{a, b, n} {}
  std::string text; std::string& doc() { return text; }
  template <typename F, typename... X> module_& def(const char* name, F&& f0, const X&... x) {
    using F_ = std::decay_t<F>;
    constexpr int N = sa_sig<F_>::n;
    if (!__sa_same(s.cls, "") || !__sa_same(s.fun, name) || s.argc > N) return *this;
    sa_notes n;
    (sa_note(n, x), ...);
    if (!fill(n, std::make_index_sequence<N>())) return *this;    // arguments left out take their defaults
    c.names = n.all;
    c.found++;
    F_ f(f0);
    sa_invoke(c, n, f, 0, std::make_index_sequence<N>());
    return *this;
  }
  template <size_t... I> bool fill(sa_notes& n, std::index_sequence<I...>) { bool ok = true; (fill1<I>(n, ok), ...); return ok; }
  template <size_t I> void fill1(sa_notes& n, bool& ok) { if ((long)I >= s.argc) { if (!n.hasdef[I]) ok = false; c.o[I] = n.defs[I]; } }
  module_& attr(const char*) { return *this; }
  template <typename T> module_& operator=(const T&) { return *this; }
};
using module = module_;

template <typename T, typename... O> class class_ {
  sa_call& c; sa_sel s; const char* nm;
 public:
  template <typename... X> class_(module_& m, const char* n, const X&...) : c(m.c), s(m.s), nm(n) {}
  template <typename... A, typename... X> class_& def(init<A...>, const X&... x) {
    if (__sa_same(s.cls, nm) && __sa_same(s.fun, "__init__") && s.argc == (long)sizeof...(A)) make<A...>(std::index_sequence_for<A...>());
    return *this;
  }
  template <typename F, typename... X> class_& def(const char* name, F&& f0, const X&... x) {
    using F_ = std::decay_t<F>;
    if (__sa_same(s.cls, nm) && __sa_same(s.fun, name)) {
      constexpr int N = sa_sig<F_>::n;
      sa_notes n;
      (sa_note(n, x), ...);
      c.found++;
      if constexpr (std::is_member_function_pointer<F_>::value) { if (s.argc == N) sa_invoke_mem<T>(c, n, f0, std::make_index_sequence<N>()); else c.found--; }
      else { F_ f(f0); if (s.argc == N - 1) sa_invoke_self<T>(c, n, f, std::make_index_sequence<N - 1>()); else c.found--; }
    }
    return *this;
  }
  template <typename F, typename... X> class_& def_property_readonly(const char* name, F&& f, const X&... x) { return *this; }
  template <typename F, typename G, typename... X> class_& def_property(const char* name, F&& f, G&& g, const X&... x) { return *this; }
  template <typename F, typename... X> class_& def_readonly(const char* name, F&& f, const X&... x) { return *this; }
  template <typename F, typename... X> class_& def_readwrite(const char* name, F&& f, const X&... x) { return *this; }
  template <typename F, typename... X> class_& def_static(const char* name, F&& f, const X&... x) { return *this; }
 private:
  template <typename... A, size_t... I> void make(std::index_sequence<I...>) {
    c.found++;
    new (c.buf) T(sa_arg<A>::get(c, (int)I)...);
    c.safe = 1;
  }
};
template <typename T> class enum_ {
  sa_call& c; sa_sel s; const char* nm;
 public:
  template <typename... X> enum_(module_& m, const char* n, const X&...) : c(m.c), s(m.s), nm(n) {}
  template <typename... X> enum_& value(const char* n, T v, const X&...) { if (__sa_same(s.cls, nm) && __sa_same(s.fun, n)) { c.found++; c.ri = (long)v; } return *this; }
  enum_& export_values() { return *this; }
};
inline void register_exception_translator(...) {}
}
namespace py_sa_dummy {}
#define PYBIND11_MODULE(NAME, VAR) static inline void sa_py_module(pybind11::module_& VAR)
#endif
