// Minimal stand-in for the subset of nanobind that irspack's wrappers use.
// It exists because nanobind is not installed in this sandbox; the code under
// test (everything in /repo/cpp_source) is compiled unchanged against it.
#pragma once
#include <Python.h>
#include <Eigen/Core>
#include <Eigen/Sparse>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#ifdef VS_SYMBOLIC
// prelude.hpp (force-included) provides Sym and sym_from_py / sym_to_py.
#define VS_NB_F64 vsym_native_double
#else
#define VS_NB_F64 double
#endif

namespace nanobind {

struct python_error : std::exception {
  const char *what() const noexcept override { return "python error set"; }
};
struct cast_error : std::exception {
  const char *what() const noexcept override { return "cast error"; }
};

inline PyObject *chk(PyObject *p) {
  if (!p) throw python_error();
  return p;
}

// ---- object handles -------------------------------------------------------
struct object {
  PyObject *p = nullptr;
  object() = default;
  struct steal_t {};
  object(PyObject *q, steal_t) : p(q) {}
  static object steal(PyObject *q) { return object(q, steal_t{}); }
  static object borrow(PyObject *q) { Py_XINCREF(q); return object(q, steal_t{}); }
  object(const object &o) : p(o.p) { Py_XINCREF(p); }
  object(object &&o) noexcept : p(o.p) { o.p = nullptr; }
  object &operator=(object o) { std::swap(p, o.p); return *this; }
  ~object() { Py_XDECREF(p); }
  PyObject *ptr() const { return p; }
  PyObject *release() { PyObject *q = p; p = nullptr; return q; }
  bool is_none() const { return p == Py_None; }
};
using handle = object;

struct str : object { using object::object; const char *c_str() const { return PyUnicode_AsUTF8(p); } };
struct list : object { using object::object; };
struct dict : object { using object::object; };

template <typename T, typename = void> struct caster;   // from / to
template <typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <typename T> PyObject *to_py(const T &v) { return caster<bare<T>>::to(v); }

struct tuple : object {
  using object::object;
  size_t size() const { return (size_t)PyTuple_GET_SIZE(p); }
  object operator[](size_t i) const { return object::borrow(PyTuple_GET_ITEM(p, (Py_ssize_t)i)); }
};

template <typename T> bare<T> cast(const object &o) {
  bool ok = true;
  bare<T> *res = nullptr;
  auto v = caster<bare<T>>::from(o.ptr(), ok);
  (void)res;
  if (!ok) { if (PyErr_Occurred()) throw python_error(); throw cast_error(); }
  return caster<bare<T>>::get(v);
}
template <typename... Ts> tuple make_tuple(const Ts &...ts) {
  PyObject *t = chk(PyTuple_New(sizeof...(Ts)));
  size_t i = 0;
  ((PyTuple_SET_ITEM(t, i++, chk(to_py(ts)))), ...);
  return tuple(t, object::steal_t{});
}

// ---- classes --------------------------------------------------------------
struct instance { PyObject_HEAD void *storage; bool constructed; };
struct type_info { PyTypeObject *type = nullptr; size_t size = 0; size_t align = 16;
  void (*destroy)(void *) = nullptr; bool is_enum = false;
  std::map<int64_t, PyObject *> enum_values; };
inline std::unordered_map<std::type_index, type_info> &registry() {
  static auto *r = new std::unordered_map<std::type_index, type_info>();
  return *r;
}
inline std::unordered_map<PyTypeObject *, type_info *> &by_type() {
  static auto *r = new std::unordered_map<PyTypeObject *, type_info *>();
  return *r;
}
inline type_info *find_type(PyTypeObject *t) {
  for (; t; t = t->tp_base) { auto it = by_type().find(t); if (it != by_type().end()) return it->second; }
  return nullptr;
}
inline PyObject *inst_new(PyTypeObject *t, PyObject *, PyObject *) {
  type_info *ti = find_type(t);
  instance *self = (instance *)t->tp_alloc(t, 0);
  if (!self) return nullptr;
  self->storage = ::operator new(ti->size + 64);
  std::memset(self->storage, 0, ti->size + 64);
  self->constructed = false;
  return (PyObject *)self;
}
inline void inst_dealloc(PyObject *o) {
  PyTypeObject *t = Py_TYPE(o);
  type_info *ti = find_type(t);
  instance *self = (instance *)o;
  if (self->constructed && ti) ti->destroy(self->storage);
  ::operator delete(self->storage);
  t->tp_free(o);
  Py_DECREF(t);
}

// ---- casters --------------------------------------------------------------
// from() returns a holder; get() turns a holder into something bindable.
template <typename T> struct value_holder { T v; };

template <typename T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static T from(PyObject *o, bool &ok) {
    if (PyFloat_Check(o)) { ok = false; return T(0); }
    object idx;
    if (PyLong_Check(o)) idx = object::borrow(o);
    else if (PyIndex_Check(o)) {
      PyObject *q = PyNumber_Index(o);
      if (!q) { if (PyErr_ExceptionMatches(PyExc_Exception)) PyErr_Clear(); else throw python_error(); ok = false; return T(0); }
      idx = object::steal(q);
    } else { ok = false; return T(0); }
    if (std::is_signed_v<T>) {
      long long v = PyLong_AsLongLong(idx.ptr());
      if (v == -1 && PyErr_Occurred()) { PyErr_Clear(); ok = false; return T(0); }
      if ((long long)(T)v != v) { ok = false; return T(0); }
      return (T)v;
    }
    unsigned long long v = PyLong_AsUnsignedLongLong(idx.ptr());
    if (v == (unsigned long long)-1 && PyErr_Occurred()) { PyErr_Clear(); ok = false; return T(0); }
    if ((unsigned long long)(T)v != v) { ok = false; return T(0); }
    return (T)v;
  }
  static T get(T v) { return v; }
  static PyObject *to(T v) { return std::is_signed_v<T> ? PyLong_FromLongLong((long long)v) : PyLong_FromUnsignedLongLong((unsigned long long)v); }
};
template <> struct caster<bool> {
  static bool from(PyObject *o, bool &ok) {
    if (o == Py_True) return true;
    if (o == Py_False) return false;
    const char *tn = Py_TYPE(o)->tp_name;
    if (std::strstr(tn, "bool") || std::strcmp(tn, "SymBool") == 0) {
      int r = PyObject_IsTrue(o);
      if (r < 0) throw python_error();
      return r;
    }
    ok = false; return false;
  }
  static bool get(bool v) { return v; }
  static PyObject *to(bool v) { return PyBool_FromLong(v); }
};
#ifdef VS_SYMBOLIC
template <> struct caster<Sym> {
  static Sym from(PyObject *o, bool &ok) {
    if (PyUnicode_Check(o) || o == Py_None || PyList_Check(o) || PyTuple_Check(o)) { ok = false; return Sym(0); }
    return vsym_from_py(o, ok);
  }
  static Sym get(Sym v) { return v; }
  static PyObject *to(Sym v) { return vsym_out(v); }
};
#endif
template <> struct caster<VS_NB_F64> {
  static VS_NB_F64 from(PyObject *o, bool &ok) {
    if (PyUnicode_Check(o) || PyComplex_Check(o)) { ok = false; return 0; }
    VS_NB_F64 v = PyFloat_AsDouble(o);
    if (v == -1.0 && PyErr_Occurred()) { PyErr_Clear(); ok = false; return 0; }
    return v;
  }
  static VS_NB_F64 get(VS_NB_F64 v) { return v; }
  static PyObject *to(VS_NB_F64 v) { return PyFloat_FromDouble(v); }
};
#ifndef VS_SYMBOLIC
template <> struct caster<float> {
  static float from(PyObject *o, bool &ok) { return (float)caster<double>::from(o, ok); }
  static float get(float v) { return v; }
  static PyObject *to(float v) { return PyFloat_FromDouble((double)v); }
};
#endif
template <> struct caster<std::string> {
  static std::string from(PyObject *o, bool &ok) {
    if (!PyUnicode_Check(o)) { ok = false; return {}; }
    Py_ssize_t n; const char *s = PyUnicode_AsUTF8AndSize(o, &n);
    if (!s) { PyErr_Clear(); ok = false; return {}; }
    return std::string(s, (size_t)n);
  }
  static std::string &get(std::string &v) { return v; }
  static std::string get(std::string &&v) { return std::move(v); }
  static PyObject *to(const std::string &v) { return PyUnicode_FromStringAndSize(v.data(), (Py_ssize_t)v.size()); }
};
template <> struct caster<object> {
  static object from(PyObject *o, bool &) { return object::borrow(o); }
  static object get(object v) { return v; }
  static PyObject *to(const object &v) { Py_XINCREF(v.p); return v.p; }
};
template <> struct caster<tuple> {
  static tuple from(PyObject *o, bool &ok) {
    if (!PyTuple_Check(o)) { ok = false; return tuple(); }
    Py_INCREF(o); return tuple(o, object::steal_t{});
  }
  static tuple get(tuple v) { return v; }
  static PyObject *to(const tuple &v) { Py_XINCREF(v.p); return v.p; }
};
template <> struct caster<list> {
  static list from(PyObject *o, bool &ok) {
    if (!PyList_Check(o)) { ok = false; return list(); }
    Py_INCREF(o); return list(o, object::steal_t{});
  }
  static list get(list v) { return v; }
  static PyObject *to(const list &v) { Py_XINCREF(v.p); return v.p; }
};

template <typename C> struct seq_caster {
  using T = typename C::value_type;
  static C from(PyObject *o, bool &ok) {
    C res;
    if (PyUnicode_Check(o) || PyBytes_Check(o) || PyDict_Check(o) || !PySequence_Check(o)) { ok = false; return res; }
    PyObject *fast = PySequence_Fast(o, "sequence expected");
    if (!fast) { PyErr_Clear(); ok = false; return res; }
    object guard = object::steal(fast);
    Py_ssize_t n = PySequence_Fast_GET_SIZE(fast);
    for (Py_ssize_t i = 0; i < n && ok; i++) {
      auto h = caster<T>::from(PySequence_Fast_GET_ITEM(fast, i), ok);
      if (ok) res.insert(res.end(), T(caster<T>::get(h)));
    }
    return res;
  }
  static C &get(C &v) { return v; }
  static C get(C &&v) { return std::move(v); }
  static PyObject *to(const C &v) {
    PyObject *l = chk(PyList_New(0));
    for (const auto &x : v) { object e = object::steal(chk(to_py<T>(x))); PyList_Append(l, e.ptr()); }
    return l;
  }
};
template <typename T, typename A> struct caster<std::vector<T, A>> : seq_caster<std::vector<T, A>> {};
template <typename K, typename V, typename... A> struct caster<std::map<K, V, A...>> {
  using C = std::map<K, V, A...>;
  static C from(PyObject *o, bool &ok) {
    C res;
    if (!PyDict_Check(o)) { ok = false; return res; }
    PyObject *k, *v; Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &v)) {
      auto hk = caster<K>::from(k, ok); if (!ok) break;
      auto hv = caster<V>::from(v, ok); if (!ok) break;
      res.emplace(caster<K>::get(hk), caster<V>::get(hv));
    }
    return res;
  }
  static C &get(C &v) { return v; }
  static PyObject *to(const C &m) {
    PyObject *d = chk(PyDict_New());
    for (const auto &kv : m) { object k = object::steal(chk(to_py(kv.first))), v = object::steal(chk(to_py(kv.second))); PyDict_SetItem(d, k.ptr(), v.ptr()); }
    return d;
  }
};
template <typename K, typename V, typename... A> struct caster<std::unordered_map<K, V, A...>> {
  using C = std::unordered_map<K, V, A...>;
  static PyObject *to(const C &m) { return caster<std::map<K, V>>::to(std::map<K, V>(m.begin(), m.end())); }
};
template <typename A, typename B> struct caster<std::pair<A, B>> {
  using P = std::pair<A, B>;
  static P from(PyObject *o, bool &ok) {
    P r{};
    if (!PyTuple_Check(o) || PyTuple_GET_SIZE(o) != 2) { ok = false; return r; }
    auto a = caster<A>::from(PyTuple_GET_ITEM(o, 0), ok); if (!ok) return r;
    auto b = caster<B>::from(PyTuple_GET_ITEM(o, 1), ok); if (!ok) return r;
    return P(caster<A>::get(a), caster<B>::get(b));
  }
  static P &get(P &v) { return v; }
  static P get(P &&v) { return std::move(v); }
  static PyObject *to(const P &v) {
    PyObject *t = chk(PyTuple_New(2));
    PyTuple_SET_ITEM(t, 0, chk(to_py<A>(v.first))); PyTuple_SET_ITEM(t, 1, chk(to_py<B>(v.second)));
    return t;
  }
};
template <typename... Ts> struct caster<std::tuple<Ts...>> {
  using T = std::tuple<Ts...>;
  template <size_t I> using El = std::tuple_element_t<I, T>;
  // elements are held through the holders of their casters, then copied
  template <size_t... I> static T from_(PyObject *o, bool &ok, std::index_sequence<I...>) {
    return T(El<I>(caster<El<I>>::get(one<I>(o, ok)))...);
  }
  template <size_t I> static auto one(PyObject *o, bool &ok) {
    auto h = caster<El<I>>::from(PyTuple_GET_ITEM(o, I), ok);
    if (!ok) throw cast_error();
    return h;
  }
  static T from(PyObject *o, bool &ok) {
    if (!PyTuple_Check(o) || PyTuple_GET_SIZE(o) != sizeof...(Ts)) throw cast_error();
    return from_(o, ok, std::index_sequence_for<Ts...>{});
  }
  static T &get(T &v) { return v; }
  static T get(T &&v) { return std::move(v); }
  template <size_t... I> static PyObject *to_(const T &v, std::index_sequence<I...>) {
    PyObject *t = chk(PyTuple_New(sizeof...(Ts)));
    ((PyTuple_SET_ITEM(t, I, chk(to_py<El<I>>(std::get<I>(v))))), ...);
    return t;
  }
  static PyObject *to(const T &v) { return to_(v, std::index_sequence_for<Ts...>{}); }
};
template <typename T> struct caster<std::optional<T>> {
  using O = std::optional<T>;
  static O from(PyObject *o, bool &ok) {
    if (o == Py_None) return std::nullopt;
    auto h = caster<T>::from(o, ok); if (!ok) return std::nullopt;
    return O(caster<T>::get(h));
  }
  static O &get(O &v) { return v; }
  static PyObject *to(const O &v) { if (!v) Py_RETURN_NONE; return to_py<T>(*v); }
};

// numpy / scipy access ------------------------------------------------------
inline PyObject *np_attr(const char *name) {
  object np = object::steal(chk(PyImport_ImportModule("numpy")));
  return chk(PyObject_GetAttrString(np.ptr(), name));
}
inline bool is_sparse_obj(PyObject *o) { return PyObject_HasAttrString(o, "tocsr"); }
inline object getattr(PyObject *o, const char *n) { return object::steal(chk(PyObject_GetAttrString(o, n))); }
struct buf {
  Py_buffer b; bool has = false;
  buf(PyObject *o, int flags) { if (PyObject_GetBuffer(o, &b, flags) < 0) throw python_error(); has = true; }
  ~buf() { if (has) PyBuffer_Release(&b); }
};
template <typename S> struct np_name;
template <> struct np_name<int32_t> { static constexpr const char *v = "int32"; };
template <> struct np_name<int64_t> { static constexpr const char *v = "int64"; };
template <> struct np_name<uint64_t> { static constexpr const char *v = "uint64"; };
#ifdef VS_SYMBOLIC
template <> struct np_name<Sym> { static constexpr const char *v = "object"; };
#else
template <> struct np_name<double> { static constexpr const char *v = "float64"; };
template <> struct np_name<float> { static constexpr const char *v = "float32"; };
#endif
inline object np_as(PyObject *o, const char *dtype) {
  object f = object::steal(np_attr("asarray"));
  object args = object::steal(chk(Py_BuildValue("(O)", o)));
  object kw = object::steal(chk(Py_BuildValue("{s:s,s:s}", "dtype", dtype, "order", "C")));
  return object::steal(chk(PyObject_Call(f.ptr(), args.ptr(), kw.ptr())));
}
template <typename S> void read_flat(PyObject *arr, std::vector<S> &out, std::vector<Py_ssize_t> &shape) {
  object a = np_as(arr, np_name<S>::v);
  object sh = getattr(a.ptr(), "shape");
  shape.clear();
  Py_ssize_t n = 1;
  for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(sh.ptr()); i++) { shape.push_back(PyLong_AsSsize_t(PyTuple_GET_ITEM(sh.ptr(), i))); n *= shape.back(); }
  out.resize((size_t)n);
#ifdef VS_SYMBOLIC
  if constexpr (std::is_same_v<S, Sym>) {
    object rav = object::steal(chk(PyObject_CallMethod(a.ptr(), "ravel", nullptr)));
    object l = object::steal(chk(PyObject_CallMethod(rav.ptr(), "tolist", nullptr)));
    for (Py_ssize_t i = 0; i < n; i++) { bool ok = true; out[(size_t)i] = vsym_from_py(PyList_GET_ITEM(l.ptr(), i), ok); if (!ok) throw cast_error(); }
    return;
  } else
#endif
  { buf b(a.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_SIMPLE); std::memcpy(out.data(), b.b.buf, (size_t)n * sizeof(S)); }
}
template <typename S> PyObject *make_np(const S *data, std::vector<Py_ssize_t> shape) {
  Py_ssize_t n = 1; for (auto s : shape) n *= s;
  object sh = object::steal(chk(PyTuple_New((Py_ssize_t)shape.size())));
  for (size_t i = 0; i < shape.size(); i++) PyTuple_SET_ITEM(sh.ptr(), (Py_ssize_t)i, PyLong_FromSsize_t(shape[i]));
#ifdef VS_SYMBOLIC
  if constexpr (std::is_same_v<S, Sym>) {
    object l = object::steal(chk(PyList_New(n)));
    for (Py_ssize_t i = 0; i < n; i++) PyList_SET_ITEM(l.ptr(), i, chk(vsym_to_py(data[i])));
    return vsym_make_array(l.ptr(), sh.ptr());
  } else
#endif
  {
    object f = object::steal(np_attr("empty"));
    object a = object::steal(chk(PyObject_CallFunction(f.ptr(), "Os", sh.ptr(), np_name<S>::v)));
    { buf b(a.ptr(), PyBUF_WRITABLE | PyBUF_C_CONTIGUOUS); if (n) std::memcpy(b.b.buf, data, (size_t)n * sizeof(S)); }
    return a.release();
  }
}

// Eigen dense ---------------------------------------------------------------
template <typename M> struct is_plain_dense : std::false_type {};
template <typename S, int R, int C, int O, int MR, int MC>
struct is_plain_dense<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};
template <typename S, int R, int C, int O, int MR, int MC>
struct is_plain_dense<Eigen::Array<S, R, C, O, MR, MC>> : std::true_type {};
template <typename M> struct caster<M, std::enable_if_t<is_plain_dense<M>::value>> {
  using S = typename M::Scalar;
  static M from(PyObject *o, bool &ok) {
    M m;
    if (is_sparse_obj(o) || !PyObject_HasAttrString(o, "dtype")) { ok = false; return m; }
    std::vector<S> flat; std::vector<Py_ssize_t> sh;
    try { read_flat<S>(o, flat, sh); } catch (python_error &) {
      if (PyErr_ExceptionMatches(PyExc_Exception)) { PyErr_Clear(); ok = false; return m; } throw; }
    if (sh.size() == 1 && (M::RowsAtCompileTime == 1 || M::ColsAtCompileTime == 1)) {
      m.resize(M::RowsAtCompileTime == 1 ? 1 : sh[0], M::RowsAtCompileTime == 1 ? sh[0] : 1);
      for (Py_ssize_t i = 0; i < sh[0]; i++) m.data()[i] = flat[(size_t)i];
    } else if (sh.size() == 2) {
      if ((M::RowsAtCompileTime != Eigen::Dynamic && M::RowsAtCompileTime != sh[0]) ||
          (M::ColsAtCompileTime != Eigen::Dynamic && M::ColsAtCompileTime != sh[1])) { ok = false; return m; }
      m.resize(sh[0], sh[1]);
      for (Py_ssize_t i = 0; i < sh[0]; i++) for (Py_ssize_t j = 0; j < sh[1]; j++) m(i, j) = flat[(size_t)(i * sh[1] + j)];
    } else ok = false;
    return m;
  }
  static M &get(M &v) { return v; }
  static M get(M &&v) { return std::move(v); }
  static PyObject *to(const M &m) {
    std::vector<S> flat((size_t)m.size());
    size_t k = 0;
    for (Eigen::Index i = 0; i < m.rows(); i++) for (Eigen::Index j = 0; j < m.cols(); j++) flat[k++] = m(i, j);
    if (M::RowsAtCompileTime == 1 || M::ColsAtCompileTime == 1) return make_np<S>(flat.data(), {(Py_ssize_t)m.size()});
    return make_np<S>(flat.data(), {(Py_ssize_t)m.rows(), (Py_ssize_t)m.cols()});
  }
};
// Eigen::Ref<Matrix>: no dtype conversion, unit inner stride required; the
// argument's own memory is used (native build) / written back (symbolic).
template <typename M, int Opt, typename St> struct caster<Eigen::Ref<M, Opt, St>> {
  using P = std::remove_const_t<M>;
  using S = typename P::Scalar;
  static constexpr bool is_const = std::is_const_v<M>;
  struct holder {
    object src; std::unique_ptr<buf> b; std::unique_ptr<P> owned; std::unique_ptr<Eigen::Ref<M, Opt, St>> ref;
    std::vector<S> before;
    ~holder() {
#ifdef VS_SYMBOLIC
      if (!is_const && owned && src.p) {
        bool diff = false;
        for (size_t i = 0; i < before.size(); i++) if (!vsym_same(before[i], owned->data()[i])) diff = true;
        if (diff) {
          PyObject *et, *ev, *tb; PyErr_Fetch(&et, &ev, &tb);
          for (Eigen::Index i = 0; i < owned->rows(); i++) for (Eigen::Index j = 0; j < owned->cols(); j++) {
            object idx = object::steal(Py_BuildValue("(nn)", (Py_ssize_t)i, (Py_ssize_t)j));
            object v = object::steal(vsym_to_py((*owned)(i, j)));
            if (PyObject_SetItem(src.p, idx.p, v.p) < 0) PyErr_Clear();
          }
          PyErr_Restore(et, ev, tb);
        }
      }
#endif
    }
    holder() = default; holder(holder &&) = default;
  };
  static holder from(PyObject *o, bool &ok) {
    holder h;
    if (is_sparse_obj(o) || !PyObject_HasAttrString(o, "dtype") || !PyObject_HasAttrString(o, "strides")) { ok = false; return h; }
#ifdef VS_SYMBOLIC
    if constexpr (true) {
      bool c = true;
      auto m = caster<P>::from(o, c);
      if (!c) { ok = false; return h; }
      h.owned = std::make_unique<P>(std::move(m));
      h.before.assign(h.owned->data(), h.owned->data() + h.owned->size());
      h.src = object::borrow(o);
      h.ref = std::make_unique<Eigen::Ref<M, Opt, St>>(*h.owned);
      return h;
    }
#else
    object dt = object::steal(chk(PyObject_Str(getattr(o, "dtype").ptr())));
    if (std::strcmp(PyUnicode_AsUTF8(dt.ptr()), np_name<S>::v)) { ok = false; return h; }
    h.src = object::borrow(o);
    h.b = std::make_unique<buf>(o, PyBUF_STRIDES);
    Py_buffer &b = h.b->b;
    if (b.ndim != 2) { ok = false; return h; }
    bool rm = P::IsRowMajor;
    Py_ssize_t inner = b.strides[rm ? 1 : 0], outer = b.strides[rm ? 0 : 1];
    Py_ssize_t nin = b.shape[rm ? 1 : 0];
    if (nin > 1 && inner != (Py_ssize_t)sizeof(S)) { ok = false; return h; }
    using Map = Eigen::Map<M, 0, Eigen::OuterStride<>>;
    Map map((S *)b.buf, b.shape[0], b.shape[1], Eigen::OuterStride<>(outer / (Py_ssize_t)sizeof(S)));
    h.ref = std::make_unique<Eigen::Ref<M, Opt, St>>(map);
    return h;
#endif
  }
  static Eigen::Ref<M, Opt, St> &get(holder &h) { return *h.ref; }
};

// Eigen sparse --------------------------------------------------------------
template <typename S, int O, typename I> struct caster<Eigen::SparseMatrix<S, O, I>> {
  using M = Eigen::SparseMatrix<S, O, I>;
  static M from(PyObject *o, bool &ok) {
    M m;
    if (!is_sparse_obj(o) && !PyObject_HasAttrString(o, "dtype")) { ok = false; return m; }
    const char *name = (O & Eigen::RowMajor) ? "csr_matrix" : "csc_matrix";
    object obj;
    try {
#ifdef VS_SYMBOLIC
      obj = object::steal(vsym_sparse_type(name));
#else
      obj = object::steal(chk(PyObject_GetAttrString(object::steal(chk(PyImport_ImportModule("scipy.sparse"))).ptr(), name)));
#endif
      if ((PyObject *)Py_TYPE(o) == obj.ptr()) obj = object::borrow(o);
      else obj = object::steal(chk(PyObject_CallFunctionObjArgs(obj.ptr(), o, nullptr)));
    } catch (python_error &) {
      if (PyErr_ExceptionMatches(PyExc_Exception)) { PyErr_Clear(); ok = false; return m; } throw; }
    std::vector<S> data; std::vector<I> ind, ptr; std::vector<Py_ssize_t> sh;
    read_flat<S>(getattr(obj.ptr(), "data").ptr(), data, sh);
    read_flat<I>(getattr(obj.ptr(), "indices").ptr(), ind, sh);
    read_flat<I>(getattr(obj.ptr(), "indptr").ptr(), ptr, sh);
    object shp = getattr(obj.ptr(), "shape");
    Py_ssize_t r = PyLong_AsSsize_t(PyTuple_GET_ITEM(shp.ptr(), 0)), c = PyLong_AsSsize_t(PyTuple_GET_ITEM(shp.ptr(), 1));
    m.resize(r, c);
    size_t nnz = (size_t)ptr.back();
    m.resizeNonZeros((Eigen::Index)nnz);
    for (size_t i = 0; i < nnz; i++) { m.valuePtr()[i] = data[i]; m.innerIndexPtr()[i] = ind[i]; }
    for (size_t i = 0; i < ptr.size(); i++) m.outerIndexPtr()[i] = ptr[i];
    return m;
  }
  static M &get(M &v) { return v; }
  static M get(M &&v) { return std::move(v); }
  static PyObject *to(const M &in) {
    M m(in); m.makeCompressed();
    object d = object::steal(make_np<S>(m.valuePtr(), {(Py_ssize_t)m.nonZeros()}));
    object i = object::steal(make_np<I>(m.innerIndexPtr(), {(Py_ssize_t)m.nonZeros()}));
    object p = object::steal(make_np<I>(m.outerIndexPtr(), {(Py_ssize_t)m.outerSize() + 1}));
    object trip = object::steal(chk(PyTuple_Pack(3, d.ptr(), i.ptr(), p.ptr())));
    object shp = object::steal(chk(Py_BuildValue("(nn)", (Py_ssize_t)m.rows(), (Py_ssize_t)m.cols())));
    const char *name = (O & Eigen::RowMajor) ? "csr_matrix" : "csc_matrix";
#ifdef VS_SYMBOLIC
    object t = object::steal(vsym_sparse_type(name));
#else
    object t = object::steal(chk(PyObject_GetAttrString(object::steal(chk(PyImport_ImportModule("scipy.sparse"))).ptr(), name)));
#endif
    object args = object::steal(chk(PyTuple_Pack(1, trip.ptr())));
    object kw = object::steal(chk(Py_BuildValue("{s:O}", "shape", shp.ptr())));
    return chk(PyObject_Call(t.ptr(), args.ptr(), kw.ptr()));
  }
};
template <typename T> struct is_sparse_mat : std::false_type {};
template <typename S, int O, typename I> struct is_sparse_mat<Eigen::SparseMatrix<S, O, I>> : std::true_type {};

// variant: tries alternatives in order; sparse alternatives only accept sparse objects
template <typename... Ts> struct caster<std::variant<Ts...>> {
  using V = std::variant<Ts...>;
  template <typename T> static bool attempt(PyObject *o, V &out) {
    if (is_sparse_mat<T>::value && !is_sparse_obj(o)) return false;
    bool ok = true;
    auto h = caster<T>::from(o, ok);
    if (!ok) return false;
    out = T(caster<T>::get(h));
    return true;
  }
  static V from(PyObject *o, bool &ok) {
    V v;
    if (!(attempt<Ts>(o, v) || ...)) ok = false;
    return v;
  }
  static V &get(V &v) { return v; }
  static PyObject *to(const V &v) { return std::visit([](const auto &x) { return to_py(x); }, v); }
};

// enums and bound classes ----------------------------------------------------
template <typename T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>> {
  static T from(PyObject *o, bool &ok) {
    auto &ti = registry()[typeid(T)];
    for (auto &kv : ti.enum_values) if (kv.second == o) return (T)kv.first;
    ok = false; return T{};
  }
  static T get(T v) { return v; }
  static PyObject *to(T v) {
    auto &ti = registry()[typeid(T)];
    auto it = ti.enum_values.find((int64_t)v);
    if (it == ti.enum_values.end()) { PyErr_SetString(PyExc_ValueError, "unknown enum value"); return nullptr; }
    Py_INCREF(it->second); return it->second;
  }
};
template <typename T, typename> struct caster {
  static_assert(std::is_class_v<T>, "no caster for this type");
  static T *from(PyObject *o, bool &ok) {
    auto it = registry().find(typeid(T));
    if (it == registry().end() || !it->second.type || !PyObject_TypeCheck(o, it->second.type)) { ok = false; return nullptr; }
    return (T *)((instance *)o)->storage;
  }
  static T &get(T *p) { return *p; }
  static PyObject *to(const T &v) {
    auto &ti = registry()[typeid(T)];
    if (!ti.type) { PyErr_SetString(PyExc_TypeError, "unregistered C++ return type"); return nullptr; }
    PyObject *o = chk(inst_new(ti.type, nullptr, nullptr));
    new (((instance *)o)->storage) T(v);
    ((instance *)o)->constructed = true;
    return o;
  }
};
template <typename T> struct caster<T *> {
  static T *from(PyObject *o, bool &ok) { if (o == Py_None) return nullptr; return caster<bare<T>>::from(o, ok); }
  static T *get(T *p) { return p; }
  static PyObject *to(T *p) { return p ? to_py(*p) : (Py_INCREF(Py_None), Py_None); }
};

// ---- functions -------------------------------------------------------------
struct arg {
  const char *name; object dflt; bool has = false;
  std::function<PyObject *()> lazy;
  explicit arg(const char *n) : name(n) {}
  template <typename T> arg operator=(const T &v) const {
    arg a(name); a.has = true;
    if constexpr (std::is_convertible_v<T, const char *>) a.dflt = object::steal(chk(PyUnicode_FromString(v)));
    else a.dflt = object::steal(chk(to_py(v)));
    return a;
  }
  arg noconvert(bool = true) const { return *this; }
  arg none(bool = true) const { return *this; }
};
namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
template <typename...> struct call_guard {};
struct gil_scoped_release {};
struct is_method {}; struct sig { const char *s; explicit sig(const char *s_) : s(s_) {} };

struct overload { std::function<PyObject *(PyObject *args, bool &match)> call; std::vector<arg> args; size_t n; bool method; };
struct func_record { std::string name; std::vector<overload> ovs; bool is_init = false; bool is_setstate = false; };

inline void set_exc() {
  try { throw; }
  catch (python_error &) {}
  catch (std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
  catch (std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception"); }
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw) {
  auto *fr = (func_record *)PyCapsule_GetPointer(self, "vs_func");
  for (auto &ov : fr->ovs) {
    Py_ssize_t given = PyTuple_GET_SIZE(args);
    if ((size_t)given > ov.n) continue;
    object full = object::steal(PyTuple_New((Py_ssize_t)ov.n));
    bool good = true; size_t used_kw = 0; size_t nself = ov.method ? 1 : 0;
    for (size_t i = 0; i < ov.n && good; i++) {
      PyObject *v = nullptr;
      if (i < (size_t)given) v = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
      else if (i >= nself && i - nself < ov.args.size()) {
        arg &a = ov.args[i - nself];
        if (kw) v = PyDict_GetItemString(kw, a.name);
        if (v) used_kw++;
        else if (a.has) v = a.dflt.ptr();
      }
      if (!v) { good = false; break; }
      Py_INCREF(v); PyTuple_SET_ITEM(full.ptr(), (Py_ssize_t)i, v);
    }
    if (!good || (kw && (size_t)PyDict_Size(kw) != used_kw)) continue;
    try {
      bool match = true;
      PyObject *r = ov.call(full.ptr(), match);
      if (match) {
        if (r && (fr->is_init || fr->is_setstate)) ((instance *)PyTuple_GET_ITEM(full.ptr(), 0))->constructed = true;
        return r;
      }
      Py_XDECREF(r);
      if (PyErr_Occurred()) return nullptr;
    } catch (cast_error &) { continue; }
    catch (...) { set_exc(); return nullptr; }
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", fr->name.c_str());
  return nullptr;
}
inline PyMethodDef &mdef() {
  static PyMethodDef d = {"vs_bound", (PyCFunction)(void (*)(void))dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
  return d;
}

template <typename A> struct arg_slot {
  using B = bare<A>;
  using H = decltype(caster<B>::from(nullptr, std::declval<bool &>()));
};
template <typename R, typename F, typename... A, size_t... I>
PyObject *invoke(F &f, PyObject *args, bool &match, std::index_sequence<I...>) {
  std::tuple<typename arg_slot<A>::H...> holders{caster<bare<A>>::from(PyTuple_GET_ITEM(args, (Py_ssize_t)I), match)...};
  if (!match) return nullptr;
  if constexpr (std::is_void_v<R>) {
    f(caster<bare<A>>::get(std::get<I>(holders))...);
    Py_RETURN_NONE;
  } else {
    decltype(auto) r = f(caster<bare<A>>::get(std::get<I>(holders))...);
    return to_py<bare<decltype(r)>>(r);
  }
}
template <typename R, typename F, typename... A> overload make_ov(F f) {
  overload o;
  o.n = sizeof...(A);
  o.call = [f](PyObject *args, bool &match) mutable { return invoke<R, F, A...>(f, args, match, std::index_sequence_for<A...>{}); };
  return o;
}
template <typename R, typename... A> overload ov_of(R (*f)(A...)) { return make_ov<R, R (*)(A...), A...>(f); }
template <typename C, typename R, typename... A> overload ov_of(R (C::*f)(A...)) {
  auto l = [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  return make_ov<R, decltype(l), C &, A...>(l);
}
template <typename C, typename R, typename... A> overload ov_of(R (C::*f)(A...) const) {
  auto l = [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  return make_ov<R, decltype(l), const C &, A...>(l);
}
template <typename L, typename C, typename R, typename... A> overload ov_lambda(L l, R (C::*)(A...) const) { return make_ov<R, L, A...>(l); }
template <typename L, typename C, typename R, typename... A> overload ov_lambda(L l, R (C::*)(A...)) { return make_ov<R, L, A...>(l); }
template <typename L, typename = decltype(&L::operator())> overload ov_of(L l) { return ov_lambda(l, &L::operator()); }

// for member functions inherited from a base, rebind self to the bound class
template <typename T, typename C, typename R, typename... A> overload ov_method(R (C::*f)(A...)) {
  auto l = [f](T &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  return make_ov<R, decltype(l), T &, A...>(l);
}
template <typename T, typename C, typename R, typename... A> overload ov_method(R (C::*f)(A...) const) {
  auto l = [f](const T &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  return make_ov<R, decltype(l), const T &, A...>(l);
}
template <typename T, typename L> overload ov_method(L l) { return ov_of(l); }

inline void add_extra(overload &o, const arg &a) { o.args.push_back(a); }
template <typename X> void add_extra(overload &, const X &) {}

inline void attach(PyObject *target, const char *name, overload o, bool method, bool init = false) {
  o.method = method;
  std::string key = std::string("__vs_rec_") + name;
  PyObject *d = method ? ((PyTypeObject *)target)->tp_dict : PyModule_GetDict(target);
  PyObject *cap = PyDict_GetItemString(d, key.c_str());
  if (cap) { ((func_record *)PyCapsule_GetPointer(cap, "vs_func"))->ovs.push_back(std::move(o)); return; }
  auto *fr = new func_record; fr->name = name; fr->is_init = init; fr->is_setstate = std::strcmp(name, "__setstate__") == 0;
  fr->ovs.push_back(std::move(o));
  cap = PyCapsule_New(fr, "vs_func", nullptr);
  PyDict_SetItemString(d, key.c_str(), cap);
  PyObject *f = PyCFunction_New(&mdef(), cap);
  if (method) { PyObject *im = PyInstanceMethod_New(f); PyObject_SetAttrString(target, name, im); }
  else PyObject_SetAttrString(target, name, f);
}

struct attr_proxy {
  PyObject *o; std::string n;
  template <typename T> attr_proxy &operator=(const T &v) {
    object x;
    if constexpr (std::is_convertible_v<T, const char *>) x = object::steal(chk(PyUnicode_FromString(v)));
    else x = object::steal(chk(to_py(v)));
    PyObject_SetAttrString(o, n.c_str(), x.ptr()); return *this;
  }
};
struct module_ {
  PyObject *m;
  template <typename F, typename... X> module_ &def(const char *name, F &&f, const X &...x) {
    overload o = ov_of(std::forward<F>(f));
    (add_extra(o, x), ...);
    attach(m, name, std::move(o), false);
    return *this;
  }
  attr_proxy attr(const char *n) { return attr_proxy{m, n}; }
  attr_proxy doc() { return attr_proxy{m, "__doc__"}; }
};

template <typename... A> struct init {};
template <typename T> struct class_ {
  PyTypeObject *t;
  template <typename... X> class_(module_ &m, const char *name, const X &...) {
    static PyType_Slot slots[] = {{Py_tp_new, (void *)inst_new}, {Py_tp_dealloc, (void *)inst_dealloc}, {0, nullptr}};
    const char *modname = PyModule_GetName(m.m);
    auto *full = new std::string(std::string(modname) + "." + name);
    PyType_Spec spec = {full->c_str(), sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    t = (PyTypeObject *)chk(PyType_FromSpec(&spec));
    auto &ti = registry()[typeid(T)];
    ti.type = t; ti.size = sizeof(T);
    ti.destroy = [](void *p) { ((T *)p)->~T(); };
    by_type()[t] = &ti;
    PyObject_SetAttrString(m.m, name, (PyObject *)t);
  }
  template <typename... A, typename... X> class_ &def(init<A...>, const X &...x) {
    auto l = [](T *self, A... a) { new (self) T(std::forward<A>(a)...); };
    overload o = make_ov<void, decltype(l), T *, A...>(l);
    (add_extra(o, x), ...);
    attach((PyObject *)t, "__init__", std::move(o), true, true);
    return *this;
  }
  template <typename F, typename... X> class_ &def(const char *name, F &&f, const X &...x) {
    overload o = ov_method<T>(std::forward<F>(f));
    (add_extra(o, x), ...);
    attach((PyObject *)t, name, std::move(o), true, std::strcmp(name, "__init__") == 0);
    return *this;
  }
  template <typename F, typename... X> class_ &def_static(const char *name, F &&f, const X &...) { (void)name; (void)f; return *this; }
  PyObject *mkprop(overload g, overload *s) {
    auto mk = [](overload o, const char *n) {
      auto *fr = new func_record; fr->name = n; o.method = true; fr->ovs.push_back(std::move(o));
      return PyCFunction_New(&mdef(), PyCapsule_New(fr, "vs_func", nullptr));
    };
    PyObject *gf = mk(std::move(g), "get"); PyObject *sf = s ? mk(std::move(*s), "set") : (Py_INCREF(Py_None), Py_None);
    return PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, gf, sf, nullptr);
  }
  template <typename C, typename D, typename... X> class_ &def_rw(const char *name, D C::*pm, const X &...) {
    auto g = [pm](T &self) -> D { return self.*pm; };
    auto s = [pm](T &self, const D &v) { self.*pm = v; };
    overload so = make_ov<void, decltype(s), T &, const D &>(s);
    PyObject_SetAttrString((PyObject *)t, name, mkprop(make_ov<D, decltype(g), T &>(g), &so));
    return *this;
  }
  template <typename C, typename D, typename... X> class_ &def_ro(const char *name, D C::*pm, const X &...) {
    auto g = [pm](T &self) -> bare<D> { return self.*pm; };
    PyObject_SetAttrString((PyObject *)t, name, mkprop(make_ov<bare<D>, decltype(g), T &>(g), nullptr));
    return *this;
  }
  template <typename G, typename... X> class_ &def_prop_ro(const char *name, G g, const X &...) {
    PyObject_SetAttrString((PyObject *)t, name, mkprop(ov_method<T>(g), nullptr));
    return *this;
  }
};
template <typename T> struct enum_ {
  PyObject *cls;
  module_ &mod;
  std::string name;
  std::vector<std::pair<std::string, int64_t>> vals;
  template <typename... X> enum_(module_ &m, const char *n, const X &...) : mod(m), name(n) { build(); }
  void build() {
    // (re)build a Python enum.Enum with the values seen so far
    object en = object::steal(chk(PyImport_ImportModule("enum")));
    object E = getattr(en.ptr(), "Enum");
    object l = object::steal(PyList_New(0));
    for (auto &v : vals) { object p = object::steal(Py_BuildValue("(sL)", v.first.c_str(), (long long)v.second)); PyList_Append(l.ptr(), p.ptr()); }
    object args = object::steal(Py_BuildValue("(sO)", name.c_str(), l.ptr()));
    object kw = object::steal(Py_BuildValue("{s:s}", "module", PyModule_GetName(mod.m)));
    cls = chk(PyObject_Call(E.ptr(), args.ptr(), kw.ptr()));
    auto &ti = registry()[typeid(T)];
    ti.is_enum = true; ti.enum_values.clear();
    for (auto &v : vals) ti.enum_values[v.second] = chk(PyObject_GetAttrString(cls, v.first.c_str()));
    PyObject_SetAttrString(mod.m, name.c_str(), cls);
  }
  template <typename... X> enum_ &value(const char *n, T v, const X &...) { vals.emplace_back(n, (int64_t)v); build(); return *this; }
  enum_ &export_values() { for (auto &v : vals) { object o = object::steal(PyObject_GetAttrString(cls, v.first.c_str())); PyObject_SetAttrString(mod.m, v.first.c_str(), o.ptr()); } return *this; }
};
} // namespace nanobind

#define VS_CAT2(a, b) a##b
#define VS_STR2(a) #a
#define VS_STR(a) VS_STR2(a)
#define NB_MODULE(NAME, VAR)                                                   \
  static void vs_nb_exec_##NAME(nanobind::module_ &VAR);                       \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##NAME() { \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    PyObject *m = PyModule_Create(&def);                                       \
    if (!m) return nullptr;                                                    \
    nanobind::module_ mm{m};                                                   \
    try { VS_NB_INIT(m); vs_nb_exec_##NAME(mm); } catch (...) { nanobind::set_exc(); return nullptr; } \
    return m;                                                                  \
  }                                                                            \
  static void vs_nb_exec_##NAME(nanobind::module_ &VAR)
#ifdef VS_SYMBOLIC
#define VS_NB_INIT(m) vsym_init(m)
#else
#define VS_NB_INIT(m) (void)0
#endif
namespace nb = nanobind;
