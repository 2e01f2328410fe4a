// Stand-in for the Julia C API and CxxWrap's jlcxx, as far as the gateways use them: arrays are
// NumPy arrays (column-major), functions are exported with pybind11.
#pragma once
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <cstddef>
#include <string>

struct jl_value_t { int bytes = 0; int dims = 0; };

struct jl_array_t {
  size_t nrows = 0, ncols = 1, length = 0;
  void *data = nullptr;
  pybind11::object keep;
};

inline jl_value_t vf_float64{8, 0}, vf_float32{4, 0};
#define jl_float64_type (&vf_float64)
#define jl_float32_type (&vf_float32)

inline jl_value_t *jl_apply_array_type(jl_value_t *t, size_t dims)
{
  return new jl_value_t{t->bytes, (int) dims};
}

inline jl_array_t *vf_wrap(pybind11::array a)
{
  auto *r = new jl_array_t;
  r->nrows = a.ndim() > 0 ? a.shape(0) : 1;
  r->ncols = a.ndim() > 1 ? a.shape(1) : 1;
  r->length = a.size();
  r->data = (void*) a.data();
  r->keep = a;
  return r;
}

inline jl_array_t *jl_alloc_array_2d(jl_value_t *t, size_t m, size_t n)
{
  if (t->bytes == 4) {
    pybind11::array_t<float, pybind11::array::f_style> a(std::vector<size_t>{m, n});
    std::memset((void*) a.mutable_data(), 0xa5, 4 * m * n);
    return vf_wrap(a);
  }
  pybind11::array_t<double, pybind11::array::f_style> a(std::vector<size_t>{m, n});
  std::memset((void*) a.mutable_data(), 0xa5, 8 * m * n);       // Julia does not clear new arrays
  return vf_wrap(a);
}

inline void *jl_array_data_(jl_array_t *a) { return a->data; }
#define VF_PICK(_1, _2, NAME, ...) NAME
#define VF_DATA1(a) jl_array_data_(a)
#define VF_DATA2(a, T) ((T*) jl_array_data_(a))
#define jl_array_data(...) VF_PICK(__VA_ARGS__, VF_DATA2, VF_DATA1)(__VA_ARGS__)
inline size_t jl_array_len(const jl_array_t *a) { return a->length; }
inline size_t jl_array_nrows(const jl_array_t *a) { return a->nrows; }
inline size_t jl_array_ncols(const jl_array_t *a) { return a->ncols; }
inline size_t jl_array_dim(const jl_array_t *a, int i) { return i ? a->ncols : a->nrows; }

namespace jlcxx {

template <class T, int Dim = 1>
class ArrayRef
{
public:
  ArrayRef(jl_array_t *a) : m_a(a) {}
  jl_array_t *wrapped() const { return m_a; }
  T *data() { return (T*) m_a->data; }
  const T *data() const { return (const T*) m_a->data; }
  size_t size() const { return m_a->length; }
  T *begin() { return data(); }
  T *end() { return data() + size(); }
  T &operator[](size_t i) { return data()[i]; }
  const T &operator[](size_t i) const { return data()[i]; }
private:
  jl_array_t *m_a;
};

template <class T> struct Arg {
  typedef T type;
  static T get(T x) { return x; }
};

template <class T, int D> struct Arg<ArrayRef<T, D>> {
  typedef pybind11::array_t<T, pybind11::array::f_style> type;   // no conversion of the element type
  static ArrayRef<T, D> get(type a)
  {
    if (a.ndim() != D)
      throw pybind11::type_error("MethodError: wrong number of dimensions");
    return ArrayRef<T, D>(vf_wrap(a));
  }
};

class Module
{
public:
  explicit Module(pybind11::module_ &m) : m_m(m) {}

  template <class R, class... A>
  Module &method(const std::string &name, R (*f)(A...))
  {
    m_m.def(name.c_str(), [f](typename Arg<std::decay_t<A>>::type... a) {
      R r = f(Arg<std::decay_t<A>>::get(a)...);
      return r.wrapped()->keep;
    });
    return *this;
  }
private:
  pybind11::module_ &m_m;
};

}

#define JLCXX_MODULE                                            \
  void define_julia_module(jlcxx::Module&);                     \
  PYBIND11_MODULE(vf_gateway, vf_m)                             \
  {                                                             \
    jlcxx::Module m(vf_m);                                      \
    define_julia_module(m);                                     \
  }                                                             \
  void
