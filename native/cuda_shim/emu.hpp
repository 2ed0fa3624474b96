// Host stand-ins for the small part of Thrust / libcu++ / c10-cuda that philtorch's .cu files use,
// so that their kernels run (and are sanitized) on the CPU.  A scan combines its elements with a
// random bracketing, as a parallel scan may.
#pragma once
#include <ATen/ATen.h>
#include <torch/library.h>
#include <torch/script.h>
#include <torch/torch.h>

#include <cassert>
#include <cstdio>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef __host__
#define __host__
#endif
#ifndef __device__
#define __device__
#endif
#ifndef __forceinline__
#define __forceinline__ inline
#endif

namespace emu
{
using Fn = at::Tensor (*)(const at::Tensor &, const at::Tensor &, const at::Tensor &);
std::map<std::string, Fn> &registry();
uint64_t next();               // random bits of the current case
extern long combines, scans;   // what the emulation did
struct Lib
{
    void impl(const char *name, Fn f) { registry()[name] = f; }
    void impl(const char *name, at::Tensor (&f)(const at::Tensor &, const at::Tensor &, const at::Tensor &)) { registry()[name] = &f; }
};
struct Init { Init(void (*f)(Lib &)) { Lib l; f(l); } };
} // namespace emu

#undef TORCH_LIBRARY_IMPL
#define EMU_CAT_(a, b) a##b
#define EMU_CAT(a, b) EMU_CAT_(a, b)
#define TORCH_LIBRARY_IMPL(ns, k, m)                                             \
    static void EMU_CAT(emu_init_, __LINE__)(emu::Lib &);                        \
    static emu::Init EMU_CAT(emu_reg_, __LINE__)(&EMU_CAT(emu_init_, __LINE__)); \
    static void EMU_CAT(emu_init_, __LINE__)(emu::Lib & m)

namespace cuda
{
namespace std
{
using ::std::equal_to;
using ::std::forward;
using ::std::get;
using ::std::make_tuple;
using ::std::move;
using ::std::multiplies;
using ::std::plus;
using ::std::tie;
using ::std::tuple;
using ::std::tuple_element;
using ::std::tuple_size;
} // namespace std
} // namespace cuda

namespace at
{
namespace cuda
{
struct OptionalCUDAGuard { template <class... T> explicit OptionalCUDAGuard(T &&...) {} };
struct CUDAGuard { template <class... T> explicit CUDAGuard(T &&...) {} };
} // namespace cuda
} // namespace at
namespace c10
{
namespace cuda
{
using at::cuda::CUDAGuard;
using OptionalCUDAGuard = at::cuda::OptionalCUDAGuard;
} // namespace cuda
} // namespace c10
#ifndef C10_CUDA_CHECK
#define C10_CUDA_CHECK(x) (x)
#define C10_CUDA_KERNEL_LAUNCH_CHECK() ((void)0)
#endif

namespace thrust
{
using std::get;
using std::make_pair;
using std::make_tuple;
using std::pair;
using std::tie;
using std::tuple;
using std::equal_to;
using std::plus;
using std::multiplies;
struct device_t {};
inline constexpr device_t device{};
inline constexpr device_t host{};
inline constexpr device_t seq{};

template <class T> struct counting_iterator
{
    T v;
    explicit counting_iterator(T x = T()) : v(x) {}
    T operator[](int64_t i) const { return (T)(v + (T)i); }
    T operator*() const { return v; }
    counting_iterator operator+(int64_t i) const { return counting_iterator((T)(v + (T)i)); }
    int64_t operator-(const counting_iterator &o) const { return (int64_t)v - (int64_t)o.v; }
};
template <class T> counting_iterator<T> make_counting_iterator(T v) { return counting_iterator<T>(v); }

template <class T> struct constant_iterator
{
    T v;
    explicit constant_iterator(T x = T()) : v(x) {}
    T operator[](int64_t) const { return v; }
    T operator*() const { return v; }
    constant_iterator operator+(int64_t) const { return *this; }
};
template <class T> constant_iterator<T> make_constant_iterator(T v) { return constant_iterator<T>(v); }

// zip: reading gives a tuple of values, writing assigns each component
template <class... I> struct zip_iterator
{
    std::tuple<I...> its;
    int64_t off = 0;
    explicit zip_iterator(I... i) : its(i...) {}
    explicit zip_iterator(const std::tuple<I...> &t) : its(t) {}
    auto operator[](int64_t i) const
    {
        return std::apply([&](auto &...p) { return std::tuple<std::decay_t<decltype(p[i + off])>...>(p[i + off]...); }, its);
    }
    auto operator*() const { return (*this)[0]; }
    zip_iterator operator+(int64_t i) const { auto r = *this; r.off += i; return r; }
    int64_t operator-(const zip_iterator &o) const { return off - o.off; }
};
template <class... I> zip_iterator<I...> make_zip_iterator(I... i) { return zip_iterator<I...>(i...); }
template <class... I> zip_iterator<I...> make_zip_iterator(const std::tuple<I...> &t) { return zip_iterator<I...>(t); }

template <class F, class I> struct transform_iterator
{
    F f;
    I it;
    auto operator[](int64_t i) const { return f(it[i]); }
    auto operator*() const { return f(it[0]); }
    transform_iterator operator+(int64_t i) const { return {f, it + i}; }
    int64_t operator-(const transform_iterator &o) const { return it - o.it; }
};
template <class I, class F> transform_iterator<F, I> make_transform_iterator(I it, F f) { return {f, it}; }

template <class F> struct zip_function
{
    F f;
    template <class T> auto operator()(const T &t) const { return std::apply(f, t); }
};
template <class F> zip_function<F> make_zip_function(F f) { return {f}; }

template <class I, class V> void emu_store(const I &it, int64_t i, const V &v);
template <class F, class I> struct transform_output_iterator
{
    F f;
    I it;
    transform_output_iterator operator+(int64_t i) const { return {f, it + i}; }
};
template <class I, class F> transform_output_iterator<F, I> make_transform_output_iterator(I it, F f) { return {f, it}; }

template <class T, class V> void emu_store_(T *p, int64_t i, const V &v) { p[i] = v; }
template <class F, class I, class V> void emu_store_(const transform_output_iterator<F, I> &o, int64_t i, const V &v) { emu_store(o.it, i, o.f(v)); }
template <class... I, class V, size_t... K> void emu_store_zip(const zip_iterator<I...> &z, int64_t i, const V &v, std::index_sequence<K...>)
{
    (emu_store(std::get<K>(z.its), i + z.off, std::get<K>(v)), ...);
}
template <class... I, class V> void emu_store_(const zip_iterator<I...> &z, int64_t i, const V &v) { emu_store_zip(z, i, v, std::index_sequence_for<I...>{}); }
template <class I, class V> void emu_store(const I &it, int64_t i, const V &v) { emu_store_(it, i, v); }

// v[l..r) -> inclusive prefixes of carry o v, each combined in a random bracketing; the order of the operands is kept
template <class V, class Op> V emu_reduce(const std::vector<V> &v, int64_t l, int64_t r, const Op &op)
{
    if (r - l == 1) return v[l];
    int64_t m = l + 1 + (int64_t)(emu::next() % (uint64_t)(r - l - 1));
    emu::combines++;
    V a = emu_reduce(v, l, m, op), b = emu_reduce(v, m, r, op);
    return op(a, b);
}
template <class V, class Op> void emu_scan(const std::vector<V> &v, std::vector<std::optional<V>> &out, int64_t l, int64_t r, std::optional<V> carry, const Op &op)
{
    if (l >= r) return;
    if (r - l == 1)
    {
        if (carry) { emu::combines++; out[l].emplace(op(*carry, v[l])); }
        else out[l].emplace(v[l]);
        return;
    }
    // unbalanced splits now and then, as tiles of a scan have a ragged end
    int64_t m = emu::next() % 8 ? (l + r) / 2 : l + 1 + (int64_t)(emu::next() % (uint64_t)(r - l - 1));
    emu_scan(v, out, l, m, carry, op);
    V g = emu_reduce(v, l, m, op);
    std::optional<V> c2;
    if (carry) { emu::combines++; c2.emplace(op(*carry, g)); }
    else c2.emplace(g);
    emu_scan(v, out, m, r, c2, op);
}
template <class VI, class OI, class Op, class Same> OI emu_scan_all(VI vals, OI out, int64_t n, const Op &op, const Same &same)
{
    using V = std::decay_t<decltype(op(vals[0], vals[0]))>;
    emu::scans++;
    std::vector<V> in;
    in.reserve(n);
    for (int64_t i = 0; i < n; i++) in.push_back(V(vals[i]));
    std::vector<std::optional<V>> res(n);
    for (int64_t s = 0; s < n;)
    {
        int64_t e = s + 1;
        while (e < n && same(e)) e++;
        emu_scan(in, res, s, e, std::optional<V>(), op);
        s = e;
    }
    for (int64_t i = 0; i < n; i++) emu_store(out, i, *res[i]);
    return out + n;
}
template <class P, class K, class VI, class OI, class Eq, class Op>
OI inclusive_scan_by_key(const P &, K first, K last, VI vals, OI out, Eq eq, Op op)
{
    return emu_scan_all(vals, out, (int64_t)(last - first), op, [&](int64_t e) { return eq(first[e - 1], first[e]); });
}
template <class P, class VI, class OI, class Op> OI inclusive_scan(const P &, VI first, VI last, OI out, Op op)
{
    return emu_scan_all(first, out, (int64_t)(last - first), op, [](int64_t) { return true; });
}
template <class P, class I, class O, class F> O transform(const P &, I first, I last, O out, F f)
{
    int64_t n = last - first;
    for (int64_t i = 0; i < n; i++) emu_store(out, i, f(first[i]));
    return out + n;
}
template <class P, class I, class O> O copy(const P &, I first, I last, O out)
{
    int64_t n = last - first;
    for (int64_t i = 0; i < n; i++) emu_store(out, i, first[i]);
    return out + n;
}
template <class P, class I, class F> I for_each(const P &, I first, I last, F f)
{
    int64_t n = last - first;
    for (int64_t i = 0; i < n; i++) f(first[i]);
    return first + n;
}
} // namespace thrust
