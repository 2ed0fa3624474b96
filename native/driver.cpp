// Calls the compiled operators of /repo/philtorch/csrc through the dispatcher, under a sanitizer.
//   driver fuzz  SEED FIRST COUNT SECONDS     hostile shapes, layouts, dtypes (ASan + UBSan)
//   driver race  SEED FIRST COUNT SECONDS     thread counts and concurrent callers (TSan)
#include <ATen/ATen.h>
#include <ATen/Parallel.h>
#include <ATen/core/dispatch/Dispatcher.h>
#include <c10/util/Exception.h>
#include <torch/library.h>
#ifdef EMU
#include "emu.hpp"
#endif

#include <atomic>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ASAN 1
#else
#define HAVE_ASAN 0
#endif

extern "C" __attribute__((weak)) void shim_config(int threads, unsigned jitter);
extern "C" __attribute__((weak)) void shim_stats(long *regions, long *threads, long *orders);

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t a, uint64_t b) : s(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull) * 0xD1B54A32D192ED03ull) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
    bool p(double q) { return (next() >> 11) * 0x1.0p-53 < q; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + in(0, (int64_t)l.size() - 1)); }
};

#ifdef EMU // the CUDA sources compiled for the host (see cuda_shim/emu.hpp)
struct Op { emu::Fn f; at::Tensor call(const at::Tensor &A, const at::Tensor &zi, const at::Tensor &x) const
{ // (the dispatcher hands the operators materialised conjugates and negatives)
    auto m = [](const at::Tensor &t) { return t.resolve_conj().resolve_neg(); };
    return f(m(A), m(zi), m(x));
} };
static uint64_t emu_state = 1;
uint64_t emu::next() { emu_state ^= emu_state << 13; emu_state ^= emu_state >> 7; emu_state ^= emu_state << 17; return emu_state; }
long emu::combines = 0, emu::scans = 0;
std::map<std::string, emu::Fn> &emu::registry() { static std::map<std::string, emu::Fn> r; return r; }
static const char *NAMES[] = {"lti_recur", "lti_recur2", "lti_recur2", "recur2", "recur2"};
#else
using Op = c10::TypedOperatorHandle<at::Tensor(const at::Tensor &, const at::Tensor &, const at::Tensor &)>;
static const char *NAMES[] = {"lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"};
#endif
static std::map<std::string, Op> OPS;

// integer-valued data: results are exact in every dtype as long as they stay small
static at::Tensor ints(Rng &r, std::vector<int64_t> shape, int lo, int hi, at::ScalarType dt)
{
    auto t = at::empty(shape, at::kDouble);
    double *q = t.data_ptr<double>();
    for (int64_t i = 0; i < t.numel(); i++) q[i] = (double)r.in(lo, hi);
    if (at::isComplexType(dt))
    {
        auto u = at::empty(shape, at::kDouble);
        double *w = u.data_ptr<double>();
        for (int64_t i = 0; i < u.numel(); i++) w[i] = (double)r.in(lo, hi);
        return at::complex(t, u).to(dt);
    }
    return t.to(dt);
}

static std::vector<std::pair<char *, size_t>> POISONED;
static void poison(void *p, size_t n)
{
#if HAVE_ASAN
    if (n) { ASAN_POISON_MEMORY_REGION(p, n); POISONED.push_back({(char *)p, n}); }
#endif
}
static void unpoison_all()
{
#if HAVE_ASAN
    for (auto &x : POISONED) ASAN_UNPOISON_MEMORY_REGION(x.first, x.second);
#endif
    POISONED.clear();
}

// the same values in another memory layout
static at::Tensor layout(Rng &r, const at::Tensor &t, std::string &how)
{
    int d = (int)t.dim();
    switch (r.in(0, 8))
    {
    case 0: case 1:
        how += "c";
        return t.clone();
    case 2: // a contiguous window of a larger storage, the rest is poisoned
        {
            int64_t n = t.numel(), pre = 8 * r.in(1, 5), post = r.in(1, 40);
            auto s = at::empty({pre + n + post}, t.options());
            auto v = s.narrow(0, pre, n).view(t.sizes());
            v.copy_(t);
            size_t e = t.element_size();
            poison(s.data_ptr(), pre * e);
            size_t end = (pre + n) * e;
            end = (end + 7) / 8 * 8; // (ASan poisons whole 8-byte granules at the front)
            size_t tot = (pre + n + post) * e;
            if (tot > end) poison((char *)s.data_ptr() + end, tot - end);
            how += "w";
            return v;
        }
    case 3:
        if (d >= 2) { int a = (int)r.in(0, d - 1), b = (int)r.in(0, d - 1); how += "t"; return t.transpose(a, b).contiguous().transpose(a, b); }
        how += "c"; return t.clone();
    case 4:
        if (d >= 1 && t.numel())
        {
            int a = (int)r.in(0, d - 1);
            auto sz = t.sizes().vec();
            sz[a] *= 2;
            auto s = at::full(sz, -77, t.options());
            auto v = s.slice(a, 0, sz[a], 2);
            v.copy_(t);
            how += "s"; return v;
        }
        how += "c"; return t.clone();
    case 5:
        if (t.is_complex()) { how += "j"; return t.conj().resolve_conj().conj(); }
        how += "c"; return t.clone();
    case 6:
        how += "n";
        return at::_neg_view(t.neg());
    case 7: // flipped back: still contiguous
        how += "c"; return t.clone();
    default:
        if (d >= 1 && t.size(0) > 1) // expanded rows
        {
            how += "e";
            return t.narrow(0, 0, 1).expand(t.sizes());
        }
        how += "c"; return t.clone();
    }
}

static at::Tensor reference(const std::string &op, const at::Tensor &A_, const at::Tensor &zi_, const at::Tensor &x_)
{
    auto cd = at::kComplexDouble;
    auto A = A_.to(cd).resolve_conj().resolve_neg().contiguous(), zi = zi_.to(cd).resolve_conj().resolve_neg().contiguous(), x = x_.to(cd).resolve_conj().resolve_neg().contiguous();
    auto y = at::empty_like(x);
    auto *a = A.data_ptr<c10::complex<double>>(); auto *z = zi.data_ptr<c10::complex<double>>(); auto *u = x.data_ptr<c10::complex<double>>(); auto *o = y.data_ptr<c10::complex<double>>();
    int64_t B = x.size(0), T = x.size(1), N = op == "lti_recur" ? 1 : x.size(2);
    for (int64_t b = 0; b < B; b++)
        for (int64_t t = 0; t < T; t++)
            for (int64_t i = 0; i < N; i++)
            {
                c10::complex<double> s = u[(b * T + t) * N + i];
                for (int64_t j = 0; j < N; j++)
                {
                    int64_t k;
                    if (op == "lti_recur") k = A.numel() == 1 ? 0 : b;
                    else if (op[0] == 'l') k = ((A.dim() == 3 ? b : 0) * N + i) * N + j;
                    else k = (((A.dim() == 4 ? b * T : 0) + t) * N + i) * N + j;
                    s += a[k] * (t ? o[(b * T + t - 1) * N + j] : z[b * N + j]);
                }
                o[(b * T + t) * N + i] = s;
            }
    return y;
}

static std::string shp(const at::Tensor &t)
{
    std::string s = "(";
    for (auto n : t.sizes()) s += std::to_string(n) + ",";
    return s + ")";
}

struct Case { std::string op, desc; at::Tensor A, zi, x; bool valid; };

static std::vector<int64_t> mutate(Rng &r, std::vector<int64_t> s)
{
    int64_t k = r.in(0, 6);
    if (k <= 2 && !s.empty()) { auto &v = s[r.in(0, s.size() - 1)]; v = std::max<int64_t>(0, v + r.pick<int64_t>({-1, 1, 2, -2, 7, 100})); }
    else if (k == 3 && !s.empty()) s[r.in(0, s.size() - 1)] = r.pick<int64_t>({0, 1});
    else if (k == 4 && !s.empty()) s.erase(s.begin() + r.in(0, s.size() - 1));
    else if (k == 5) s.insert(s.begin() + r.in(0, s.size()), r.pick<int64_t>({1, 2, 3}));
    else if (s.size() >= 2) std::swap(s[r.in(0, s.size() - 1)], s[r.in(0, s.size() - 1)]);
    return s;
}

static Case make(Rng &r, bool fuzz)
{
    Case c;
    c.op = NAMES[r.in(0, 4)];
    bool scalar = c.op == "lti_recur", tv = c.op[0] == 'r';
    auto dt = r.pick<at::ScalarType>({at::kDouble, at::kDouble, at::kFloat, at::kFloat, at::kComplexDouble, at::kComplexFloat, at::kHalf, at::kBFloat16, at::kLong});
    if (scalar && dt == at::kLong) dt = at::kFloat;
    bool low = dt == at::kHalf || dt == at::kBFloat16;
    int64_t N = scalar ? 1 : c.op.back() == '2' ? 2 : r.pick<int64_t>({1, 2, 3, 4, 5, 7, 8, 11, 16});
    int64_t B = r.pick<int64_t>({1, 1, 2, 3, 4, 5, 8, 9, 17, 33}), T = r.pick<int64_t>({1, 1, 2, 3, 4, 7, 16, 31, 64, 129});
    if (fuzz && r.p(0.08)) { auto k = r.in(0, 2); (k == 0 ? B : k == 1 ? T : (scalar || c.op.back() == '2') ? T : N) = 0; }
    if (!fuzz && r.p(0.3)) { B = r.pick<int64_t>({64, 200}); T = r.pick<int64_t>({64, 300}); if (N > 5) N = 4; }
    std::vector<int64_t> sx = scalar ? std::vector<int64_t>{B, T} : std::vector<int64_t>{B, T, N}, sz = scalar ? std::vector<int64_t>{B} : std::vector<int64_t>{B, N}, sA;
    if (scalar) { auto k = r.in(0, 2); if (k == 1) sA = {1}; else if (k == 2) sA = {B}; }
    else if (!tv) { if (r.p(0.5)) sA = {B, N, N}; else sA = {N, N}; }
    else { if (r.p(0.5)) sA = {B, T, N, N}; else sA = {T, N, N}; }
    c.valid = true;
    auto dA = dt, dz = dt, dx = dt;
    if (fuzz && r.p(0.35))
    {
        c.valid = false;
        for (int64_t m = r.in(1, 2); m > 0; m--)
            switch (r.in(0, 6))
            {
            case 0: case 1: sA = mutate(r, sA); break;
            case 2: case 3: sz = mutate(r, sz); break;
            case 4: case 5: sx = mutate(r, sx); break;
            default: { auto o = r.pick<at::ScalarType>({at::kDouble, at::kFloat, at::kHalf, at::kComplexFloat, at::kLong, at::kInt, at::kShort}); (r.p(0.5) ? dA : r.p(0.5) ? dz : dx) = o; }
            }
    }
    // values: signed unit-row matrices keep every state a small integer
    at::Tensor A;
    int64_t elems = 1;
    for (auto n : sA) elems *= n;
    if (sA.size() >= 2 && elems)
    {
        A = at::zeros(sA, at::kComplexDouble);
        auto f = A.view({-1, sA.back()});
        for (int64_t i = 0; i < f.size(0); i++)
            if (r.p(0.85)) f.select(0, i)[r.in(0, sA.back() - 1)] = (double)r.pick<int>({-1, 1});
        A = (at::isComplexType(dA) ? A : at::real(A)).to(dA);
    }
    else
        A = ints(r, sA, -1, 1, dA);
    if (scalar && at::isComplexType(dA)) A = at::complex(at::real(A.to(at::kComplexDouble)), at::zeros(sA, at::kDouble)).to(dA);
    int hi = low ? 1 : 3;
    if (low && sx.size() > 1 && c.valid && T > 60) { T = 60; sx[1] = T; if (tv) { sA[sA.size() - 3] = T; A = A.narrow((int64_t)sA.size() - 3, 0, T).contiguous(); } }
    std::string how;
    c.A = layout(r, A, how);
    c.zi = layout(r, ints(r, sz, -hi, hi, dz), how);
    c.x = layout(r, ints(r, sx, -hi, hi, dx), how);
    c.desc = c.op + " A" + shp(c.A) + " zi" + shp(c.zi) + " x" + shp(c.x) + " " + c10::toString(dx) + " layout " + how + (c.valid ? "" : " malformed");
    return c;
}

static bool same_bits(const at::Tensor &a, const at::Tensor &b)
{
    if (a.sizes() != b.sizes() || a.scalar_type() != b.scalar_type()) return false;
    auto p = a.contiguous(), q = b.contiguous();
    return p.numel() == 0 || std::memcmp(p.data_ptr(), q.data_ptr(), p.numel() * p.element_size()) == 0;
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static int bad = 0;
static void report(int64_t i, const Case &c, const std::string &what)
{
    if (bad++ < 5) { std::printf("MONITOR case=%ld %s | %s\n", (long)i, what.c_str(), c.desc.c_str()); std::fflush(stdout); }
}

int main(int argc, char **argv)
{
    if (argc < 6) return 64;
    std::string mode = argv[1];
    uint64_t seed = std::strtoull(argv[2], 0, 10);
    int64_t first = std::atoll(argv[3]), count = std::atoll(argv[4]);
    double until = now() + std::atof(argv[5]);
    for (auto n : NAMES)
#ifdef EMU
        OPS.emplace(n, Op{emu::registry().at(n)});
#else
        OPS.emplace(n, c10::Dispatcher::singleton().findSchemaOrThrow((std::string("philtorch::") + n).c_str(), "").typed<at::Tensor(const at::Tensor &, const at::Tensor &, const at::Tensor &)>());
#endif
    c10::impl::ExcludeDispatchKeyGuard no_autograd(c10::autograd_dispatch_keyset);
    std::map<std::string, long> ev;
    std::set<std::string> distinct;
    size_t heap0 = 0;
    long measured = 0;
    FILE *cur = argc > 6 ? std::fopen(argv[6], "w") : nullptr;
    for (int64_t i = first; i < first + count && now() < until && bad < 5; i++)
    {
        Rng r(seed, (uint64_t)i);
        Case c = make(r, mode == "fuzz");
#ifdef EMU
        emu_state = r.next() | 1;
#endif
        if (cur) { std::rewind(cur); std::fprintf(cur, "%ld %-400s\n", (long)i, c.desc.c_str()); std::fflush(cur); }
        distinct.insert(c.desc);
        auto &op = OPS.at(c.op);
        ev["cases"]++;
        ev["op_" + c.op]++;
        if (mode == "fuzz")
        {
            try
            {
#if HAVE_ASAN
                size_t before = __sanitizer_get_current_allocated_bytes();
#endif
                at::Tensor y = op.call(c.A, c.zi, c.x);
#if HAVE_ASAN
                // a call must own nothing but its result afterwards (the first calls warm caches up)
                size_t after = __sanitizer_get_current_allocated_bytes();
                size_t own = (size_t)y.storage().nbytes() + 4096;
                if (i > first + 50) { ev["heap_measured"]++; if (after > before + own + 65536) report(i, c, "heap grew by " + std::to_string(after - before) + " bytes in one call"); else heap0 += after > before + y.storage().nbytes() + 600 ? 1 : 0, measured++; }
#endif
                ev[c.valid ? "valid_returned" : "malformed_returned"]++;
                unpoison_all();
                if (y.sizes() != c.x.sizes()) { if (c.valid) report(i, c, "result shape " + shp(y)); }
                else if (c.valid)
                {
                    if (!y.is_contiguous() || y.scalar_type() != c.x.scalar_type()) report(i, c, "layout or dtype of the result");
                    auto w = reference(c.op, c.A, c.zi, c.x);
                    auto d = (y.to(at::kComplexDouble) - w).abs();
                    double e = d.numel() ? d.max().item<double>() : 0.0;
                    if (!(e == 0.0)) report(i, c, "value differs from the recurrence by " + std::to_string(e));
                    ev["elements_compared"] += (long)y.numel();
                }
            }
            catch (const std::exception &e)
            {
                unpoison_all();
                ev[c.valid ? (c.x.numel() ? "valid_rejected" : "empty_rejected") : "malformed_rejected"]++;
                if (c.valid && c.x.numel() && c.A.numel()) report(i, c, std::string("valid arguments rejected: ") + std::string(e.what()).substr(0, 200));
            }
        }
        else
        {
            // (1) any number of threads gives the same bits
            auto solo = [&](int n, unsigned jit) { if (shim_config) shim_config(n, jit); at::set_num_threads(n); return op.call(c.A, c.zi, c.x); };
            c.A = c.A.contiguous().resolve_neg(); // (materialise lazily negated views before sharing them)
            at::Tensor w;
            try { w = solo(1, 0).clone(); } catch (const std::exception &e) { report(i, c, std::string("rejected: ") + std::string(e.what()).substr(0, 200)); continue; }
            for (int n : {2, 3, 4, 8})
            {
                if (r.p(0.4)) continue;
                auto y = solo(n, (unsigned)r.next() | 1);
                ev["threadcount_comparisons"]++;
                if (!same_bits(y, w)) report(i, c, "result with " + std::to_string(n) + " threads differs from one thread");
            }
            // (2) concurrent callers on shared and own inputs
            int callers = (int)r.pick<int>({2, 3, 4});
            Rng r2(seed + 77, (uint64_t)i);
            std::vector<Case> cs;
            std::vector<at::Tensor> want;
            for (int k = 0; k < callers; k++)
            {
                if (k && r.p(0.5)) { cs.push_back(make(r2, false)); if (r.p(0.5)) cs.back() = c; }
                else cs.push_back(c);
                auto &q = cs.back();
                if (shim_config) shim_config(1, 0);
                want.push_back(OPS.at(q.op).call(q.A, q.zi, q.x).clone());
            }
            if (shim_config) shim_config((int)r.pick<int>({1, 2, 4}), (unsigned)r.next() | 1);
            std::vector<std::vector<at::Tensor>> got(callers);
            std::atomic<int> go{0};
            std::vector<std::thread> th;
            for (int k = 0; k < callers; k++)
                th.emplace_back([&, k] {
                    c10::impl::ExcludeDispatchKeyGuard g(c10::autograd_dispatch_keyset);
                    go.fetch_add(1);
                    while (go.load() < callers) std::this_thread::yield();
                    for (int m = 0; m < 3; m++) got[k].push_back(OPS.at(cs[k].op).call(cs[k].A, cs[k].zi, cs[k].x));
                });
            for (auto &t : th) t.join();
            for (int k = 0; k < callers; k++)
                for (auto &y : got[k]) { ev["concurrent_comparisons"]++; if (!same_bits(y, want[k])) report(i, cs[k], "concurrent call differs from the same call alone"); }
        }
    }
    if (shim_stats) { long a, b, c; shim_stats(&a, &b, &c); ev["parallel_regions"] = a; ev["region_threads"] = b; ev["distinct_thread_orders"] = c; }
#ifdef EMU
    ev["scans"] = emu::scans;
    ev["combines"] = emu::combines;
#endif
    ev["distinct"] = (long)distinct.size();
    std::printf("SUMMARY {");
    bool f = true;
    for (auto &k : ev) { std::printf("%s\"%s\": %ld", f ? "" : ", ", k.first.c_str(), k.second); f = false; }
    std::printf("}\n");
    std::fflush(stdout);
    std::_Exit(bad ? 9 : 0); // (skip static destructors of libtorch)
}
