// Arithmetic of the decomposed representation: products, boundaries, composition, roundings.
#include <array>
#include <cerrno>
#include <cstdint>
#include <utility>
#include <floaxie/diy_fp.h>
#include <floaxie/cached_power.h>
#include <floaxie/bit_ops.h>
typedef unsigned char uc;
typedef std::uint64_t u64;
typedef std::uint32_t u32;
template<typename F> using D = floaxie::diy_fp<F>;
template<typename F, typename M> static void mul(M f, int e, M g, int x, M* of, int* oe)
{
	const D<F> r(D<F>(f, e) * D<F>(g, x));
	*of = r.mantissa();
	*oe = r.exponent();
}
template<typename F, typename M> static void scale(M f, int e, int k, M* of, int* oe)
{
	D<F> r(f, e);
	r *= floaxie::cached_power<F>(k);
	*of = r.mantissa();
	*oe = r.exponent();
}
template<typename F, typename M> static void bounds(F v, M* f, int* e)
{
	const std::pair<D<F>, D<F>> p(D<F>::boundaries(v));
	f[0] = p.first.mantissa(); e[0] = p.first.exponent();
	f[1] = p.second.mantissa(); e[1] = p.second.exponent();
}
template<typename F, typename M> static void down(M f, int e, M err, F* out, uc* st)
{
	D<F> w(f, e);
	const auto r = w.downsample(err);
	*out = r.value;
	st[0] = static_cast<uc>(r.status);
	st[1] = r.is_accurate;
}
template<typename M> static void rnd(M v, unsigned n, uc* st)
{
	const floaxie::round_result r(floaxie::round_up(v, n));
	st[0] = r.value;
	st[1] = r.is_accurate;
}
template<typename F, typename M> static void same(M f, int e, M g, int x, uc* st)
{
	const D<F> a(f, e), b(g, x);
	st[0] = a == b;
	st[1] = a != b;
}
// op: 0 ++x, 1 --x, 2 x - y, 3 x -= y, 4 x++, 5 x--, 6 normalize
template<typename F, typename M> static void step(M f, int e, M g, int op, M* of, int* oe)
{
	D<F> w(f, e);
	const D<F> y(g, e);
	D<F> r(w);
	switch (op)
	{
	case 0: r = ++w; break;
	case 1: r = --w; break;
	case 2: r = w - y; break;
	case 3: r = w -= y; break;
	case 4: r = w++; break;
	case 5: r = w--; break;
	default: w.normalize(); r = w; break;
	}
	of[0] = w.mantissa(); oe[0] = w.exponent();
	of[1] = r.mantissa(); oe[1] = r.exponent();
}
extern "C" {
void h_mul_d(u64 f, int e, u64 g, int x, u64* of, int* oe) { mul<double>(f, e, g, x, of, oe); }
void h_mul_f(u32 f, int e, u32 g, int x, u32* of, int* oe) { mul<float>(f, e, g, x, of, oe); }
void h_scale_d(u64 f, int e, int k, u64* of, int* oe) { scale<double>(f, e, k, of, oe); }
void h_scale_f(u32 f, int e, int k, u32* of, int* oe) { scale<float>(f, e, k, of, oe); }
void h_bounds_d(double v, u64* f, int* e) { bounds(v, f, e); }
void h_bounds_f(float v, u32* f, int* e) { bounds(v, f, e); }
void h_down_d(u64 f, int e, u64 err, double* out, uc* st) { down(f, e, err, out, st); }
void h_down_f(u32 f, int e, u32 err, float* out, uc* st) { down(f, e, err, out, st); }
void h_rnd_d(u64 v, unsigned n, uc* st) { rnd(v, n, st); }
void h_rnd_f(u32 v, unsigned n, uc* st) { rnd(v, n, st); }
void h_eq_d(u64 f, int e, u64 g, int x, uc* st) { same<double>(f, e, g, x, st); }
void h_eq_f(u32 f, int e, u32 g, int x, uc* st) { same<float>(f, e, g, x, st); }
void h_step_d(u64 f, int e, u64 g, int op, u64* of, int* oe) { step<double>(f, e, g, op, of, oe); }
void h_step_f(u32 f, int e, u32 g, int op, u32* of, int* oe) { step<float>(f, e, g, op, of, oe); }
}
