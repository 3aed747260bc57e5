// Scaling exponents, helpers on bits and powers.
#include <array>
#include <cerrno>
#include <cstdint>
#include <type_traits>
#include <floaxie/diy_fp.h>
#include <floaxie/cached_power.h>
#include <floaxie/bit_ops.h>
#include <floaxie/k_comp.h>
#include <floaxie/static_pow.h>
#include <floaxie/grisu.h>
typedef std::uint64_t u64;
typedef std::int64_t s64;
typedef std::uint32_t u32;
static u64 out(s64 x) { return static_cast<u64>(x); }
template<typename F> static int chosen(int e)
{
	return floaxie::k_comp_exp<floaxie::grisu_parameters<F>.alpha, floaxie::grisu_parameters<F>.gamma>(e);
}
template<typename F> static void window(int e, u64* o)
{
	typedef typename floaxie::diy_fp<F>::mantissa_storage_type M;
	floaxie::diy_fp<F> w(M(1) << (sizeof(M) * 8 - 1), e);
	w *= floaxie::cached_power<F>(chosen<F>(e));
	o[0] = out(w.exponent());
	o[1] = out(floaxie::grisu_parameters<F>.alpha);
	o[2] = out(floaxie::grisu_parameters<F>.gamma);
}
template<typename M> static void bits(M v, unsigned n, u64* o)
{
	const unsigned w = sizeof(M) * 8;
	o[0] = n < w ? floaxie::raised_bit<M>(n) : 0;
	o[1] = floaxie::mask<M>(n);
	o[2] = n < w ? floaxie::nth_bit<M>(v, n) : 0;
	o[3] = floaxie::highest_bit<M>(v);
}
extern "C" {
void h_comp_k(int i, int e, u64* o)
{
	switch (i)
	{
	case 0: o[0] = out(chosen<float>(e)); break;
	case 1: o[0] = out(chosen<double>(e)); break;
	case 2: o[0] = out(floaxie::k_comp_exp<-60, -57>(e)); break;
	case 3: o[0] = out(floaxie::k_comp_exp<0, 3>(e)); break;
	default: o[0] = out(floaxie::k_comp_exp<32, 35>(e)); break;
	}
	o[1] = 0;
	switch (i)
	{
	case 0: o[1] = out(floaxie::grisu_parameters<float>.alpha); break;
	case 1: o[1] = out(floaxie::grisu_parameters<double>.alpha); break;
	}
}
void h_wind_d(int e, u64* o) { window<double>(e, o); }
void h_wind_f(int e, u64* o) { window<float>(e, o); }
void h_bits_d(u64 v, unsigned n, u64* o) { bits<u64>(v, n, o); }
void h_bits_f(u32 v, unsigned n, u64* o) { bits<u32>(v, n, o); }
void h_sign_i(int v, u64* o) { o[0] = floaxie::positive_part(v); o[1] = out(floaxie::constexpr_abs(v)); }
void h_sign_l(s64 v, u64* o) { o[0] = out(floaxie::constexpr_abs(v)); }
void h_kapp_i(unsigned n, u64* o)
{
	const auto r(floaxie::calculate_kappa_div(n));
	o[0] = r.first;
	o[1] = r.second;
}
void h_powr_d(unsigned n, u64* o) { o[0] = floaxie::seq_pow<u64, 10, 19>(n); }
void h_powr_f(unsigned n, u64* o) { o[0] = floaxie::seq_pow<u32, 10, 9>(n); }
}
