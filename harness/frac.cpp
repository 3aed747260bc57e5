// Decimal digits behind the mantissa as a binary fraction.
#include <array>
#include <cerrno>
#include <cstdint>
#include <floaxie/krosh.h>
#include <floaxie/fraction.h>
typedef std::uint64_t u64;
template<std::size_t d, std::size_t b, typename C> static void both(const C* s, u64* o)
{
	const auto n = floaxie::extract_fraction_digits<d>(s);
	o[0] = n;
	o[1] = floaxie::convert_numerator<d, b>(n);
}
template<typename C> static void text(int i, const C* s, u64* o)
{
	switch (i)
	{
	case 0: both<1, 1>(s, o); break;
	case 1: both<2, 1>(s, o); break;
	case 2: both<3, 3>(s, o); break;
	case 3: both<3, 4>(s, o); break;
	case 4: both<4, 7>(s, o); break;
	case 5: both<4, 8>(s, o); break;
	case 6: both<5, 9>(s, o); break;
	case 7: both<6, 10>(s, o); break;
	default: both<9, 8>(s, o); break;
	}
}
template<typename T> static u64 number(int i, T n)
{
	switch (i)
	{
	case 0: return floaxie::convert_numerator<1, 1>(n);
	case 1: return floaxie::convert_numerator<2, 1>(n);
	case 2: return floaxie::convert_numerator<3, 3>(n);
	case 3: return floaxie::convert_numerator<3, 4>(n);
	case 4: return floaxie::convert_numerator<4, 7>(n);
	case 5: return floaxie::convert_numerator<4, 8>(n);
	case 6: return floaxie::convert_numerator<5, 9>(n);
	case 7: return floaxie::convert_numerator<6, 10>(n);
	default: return floaxie::convert_numerator<9, 8>(n);
	}
}
extern "C" {
void h_frac_c(int i, const char* s, u64* o) { text(i, s, o); }
void h_frac_w(int i, const wchar_t* s, u64* o) { text(i, s, o); }
void h_conv_s(int i, unsigned n, u64* o) { o[0] = number(i, n); }
void h_next_s(int i, unsigned n, u64* o) { o[0] = number(i, n); o[1] = number(i, n + 1); }
void h_conv_l(int i, u64 n, u64* o) { o[0] = number(i, n); }
}
