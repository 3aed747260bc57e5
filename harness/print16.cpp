#include <array>
#include <cerrno>
#include <string>
#include <floaxie/ftoa.h>
typedef unsigned long ul;
extern "C" {
void h_two_d_u(double v, char* a, char16_t* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
void h_two_f_u(float v, char* a, char16_t* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
void h_two_d_v(double v, char* a, char32_t* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
void h_two_f_v(float v, char* a, char32_t* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
}
template<typename F, typename S> static void str(F v, typename S::value_type* a, typename S::value_type* b, ul* n, S (*f)(F))
{
	n[0] = floaxie::ftoa(v, a);
	const S s(f(v));
	n[1] = s.size();
	for (ul i = 0; i < s.size() && i < 100; ++i)
		b[i] = s[i];
}
extern "C" {
void h_str_d_u(double v, char16_t* a, char16_t* b, ul* n) { str<double, std::u16string>(v, a, b, n, floaxie::to_u16string<double>); }
void h_str_f_u(float v, char16_t* a, char16_t* b, ul* n) { str<float, std::u16string>(v, a, b, n, floaxie::to_u16string<float>); }
void h_str_d_v(double v, char32_t* a, char32_t* b, ul* n) { str<double, std::u32string>(v, a, b, n, floaxie::to_u32string<double>); }
void h_str_f_v(float v, char32_t* a, char32_t* b, ul* n) { str<float, std::u32string>(v, a, b, n, floaxie::to_u32string<float>); }
}
