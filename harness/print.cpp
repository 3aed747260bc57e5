// Entry points of the printing side.  Only the public interface of floaxie is used.
#include <array>
#include <cerrno>
#include <string>
#include <floaxie/ftoa.h>
typedef unsigned long ul;
extern "C" {
ul h_max_d() { return floaxie::max_buffer_size<double>(); }
ul h_max_f() { return floaxie::max_buffer_size<float>(); }
ul h_ftoa_d_c(double v, char* b) { return floaxie::ftoa<double, char>(v, b); }
ul h_ftoa_f_c(float v, char* b) { return floaxie::ftoa<float, char>(v, b); }
ul h_ftoa_d_w(double v, wchar_t* b) { return floaxie::ftoa<double, wchar_t>(v, b); }
ul h_ftoa_f_w(float v, wchar_t* b) { return floaxie::ftoa<float, wchar_t>(v, b); }

// both signs of one value
void h_sign_d_c(double v, char* a, char* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(-v, b); }
void h_sign_f_c(float v, char* a, char* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(-v, b); }
// two character types
void h_two_d_w(double v, char* a, wchar_t* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
void h_two_f_w(float v, char* a, wchar_t* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
// the same value twice
void h_again_d(double v, char* a, char* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
void h_again_f(float v, char* a, char* b, ul* n) { n[0] = floaxie::ftoa(v, a); n[1] = floaxie::ftoa(v, b); }
}
template<typename F, typename S> static void str(F v, typename S::value_type* a, typename S::value_type* b, ul* n, S (*f)(F))
{
	n[0] = floaxie::ftoa(v, a);
	const S s(f(v));
	n[1] = s.size();
	for (ul i = 0; i < s.size() && i < 100; ++i)
		b[i] = s[i];
}
extern "C" {
void h_str_d_c(double v, char* a, char* b, ul* n) { str<double, std::string>(v, a, b, n, floaxie::to_string<double>); }
void h_str_f_c(float v, char* a, char* b, ul* n) { str<float, std::string>(v, a, b, n, floaxie::to_string<float>); }
void h_str_d_w(double v, wchar_t* a, wchar_t* b, ul* n) { str<double, std::wstring>(v, a, b, n, floaxie::to_wstring<double>); }
void h_str_f_w(float v, wchar_t* a, wchar_t* b, ul* n) { str<float, std::wstring>(v, a, b, n, floaxie::to_wstring<float>); }
}
