// The step which lays out the digits of a number (not in every tree: the tasks on it are left out where this does not compile).
#include <array>
#include <cerrno>
#include <string>
#include <floaxie/ftoa.h>
typedef unsigned long ul;
extern "C" {
ul h_max_d() { return floaxie::max_buffer_size<double>(); }
ul h_max_f() { return floaxie::max_buffer_size<float>(); }
ul h_lay_c(char* b, unsigned n, int k) { return floaxie::prettify<16>(b, n, k); }
ul h_lay_w(wchar_t* b, unsigned n, int k) { return floaxie::prettify<16>(b, n, k); }
}
