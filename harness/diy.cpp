// The decomposed representation of floating point values (documented class floaxie::diy_fp).
#include <array>
#include <cerrno>
#include <floaxie/diy_fp.h>
typedef unsigned char uc;
template<typename F> static void updown(F v, F* out, uc* st)
{
	floaxie::diy_fp<F> w(v);
	w.normalize();
	const auto r = w.downsample();
	*out = r.value;
	*st = static_cast<uc>(r.status);
}
extern "C" {
void h_updown_d(double v, double* out, uc* st) { updown(v, out, st); }
void h_updown_f(float v, float* out, uc* st) { updown(v, out, st); }
}
