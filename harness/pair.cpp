// Two calls of the public interface whose results are compared.
#include <array>
#include <cerrno>
#include <string>
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
typedef unsigned long ul;
typedef unsigned char uc;
extern "C" {
double vp_fb_d_c(const char*, char**);
float vp_fb_f_c(const char*, char**);
double vp_fb_d_w(const wchar_t*, wchar_t**);
float vp_fb_f_w(const wchar_t*, wchar_t**);
void vp_between();
}
template<typename F> struct Out { F value; uc status; long consumed; };
template<typename F, typename C> static void one(const C* s, F (*fb)(const C*, C**), Out<F>* o)
{
	C* e = nullptr;
	const auto r = floaxie::atof<F>(s, &e, fb);
	o->value = r.value;
	o->status = static_cast<uc>(r.status);
	o->consumed = e - s;
}
template<typename F, typename C> static void str(const C* s, ul n, F (*fb)(const C*, C**), Out<F>* a, Out<F>* b)
{
	one<F, C>(s, fb, a);
	vp_between();
	const std::basic_string<C> t(s, n);
	const auto r = floaxie::from_string<F, C>(t, fb);
	b->value = r.value;
	b->status = static_cast<uc>(r.status);
	b->consumed = 0;
}
extern "C" {
void h_ps_d_cc(const char* s, const char* t, Out<double>* a, Out<double>* b) { one(s, vp_fb_d_c, a); vp_between(); one(t, vp_fb_d_c, b); }
void h_ps_f_cc(const char* s, const char* t, Out<float>* a, Out<float>* b) { one(s, vp_fb_f_c, a); vp_between(); one(t, vp_fb_f_c, b); }
void h_ps_d_cw(const char* s, const wchar_t* t, Out<double>* a, Out<double>* b) { one(s, vp_fb_d_c, a); vp_between(); one(t, vp_fb_d_w, b); }
void h_ps_f_cw(const char* s, const wchar_t* t, Out<float>* a, Out<float>* b) { one(s, vp_fb_f_c, a); vp_between(); one(t, vp_fb_f_w, b); }
void h_pstr_d_c(const char* s, ul n, Out<double>* a, Out<double>* b) { str(s, n, vp_fb_d_c, a, b); }
void h_pstr_f_c(const char* s, ul n, Out<float>* a, Out<float>* b) { str(s, n, vp_fb_f_c, a, b); }
void h_pstr_d_w(const wchar_t* s, ul n, Out<double>* a, Out<double>* b) { str(s, n, vp_fb_d_w, a, b); }
void h_pstr_f_w(const wchar_t* s, ul n, Out<float>* a, Out<float>* b) { str(s, n, vp_fb_f_w, a, b); }
// print, then parse
void h_trip_d_c(double v, char* buf, Out<double>* a) { floaxie::ftoa(v, buf); vp_between(); one(static_cast<const char*>(buf), vp_fb_d_c, a); }
void h_trip_f_c(float v, char* buf, Out<float>* a) { floaxie::ftoa(v, buf); vp_between(); one(static_cast<const char*>(buf), vp_fb_f_c, a); }
void h_trip_d_w(double v, wchar_t* buf, Out<double>* a) { floaxie::ftoa(v, buf); vp_between(); one(static_cast<const wchar_t*>(buf), vp_fb_d_w, a); }
void h_trip_f_w(float v, wchar_t* buf, Out<float>* a) { floaxie::ftoa(v, buf); vp_between(); one(static_cast<const wchar_t*>(buf), vp_fb_f_w, a); }
}
