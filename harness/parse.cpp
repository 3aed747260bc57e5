// Entry points of the parsing side.  Only the public interface of floaxie is used.
#include <array>
#include <cerrno>
#include <string>
#include <floaxie/atof.h>
typedef unsigned long ul;
typedef unsigned char uc;
extern "C" {
double vp_fb_d_c(const char*, char**);
float vp_fb_f_c(const char*, char**);
double vp_fb_d_w(const wchar_t*, wchar_t**);
float vp_fb_f_w(const wchar_t*, wchar_t**);

void h_atof_d_c(const char* s, char** e, double* v, uc* st) { auto r = floaxie::atof<double>(s, e); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atof_f_c(const char* s, char** e, float* v, uc* st) { auto r = floaxie::atof<float>(s, e); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atof_d_w(const wchar_t* s, wchar_t** e, double* v, uc* st) { auto r = floaxie::atof<double>(s, e); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atof_f_w(const wchar_t* s, wchar_t** e, float* v, uc* st) { auto r = floaxie::atof<float>(s, e); *v = r.value; *st = static_cast<uc>(r.status); }

// no end pointer
void h_atofn_d_c(const char* s, double* v, uc* st) { auto r = floaxie::atof<double>(s, nullptr); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atofn_f_c(const char* s, float* v, uc* st) { auto r = floaxie::atof<float>(s, nullptr); *v = r.value; *st = static_cast<uc>(r.status); }

// fallback supplied by the caller
void h_atofc_d_c(const char* s, char** e, double* v, uc* st) { auto r = floaxie::atof<double>(s, e, vp_fb_d_c); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atofc_f_c(const char* s, char** e, float* v, uc* st) { auto r = floaxie::atof<float>(s, e, vp_fb_f_c); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atofc_d_w(const wchar_t* s, wchar_t** e, double* v, uc* st) { auto r = floaxie::atof<double>(s, e, vp_fb_d_w); *v = r.value; *st = static_cast<uc>(r.status); }
void h_atofc_f_w(const wchar_t* s, wchar_t** e, float* v, uc* st) { auto r = floaxie::atof<float>(s, e, vp_fb_f_w); *v = r.value; *st = static_cast<uc>(r.status); }

// std::basic_string adapter
void h_fstr_d_c(const char* s, ul n, double* v, uc* st) { const std::string t(s, n); auto r = floaxie::from_string<double>(t); *v = r.value; *st = static_cast<uc>(r.status); }
void h_fstr_f_c(const char* s, ul n, float* v, uc* st) { const std::string t(s, n); auto r = floaxie::from_string<float>(t); *v = r.value; *st = static_cast<uc>(r.status); }
void h_fstr_d_w(const wchar_t* s, ul n, double* v, uc* st) { const std::wstring t(s, n); auto r = floaxie::from_string<double>(t); *v = r.value; *st = static_cast<uc>(r.status); }
void h_fstr_f_w(const wchar_t* s, ul n, float* v, uc* st) { const std::wstring t(s, n); auto r = floaxie::from_string<float>(t); *v = r.value; *st = static_cast<uc>(r.status); }
}
