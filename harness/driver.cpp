// Native replay of single inputs: reads one command per line, writes one answer per line.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <cerrno>
#include <string>
#include <vector>
#include <memory>
#include <new>
#include <iostream>
#include <sstream>
#include <malloc.h>
#include <thread>
typedef unsigned long ul;
typedef unsigned char uc;
// what a changed tree does not compile is left out of the program (engine/build.py), its commands answer "?"
#define W __attribute__((weak))
extern "C" {
W ul h_max_d(); W ul h_max_f();
W ul h_ftoa_d_c(double, char*); W ul h_ftoa_f_c(float, char*);
W ul h_ftoa_d_w(double, wchar_t*); W ul h_ftoa_f_w(float, wchar_t*);
W void h_two_d_w(double, char*, wchar_t*, ul*); W void h_two_f_w(float, char*, wchar_t*, ul*);
W void h_two_d_u(double, char*, char16_t*, ul*); W void h_two_f_u(float, char*, char16_t*, ul*);
W void h_two_d_v(double, char*, char32_t*, ul*); W void h_two_f_v(float, char*, char32_t*, ul*);
W void h_str_d_c(double, char*, char*, ul*); W void h_str_f_c(float, char*, char*, ul*);
W void h_str_d_w(double, wchar_t*, wchar_t*, ul*); W void h_str_f_w(float, wchar_t*, wchar_t*, ul*);
W void h_str_d_u(double, char16_t*, char16_t*, ul*); W void h_str_f_u(float, char16_t*, char16_t*, ul*);
W void h_str_d_v(double, char32_t*, char32_t*, ul*); W void h_str_f_v(float, char32_t*, char32_t*, ul*);
W void h_atof_d_c(const char*, char**, double*, uc*); W void h_atof_f_c(const char*, char**, float*, uc*);
W void h_atof_d_w(const wchar_t*, wchar_t**, double*, uc*); W void h_atof_f_w(const wchar_t*, wchar_t**, float*, uc*);
W void h_atofn_d_c(const char*, double*, uc*); W void h_atofn_f_c(const char*, float*, uc*);
W void h_atofc_d_c(const char*, char**, double*, uc*); W void h_atofc_f_c(const char*, char**, float*, uc*);
W void h_atofc_d_w(const wchar_t*, wchar_t**, double*, uc*); W void h_atofc_f_w(const wchar_t*, wchar_t**, float*, uc*);
W void h_fstr_d_c(const char*, ul, double*, uc*); W void h_fstr_f_c(const char*, ul, float*, uc*);
W void h_fstr_d_w(const wchar_t*, ul, double*, uc*); W void h_fstr_f_w(const wchar_t*, ul, float*, uc*);
W void h_again_d(double, char*, char*, ul*); W void h_again_f(float, char*, char*, ul*);
W void h_mul_d(ul, int, ul, int, ul*, int*); W void h_mul_f(unsigned, int, unsigned, int, unsigned*, int*);
W void h_scale_d(ul, int, int, ul*, int*); W void h_scale_f(unsigned, int, int, unsigned*, int*);
W void h_bounds_d(double, ul*, int*); W void h_bounds_f(float, unsigned*, int*);
W void h_down_d(ul, int, ul, double*, uc*); W void h_down_f(unsigned, int, unsigned, float*, uc*);
W void h_rnd_d(ul, unsigned, uc*); W void h_rnd_f(unsigned, unsigned, uc*);
W void h_eq_d(ul, int, ul, int, uc*); W void h_eq_f(unsigned, int, unsigned, int, uc*);
W void h_step_d(ul, int, ul, int, ul*, int*); W void h_step_f(unsigned, int, unsigned, int, unsigned*, int*);
W void h_frac_c(int, const char*, ul*); W void h_frac_w(int, const wchar_t*, ul*);
W void h_comp_k(int, int, ul*); W void h_wind_d(int, ul*); W void h_wind_f(int, ul*); W void h_bits_d(ul, unsigned, ul*); W void h_bits_f(unsigned, unsigned, ul*);
W void h_sign_i(int, ul*); W void h_sign_l(long, ul*); W void h_powr_d(unsigned, ul*); W void h_kapp_i(unsigned, ul*); W void h_powr_f(unsigned, ul*);
W void h_conv_s(int, unsigned, ul*); W void h_next_s(int, unsigned, ul*); W void h_conv_l(int, ul, ul*);
W void h_updown_d(double, double*, uc*); W void h_updown_f(float, float*, uc*);

// caller supplied fallback: records the call
static int fb_calls; static const void* fb_str; static const void* fb_end;
// ... and answers as told by the command fbk
static bool fb_scripted; static ul fb_ret; static int fb_errno;
static thread_local bool fb_quiet;
void vp_between() { }
}
template<typename F, typename C> static F fb(const C* s, C** e, F (*f)(const C*, C**))
{
	if (fb_quiet) return f(s, e);
	++fb_calls; fb_str = s; fb_end = e;
	if (!fb_scripted) return f(s, e);
	if (e) *e = const_cast<C*>(s) + 3;
	if (fb_errno >= 0) errno = fb_errno;
	F r; std::memcpy(&r, &fb_ret, sizeof r); return r;
}
extern "C" {
double vp_fb_d_c(const char* s, char** e) { return fb<double, char>(s, e, std::strtod); }
float vp_fb_f_c(const char* s, char** e) { return fb<float, char>(s, e, std::strtof); }
double vp_fb_d_w(const wchar_t* s, wchar_t** e) { return fb<double, wchar_t>(s, e, std::wcstod); }
float vp_fb_f_w(const wchar_t* s, wchar_t** e) { return fb<float, wchar_t>(s, e, std::wcstof); }
}
template<typename T, typename U> T pun(U u) { T t; std::memcpy(&t, &u, sizeof t); return t; }
template<typename F> ul bits(F v) { return sizeof(F) == 8 ? pun<ul>(static_cast<double>(v)) : pun<unsigned>(static_cast<float>(v)); }
template<> ul bits<float>(float v) { return pun<unsigned>(v); }

// buffer whose end is guarded (and poisoned by the sanitizer when built with it)
template<typename C> struct Buf
{
	std::vector<C> v; ul n;
	explicit Buf(ul size) : v(size + 64, static_cast<C>(0x7e)), n(size) { }
	C* p() { return v.data(); }
	bool clean() const { for (ul i = n; i < v.size(); ++i) if (v[i] != static_cast<C>(0x7e)) return false; return true; }
};
template<typename C> std::string hex(const C* p, ul n)
{
	std::string r; char t[16];
	for (ul i = 0; i < n; ++i) { std::snprintf(t, sizeof t, "%s%lx", i ? "," : "", static_cast<ul>(sizeof(C) == 1 ? static_cast<uc>(p[i]) : p[i])); r += t; }
	return r.empty() ? "-" : r;
}
static ul max_d() { return h_max_d ? h_max_d() : 0; }
static ul max_f() { return h_max_f ? h_max_f() : 0; }
static bool absent(bool f) { if (!f) std::printf("?\n"); return !f; }
// memory blocks in use (not under the sanitizers, which have their own operator new)
static thread_local long blocks;
template<typename F, typename C> void pr(F v, ul max, ul (*f)(F, C*))
{
	if (absent(f)) return;
	Buf<C> b(max);
	// exact allocation, so that the sanitizer sees the first byte past the end
	std::unique_ptr<C[]> e(new C[max]);
	for (ul i = 0; i < max; ++i) e[i] = static_cast<C>(0x7e);
	const ul n = f(v, b.p());
	f(v, e.get());
	ul z = 0; while (z < b.v.size() && b.v[z]) ++z;
	std::printf("%lu %lu %d %s\n", n, z, b.clean() ? 0 : 1, hex(b.p(), z).c_str());
}
template<typename F, typename C1, typename C2> void two(F v, void (*f)(F, C1*, C2*, ul*))
{
	if (absent(f)) return;
	std::vector<C1> a(128); std::vector<C2> b(128); ul n[2] = {0, 0};
	f(v, a.data(), b.data(), n);
	ul z = 0, y = 0; while (z < 127 && a[z]) ++z; while (y < 127 && b[y]) ++y;
	std::printf("%lu %lu %s %s\n", n[0], n[1], hex(a.data(), z).c_str(), hex(b.data(), y).c_str());
}
template<typename C> std::vector<C> unhex(const std::string& s)
{
	std::vector<C> r; if (s == "-") return r;
	std::istringstream i(s); std::string t;
	while (std::getline(i, t, ',')) r.push_back(static_cast<C>(std::strtoul(t.c_str(), nullptr, 16)));
	return r;
}
static void answer(ul v, int st, long end, int calls, int ok, int err, ul heap)
{
	std::printf("%lx %d %ld %d %d %d %ld\n", v, st, end, calls, ok, err, static_cast<long>(heap));
}
static ul live() { return mallinfo2().uordblks; }
template<typename F, typename C> void pa(const std::string& h, int err0, void (*f)(const C*, C**, F*, uc*))
{
	if (absent(f)) return;
	const std::vector<C> s(unhex<C>(h));
	std::unique_ptr<C[]> b(new C[s.size() + 1]);
	for (ul i = 0; i < s.size(); ++i) b[i] = s[i];
	b[s.size()] = 0;
	C* e = nullptr; F v = 1; uc st = 99; fb_calls = 0; fb_str = nullptr; fb_end = nullptr;
	const long b0 = blocks;
	f(b.get(), &e, &v, &st);	// warms the allocator up
	const long b1 = blocks;
	e = nullptr; v = 1; st = 99; fb_calls = 0;
	const ul h0 = live();
	errno = err0;
	f(b.get(), &e, &v, &st);
	const int er = errno;
	const ul h1 = live();
	bool same = true; for (ul i = 0; i < s.size(); ++i) same = same && b[i] == s[i];
	answer(bits(v), st, e ? e - b.get() : -1, fb_calls, (!fb_calls || (fb_str == b.get() && fb_end == &e)) && same && b[s.size()] == 0, er, b1 != b0 ? b1 - b0 : h1 - h0);
}
template<typename F, typename C> void pn(const std::string& h, void (*f)(const C*, F*, uc*))
{
	if (absent(f)) return;
	const std::vector<C> s(unhex<C>(h));
	std::unique_ptr<C[]> b(new C[s.size() + 1]);
	for (ul i = 0; i < s.size(); ++i) b[i] = s[i];
	b[s.size()] = 0;
	F v = 1; uc st = 99; f(b.get(), &v, &st);
	answer(bits(v), st, 0, 0, 1, 0, 0);
}
template<typename F, typename C> void ps(const std::string& h, void (*f)(const C*, ul, F*, uc*))
{
	if (absent(f)) return;
	const std::vector<C> s(unhex<C>(h));
	std::unique_ptr<C[]> b(new C[s.size() + 1]);
	for (ul i = 0; i < s.size(); ++i) b[i] = s[i];
	b[s.size()] = 0;
	F v = 1; uc st = 99; f(b.get(), s.size(), &v, &st);
	answer(bits(v), st, 0, 0, 1, 0, 0);
}
template<typename F> void again(F v, void (*f)(F, char*, char*, ul*))
{
	if (absent(f)) return;
	std::vector<char> a(200), b(200); ul n[2] = {0, 0};
	const long b0 = blocks;
	f(v, a.data(), b.data(), n);
	const long b1 = blocks;
	const ul h0 = live();
	errno = 77;
	f(v, a.data(), b.data(), n);
	const int er = errno;
	const ul h1 = live();
	std::printf("%d %d %ld\n", n[0] == n[1] && std::strcmp(a.data(), b.data()) == 0, er, b1 != b0 ? b1 - b0 : static_cast<long>(h1 - h0));
}
template<typename F> void rprint(F v, void (*f)(F, char*, char*, ul*))
{
	if (absent(f)) return;
	auto g = [&] { for (int i = 0; i < 50; ++i) { char a[200], b[200]; ul n[2]; f(v, a, b, n); } };
	std::thread x(g), y(g); x.join(); y.join();
	std::printf("ok\n");
}
template<typename F, typename C> void rparse(const std::string& h, void (*f)(const C*, C**, F*, uc*))
{
	if (absent(f)) return;
	std::vector<C> s(unhex<C>(h)); s.push_back(0);
	auto g = [&] { fb_quiet = true; for (int i = 0; i < 50; ++i) { std::vector<C> t(s); C* e; F v; uc st; f(t.data(), &e, &v, &st); } };
	std::thread x(g), y(g); x.join(); y.join();
	std::printf("ok\n");
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++blocks; return p; }
void operator delete(void* p) noexcept { if (p) --blocks; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --blocks; std::free(p); }
#endif
int main()
{
	std::string l;
	while (std::getline(std::cin, l))
	{
		std::istringstream i(l); std::string c, a; int e0 = 0;
		i >> c >> a >> e0;
		if (c.empty()) continue;
		const ul u = std::strtoul(a.c_str(), nullptr, 16);
		const double d = pun<double>(u); const float f = pun<float>(static_cast<unsigned>(u));
		if (c == "max") { if (!absent(h_max_d)) std::printf("%lu %lu\n", h_max_d(), h_max_f()); }
		else if (c == "ftoa_d_c") pr<double, char>(d, max_d(), h_ftoa_d_c);
		else if (c == "ftoa_f_c") pr<float, char>(f, max_f(), h_ftoa_f_c);
		else if (c == "ftoa_d_w") pr<double, wchar_t>(d, max_d(), h_ftoa_d_w);
		else if (c == "ftoa_f_w") pr<float, wchar_t>(f, max_f(), h_ftoa_f_w);
		else if (c == "two_d_w") two<double, char, wchar_t>(d, h_two_d_w);
		else if (c == "two_f_w") two<float, char, wchar_t>(f, h_two_f_w);
		else if (c == "two_d_u") two<double, char, char16_t>(d, h_two_d_u);
		else if (c == "two_f_u") two<float, char, char16_t>(f, h_two_f_u);
		else if (c == "two_d_v") two<double, char, char32_t>(d, h_two_d_v);
		else if (c == "two_f_v") two<float, char, char32_t>(f, h_two_f_v);
		else if (c == "str_d_c") two<double, char, char>(d, h_str_d_c);
		else if (c == "str_f_c") two<float, char, char>(f, h_str_f_c);
		else if (c == "str_d_w") two<double, wchar_t, wchar_t>(d, h_str_d_w);
		else if (c == "str_f_w") two<float, wchar_t, wchar_t>(f, h_str_f_w);
		else if (c == "str_d_u") two<double, char16_t, char16_t>(d, h_str_d_u);
		else if (c == "str_f_u") two<float, char16_t, char16_t>(f, h_str_f_u);
		else if (c == "str_d_v") two<double, char32_t, char32_t>(d, h_str_d_v);
		else if (c == "str_f_v") two<float, char32_t, char32_t>(f, h_str_f_v);
		else if (c == "atof_d_c") pa<double, char>(a, e0, h_atof_d_c);
		else if (c == "atof_f_c") pa<float, char>(a, e0, h_atof_f_c);
		else if (c == "atof_d_w") pa<double, wchar_t>(a, e0, h_atof_d_w);
		else if (c == "atof_f_w") pa<float, wchar_t>(a, e0, h_atof_f_w);
		else if (c == "atofc_d_c") pa<double, char>(a, e0, h_atofc_d_c);
		else if (c == "atofc_f_c") pa<float, char>(a, e0, h_atofc_f_c);
		else if (c == "atofc_d_w") pa<double, wchar_t>(a, e0, h_atofc_d_w);
		else if (c == "atofc_f_w") pa<float, wchar_t>(a, e0, h_atofc_f_w);
		else if (c == "atofn_d_c") pn<double, char>(a, h_atofn_d_c);
		else if (c == "atofn_f_c") pn<float, char>(a, h_atofn_f_c);
		else if (c == "fstr_d_c") ps<double, char>(a, h_fstr_d_c);
		else if (c == "fstr_f_c") ps<float, char>(a, h_fstr_f_c);
		else if (c == "fstr_d_w") ps<double, wchar_t>(a, h_fstr_d_w);
		else if (c == "fstr_f_w") ps<float, wchar_t>(a, h_fstr_f_w);
		else if (c == "again_d") again<double>(d, h_again_d);
		else if (c == "again_f") again<float>(f, h_again_f);
		else if (c == "race_again_d") rprint<double>(d, h_again_d);
		else if (c == "race_again_f") rprint<float>(f, h_again_f);
		else if (c == "race_atofc_d_c") rparse<double, char>(a, h_atofc_d_c);
		else if (c == "race_atofc_f_c") rparse<float, char>(a, h_atofc_f_c);
		else if (c == "race_atofc_d_w") rparse<double, wchar_t>(a, h_atofc_d_w);
		else if (c == "race_atofc_f_w") rparse<float, wchar_t>(a, h_atofc_f_w);
		else if (c.compare(0, 3, "fbk") == 0)
		{
			std::string r; i >> r >> fb_errno; fb_ret = std::strtoul(r.c_str(), nullptr, 16); fb_scripted = true;
			if (c == "fbk_d_c") pa<double, char>(a, e0, h_atofc_d_c);
			else if (c == "fbk_f_c") pa<float, char>(a, e0, h_atofc_f_c);
			else if (c == "fbk_d_w") pa<double, wchar_t>(a, e0, h_atofc_d_w);
			else pa<float, wchar_t>(a, e0, h_atofc_f_w);
			fb_scripted = false;
		}
		else if (c == "updown_d") { if (absent(h_updown_d)) continue; double o = 0; uc st = 99; h_updown_d(d, &o, &st); std::printf("%lx %d\n", bits(o), st); }
		else if (c == "updown_f") { if (absent(h_updown_f)) continue; float o = 0; uc st = 99; h_updown_f(f, &o, &st); std::printf("%lx %d\n", bits(o), st); }
		// arithmetic: <op>_<type> first significand (hex), then decimal numbers and a second significand (hex)
		else if (c.find('_') != c.npos && (c.compare(0, 3, "mul") == 0 || c.compare(0, 5, "scale") == 0 || c.compare(0, 6, "bounds") == 0
			|| c.compare(0, 4, "down") == 0 || c.compare(0, 3, "rnd") == 0 || c.compare(0, 2, "eq") == 0 || c.compare(0, 4, "step") == 0))
		{
			const bool dd = c.back() == 'd';
			long n = 0; std::string h;
			i >> h >> n;
			const ul g = std::strtoul(h.c_str(), nullptr, 16);
			ul f[2] = {0, 0}; unsigned q[2] = {0, 0}; int e[2] = {0, 0}; uc st[2] = {9, 9}; double o = 0; float p = 0;
			const unsigned u4 = static_cast<unsigned>(u), g4 = static_cast<unsigned>(g);
			const char k = c[0] == 's' && c[1] == 't' ? 't' : c[0];
			if (absent(h_mul_d)) continue;
			if (k == 'm') { if (dd) h_mul_d(u, e0, g, n, f, e); else h_mul_f(u4, e0, g4, n, q, e); }
			else if (k == 's') { if (dd) h_scale_d(u, e0, n, f, e); else h_scale_f(u4, e0, n, q, e); }
			else if (k == 'b') { if (dd) h_bounds_d(d, f, e); else h_bounds_f(::pun<float>(u4), q, e); }
			else if (k == 'd') { if (dd) h_down_d(u, e0, g, &o, st); else h_down_f(u4, e0, g4, &p, st); f[0] = dd ? bits(o) : bits(p); }
			else if (k == 'e') { if (dd) h_eq_d(u, e0, g, n, st); else h_eq_f(u4, e0, g4, n, st); }
			else if (k == 'r') { if (dd) h_rnd_d(u, e0, st); else h_rnd_f(u4, e0, st); }
			else { if (dd) h_step_d(u, e0, g, n, f, e); else h_step_f(u4, e0, g4, n, q, e); }
			if (!dd && k != 'd') { f[0] = q[0]; f[1] = q[1]; }
			std::printf("%lx %d %lx %d %d %d\n", f[0], e[0], f[1], e[1], st[0], st[1]);
		}
		else if (c == "tool")
		{
			// tool <operation> <number> <number>
			if (absent(h_comp_k)) continue;
			std::string w; long x = 0, y = 0; ul o[4] = {0, 0, 0, 0};
			std::istringstream j(l.substr(5)); j >> w >> x >> y;
			if (w == "comp_k") h_comp_k(x, y, o);
			else if (w == "wind_d") h_wind_d(x, o);
			else if (w == "wind_f") h_wind_f(x, o);
			else if (w == "bits_d") h_bits_d(x, y, o);
			else if (w == "bits_f") h_bits_f(x, y, o);
			else if (w == "sign_i") h_sign_i(x, o);
			else if (w == "sign_l") h_sign_l(x, o);
			else if (w == "kapp_i") h_kapp_i(x, o);
			else if (w == "powr_d") h_powr_d(x, o);
			else if (w == "powr_f") h_powr_f(x, o);
			std::printf("%lu %lu %lu %lu\n", o[0], o[1], o[2], o[3]);
		}
		else if (c.compare(0, 5, "frac_") == 0)
		{
			if (absent(h_frac_c)) continue;
			const std::size_t n = e0; ul o[2] = {0, 0};
			if (c == "frac_c") { char* s = new char[n]; for (std::size_t k = 0; k < n; ++k) { ul x; i >> std::hex >> x; s[k] = static_cast<char>(x); } h_frac_c(u, s, o); delete[] s; }
			else { wchar_t* s = new wchar_t[n]; for (std::size_t k = 0; k < n; ++k) { ul x; i >> std::hex >> x; s[k] = static_cast<wchar_t>(x); } h_frac_w(u, s, o); delete[] s; }
			std::printf("%lu %lu\n", o[0], o[1]);
		}
		else if (c == "next_s")
		{
			if (absent(h_next_s)) continue;
			ul o[2] = {0, 0};
			h_next_s(u, e0, o);
			std::printf("%lu %lu\n", o[0], o[1]);
		}
		else if (c.compare(0, 5, "conv_") == 0)
		{
			if (absent(h_conv_s)) continue;
			const ul n = e0; ul o[2] = {0, 0};
			if (c == "conv_s") h_conv_s(u, static_cast<unsigned>(n), o); else h_conv_l(u, n, o);
			std::printf("%lu\n", o[0]);
		}
		else std::printf("?\n");
		std::fflush(stdout);
	}
}
