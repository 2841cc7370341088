// AMD1
#include "h.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"
using namespace H;

static int objects = 0;
template <typename T>
struct Run
{
	typedef DSP::Complex<T> C;
	int id;
	Obj<DSP::AMD1<C>> o;
	Run() : id(++objects) { Ev("new").i("o", id).i("p", std::numeric_limits<T>::digits); }
	void agc(T a, T d) { o->agc(a, d); Ev("agc").i("o", id).f("att", a).f("dec", d); }
	void agc(T a, T d, T l) { o->agc(a, d, l); Ev("agc").i("o", id).f("att", a).f("dec", d).f("lo", l); }
	void agc(T a, T d, T l, T h) { o->agc(a, d, l, h); Ev("agc").i("o", id).f("att", a).f("dec", d).f("lo", l).f("hi", h); }
	void index(T i) { o->index(i); Ev("index").i("o", id).f("i", i); }
	void in(const std::vector<C> &x)
	{
		std::vector<T> a, r;
		for (C z : x) {
			r.push_back((*o)(z));
			a.push_back(z.real());
			a.push_back(z.imag());
		}
		Ev("in").i("o", id).fs("x", a).fs("r", r);
	}
};
template <typename T>
std::vector<DSP::Complex<T>> modulated(Rng &r, int n, double scale = 1)
{
	std::vector<DSP::Complex<T>> x;
	int kind = r.below(5);
	double a = std::ldexp(r.real(.5, 1), r.range(-6, 3)), w = r.real(.1, 3), v = r.real(.1, 1), d = r.real(.1, .9);
	for (int i = 0; i < n; ++i) {
		double m = a, p = w * i;
		if (kind == 0)
			m = a * (1 + d * std::cos(v * i));
		if (kind == 1)
			m = r.unit();
		if (kind == 2)
			m = i % 7 == 3 ? 0 : a;
		if (kind == 3)
			m = r.below(4) / 4., p = 0;
		m *= scale;
		x.push_back(DSP::Complex<T>(T(m * std::cos(p)), T(m * std::sin(p))));
	}
	return x;
}
template <typename T>
void all(int salt, int f)
{
	Rng r(salt);
	for (int i = 0; i < 12 * f; ++i) {
		Run<T> a;
		// limits of another size stay of that size
		double scale = i % 3 ? 1 : std::ldexp(1, r.range(-12, 50));
		if (i % 4 == 0)
			a.in(modulated<T>(r, 5));
		for (int j = 0; j < 4; ++j) {
			T att = T(r.below(4) ? r.unit() : r.range(0, 2) / 2.), dec = T(r.below(3) ? r.real(0, .1) : r.unit());
			if (r.below(4) == 0)
				std::swap(att, dec);
			int w = i % 3 ? r.below(5) : j == 0 ? 2 : r.range(3, 4);
			if (w == 0)
				a.agc(att, dec);
			if (w == 1)
				a.agc(att, dec, T(r.real(.01, .2)));
			if (w >= 2 && w < 4)
				a.agc(att, dec, T(r.real(.01, .4) * scale), T(r.real(.5, 2) * scale));
			if (r.below(2))
				a.index(T(r.below(2) ? r.real(.2, 1) : r.range(1, 4) / 2.));
			a.in(modulated<T>(r, r.range(1, 40), r.below(6) ? scale : std::min(scale, 1.)));
		}
	}
	for (auto &s : scripts("amd")) {
		Run<T> a;
		a.agc(T(s[0].second) / 8, T(s[1].second) / 8, T(1) / 8, 1);
		std::vector<DSP::Complex<T>> x;
		for (size_t i = 2; i < s.size(); ++i)
			x.push_back(DSP::Complex<T>(i & 1 ? T(s[i].second) / 8 : 0, i & 1 ? 0 : T(s[i].second) / -8));
		a.in(x);
	}
}
// A long history
template <typename T>
void lasts(int salt)
{
	Rng r(salt);
	Run<T> a;
	a.agc(T(.5), T(.125), T(.05), 2);
	for (int i = 0; i < lasting(); i += 100)
		a.in(modulated<T>(r, 100));
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, f);
	shard("double");
	all<double>(2, f);
	shard("lasting");
	lasts<float>(3);
	done();
	return 0;
}
