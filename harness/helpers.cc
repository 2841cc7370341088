// utils.hh and const.hh
#include "h.hh"
#include "utils.hh"
#include "complex.hh"
using namespace H;

template <typename T> T opaque(T x) { volatile T v = x; return v; }
template <typename T> struct Kind { static const int p = 0; };
template <> struct Kind<float> { static const int p = 24; };
template <> struct Kind<double> { static const int p = 53; };
template <> struct Kind<long double> { static const int p = 64; };
template <typename T> void put(Ev &e, const char *k, const std::vector<T> &v)
{
	if constexpr (Kind<T>::p == 0)
		e.is(k, v);
	else
		e.fs(k, v);
}
template <typename T>
std::vector<T> samples(Rng &r, int n)
{
	std::vector<T> v;
	if (Kind<T>::p == 0)
		for (int i = 0; i < n; ++i) {
			const long long lo = std::max<long long>(std::numeric_limits<T>::min(), -2000000000), hi = std::min<long long>(std::numeric_limits<T>::max(), 2000000000);
			v.push_back(T(i % 7 == 0 ? lo : i % 7 == 1 ? hi : i % 7 == 2 ? 0 : i % 7 < 5 ? r.range(std::max<int>(lo, -3), 3) : r.range(lo, hi)));
		}
	else
		for (int i = 0; i < n; ++i)
			v.push_back(T(i % 6 == 0 ? r.range(-2, 2) : i % 6 == 1 ? std::ldexp(r.real(-1, 1), r.range(-100, 100)) : i % 6 == 2 ? .25 * r.range(-9, 9) : r.real(-4, 4)));
	return v;
}
template <typename T>
void shuffle(Rng &r, std::vector<T> &v)
{
	for (size_t i = v.size(); i > 1; --i)
		std::swap(v[i-1], v[r.below(i)]);
}
template <typename T>
void exact(int salt, int f)
{
	Rng r(salt);
	for (int k = 0; k < 8 * f; ++k) {
		std::vector<T> x = samples<T>(r, 40), a = samples<T>(r, 40), b = samples<T>(r, 40), c, d;
		shuffle(r, x);
		shuffle(r, a);
		shuffle(r, b);
		std::vector<int> s;
		for (int i = 0; i < 40; ++i) {
			if (a[i] > b[i])
				std::swap(a[i], b[i]);
			if (i % 8 == 0)
				x[i] = a[i];
			if (i % 8 == 1)
				x[i] = b[i];
			if (i % 8 == 2)
				b[i] = a[i];
			s.push_back(DSP::signum(opaque(x[i])));
			c.push_back(DSP::clamp(opaque(x[i]), opaque(a[i]), opaque(b[i])));
		}
		{
			Ev e("signum");
			e.i("p", Kind<T>::p);
			put(e, "x", x);
			e.is("r", s);
		}
		{
			Ev e("clamp");
			e.i("p", Kind<T>::p);
			put(e, "x", x);
			put(e, "a", a);
			put(e, "b", b);
			put(e, "r", c);
		}
		if constexpr (Kind<T>::p != 0) {
			for (T v : x)
				d.push_back(DSP::delta(opaque(v)));
			Ev("delta").i("p", Kind<T>::p).fs("x", x).fs("r", d);
		}
	}
}
template <typename T>
void real(int salt, int f)
{
	Rng r(salt);
	for (int k = 0; k < 10 * f; ++k) {
		std::vector<T> x, a, b, c;
		for (int i = 0; i < 40; ++i) {
			double s = std::ldexp(1., i % 4 ? 0 : r.range(-30, 30));
			a.push_back(T(r.real(-s, s)));
			b.push_back(T(i % 5 == 0 ? double(a.back()) : r.real(-s, s)));
			x.push_back(T(i % 8 == 0 ? 0 : i % 8 == 1 ? 1 : i % 8 == 2 ? r.real(-5, 5) : i % 8 == 3 ? .5 : r.unit()));
			if (i % 3 == 0) {
				// values of two parts
				DSP::Complex<T> z = DSP::lerp(DSP::Complex<T>(b.back(), a.back()), DSP::Complex<T>(a.back(), b.back()), opaque(x.back()));
				c.push_back(z.imag());
			} else
				c.push_back(DSP::lerp(opaque(a.back()), opaque(b.back()), opaque(x.back())));
		}
		Ev("lerp").i("p", Kind<T>::p).fs("x", x).fs("a", a).fs("b", b).fs("r", c);
		x.clear();
		a.clear();
		b.clear();
		c.clear();
		for (int i = 0; i < 30; ++i) {
			b.push_back(T(i % 3 == 0 ? 1 : std::ldexp(r.real(1, 2), r.range(-6, 6))));
			a.push_back(T(i % 4 == 0 ? 0 : r.real(-3, 3)));
			x.push_back(T(a.back() + b.back() * (i % 5 == 0 ? 0 : r.real(-8, 8))));
			c.push_back(DSP::normal_pdf(opaque(x.back()), opaque(a.back()), opaque(b.back())));
		}
		Ev("normal").i("p", Kind<T>::p).fs("x", x).fs("a", a).fs("b", b).fs("r", c);
		x.clear();
		c.clear();
		for (int i = 0; i < 40; ++i) {
			x.push_back(T(i == 0 ? 0 : i % 5 == 0 ? r.range(-9, 9) : i % 5 == 1 ? std::ldexp(r.real(-1, 1), -r.below(60)) : i % 5 == 2 ? r.range(-19, 19) * .5 : i % 5 == 3 ? r.real(-1000, 1000) : r.real(-2, 2)));
			c.push_back(DSP::sinc(opaque(x.back())));
		}
		Ev("sinc").i("p", Kind<T>::p).fs("x", x).fs("r", c);
	}
}
template <typename T>
void constants()
{
	typedef DSP::Const<T> C;
	constexpr T pi = C::Pi();
	static_assert(pi > T(3) && pi < T(4), "");
	std::vector<T> v = {C::EighthPi(), C::FourthPi(), C::HalfPi(), pi, C::TwoPi(), C::FourPi(), C::SqrtPi(), C::SqrtTwoPi(), C::InvSqrtTwo()};
	Ev("const").i("p", Kind<T>::p).fs("r", v);
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("exact");
	exact<int>(1, f);
	exact<short>(2, f);
	exact<signed char>(3, f);
	exact<unsigned char>(4, f);
	exact<unsigned short>(5, f);
	exact<unsigned>(8, f);
	exact<long long>(9, f);
	exact<float>(6, f);
	exact<double>(7, f);
	shard("float");
	real<float>(10, f);
	shard("double");
	real<double>(11, f);
	shard("const");
	constants<float>();
	constants<double>();
	constants<long double>();
	done();
	return 0;
}
