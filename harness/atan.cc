// atan and atan2
#include "h.hh"
#include "atan2.hh"
using namespace H;

#ifdef VARIANT_fast
static const bool honoured = false;
#else
static const bool honoured = true;
#endif
template <typename T> T opaque(T x) { volatile T v = x; return v; }
template <typename T>
void one(const std::vector<T> &x)
{
	std::vector<T> r, m;
	for (T v : x) {
		r.push_back(DSP::atan(opaque(v)));
		m.push_back(DSP::atan(opaque(T(-v))));
	}
	Ev("atan").i("p", sizeof(T) == 4 ? 24 : 53).fs("x", x).fs("r", r).fs("m", m);
}
template <typename T>
void two(const std::vector<T> &y, const std::vector<T> &x)
{
	std::vector<T> r;
	std::vector<int> neg;
	for (size_t i = 0; i < x.size(); ++i) {
		r.push_back(DSP::atan2(opaque(y[i]), opaque(x[i])));
		neg.push_back(std::signbit(y[i]) ? 1 : 0);
	}
	Ev("atan2").i("p", sizeof(T) == 4 ? 24 : 53).fs("y", y).fs("x", x).fs("r", r).is("neg", neg).b("signed", honoured);
}
template <typename T>
std::vector<T> special()
{
	std::vector<T> v;
	for (double d : {0., .25, .41421356237309504880, .5, .66, .660001, .659999, .75, .99, 1., 1.01, 1.5, 2., 2.4142, 2.41421356237309504880, 2.4143, 3., 10., 1000., 1e6, 1e9, 1e20, 1e30})
		for (int s : {1, -1}) {
			T x = T(d * s);
			v.push_back(x);
			if (d > 0) {
				v.push_back(std::nextafter(x, T(0)));
				v.push_back(std::nextafter(x, T(1e35)));
				v.push_back(T(1) / x);
			}
		}
	return v;
}
template <typename T>
void all(int salt, int f)
{
	Rng r(salt);
	std::vector<T> s = special<T>();
	one<T>(s);
	for (int i = 0; i < 12 * f; ++i) {
		std::vector<T> x;
		for (int j = 0; j < 50; ++j)
			x.push_back(T(j % 5 == 0 ? std::ldexp(r.real(1, 2), r.range(-40, 100)) : j % 5 == 1 ? r.real(0, 5) : j % 5 == 2 ? 1 / r.real(0.01, 3) : j % 5 == 3 ? r.real(.6, .7) : r.real(2.3, 2.5)));
		one<T>(x);
	}
	std::vector<T> x, y;
	for (T a : {T(0), -T(0), T(1), T(-1), T(1e-30), T(-1e-30), T(3e30), T(-3e30), T(.5), T(-7)})
		for (T b : {T(0), T(1), T(-1), T(2e-30), T(-1e-30), T(5e30), T(-1e30), T(.25), T(-3)}) {
			y.push_back(a);
			x.push_back(b);
		}
	two<T>(y, x);
	x.clear();
	y.clear();
	for (int q = 0; q < 4; ++q)
		for (T v : s)
			if (v > 0 && v < 1e6) {
				T m = T(r.real(.1, 10));
				T a = v * m;
				y.push_back(q & 1 ? -a : a);
				x.push_back(q & 2 ? -m : m);
			}
	two<T>(y, x);
	// quotients nobody can represent
	x.clear();
	y.clear();
	for (int i = 0; i < 32; ++i) {
		int e = std::numeric_limits<T>::max_exponent - 2;
		T a = T(std::ldexp(r.real(1, 2), r.range(-e, 2 - e))), b = T(std::ldexp(r.real(1, 2), r.range(8, e)));
		y.push_back((i & 1 ? -1 : 1) * (i & 4 ? a : b));
		x.push_back((i & 2 ? -1 : 1) * (i & 4 ? b : a));
	}
	two<T>(y, x);
	// both of them as large or as small as can be
	x.clear();
	y.clear();
	for (int i = 0; i < 48; ++i) {
		int top = std::numeric_limits<T>::max_exponent - 1, low = std::numeric_limits<T>::min_exponent - 1;
		int e = i & 4 ? top : i & 8 && honoured ? r.range(low - 8, low - 1) : low + 12;
		y.push_back(T(std::ldexp(r.real(1, 2) * (i & 1 ? -1 : 1), e - (i & 4 ? r.below(12) : 0))));
		x.push_back(T(std::ldexp(r.real(1, 2) * (i & 2 ? -1 : 1), e - (i & 4 ? 0 : honoured ? 0 : r.below(12)))));
	}
	two<T>(y, x);
	for (int i = 0; i < 16 * f; ++i) {
		x.clear();
		y.clear();
		int e = r.range(-40, 40);
		for (int j = 0; j < 50; ++j) {
			x.push_back(T(std::ldexp(r.real(-1, 1), j % 3 ? e : r.range(-30, 30))));
			y.push_back(T(std::ldexp(r.real(-1, 1), j % 3 ? e : r.range(-30, 30))));
			if (j % 10 == 9)
				y.back() = std::nextafter(x.back(), T(0));
			if (j % 10 == 8)
				y.back() = -x.back();
		}
		two<T>(y, x);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, f);
	shard("double");
	all<double>(2, f);
	done();
	return 0;
}
