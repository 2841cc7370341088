// ldexp, exp10, decibel, idecibel
#include "h.hh"
#include "decibel.hh"
using namespace H;

template <typename T> T opaque(T x) { volatile T v = x; return v; }
#ifdef VARIANT_fast
const bool strict = false;
#else
const bool strict = true;	// nothing is rearranged by the compiler
#endif
template <typename T> int prec() { return sizeof(T) == 4 ? 24 : 53; }
template <typename T>
struct Batch
{
	std::vector<T> x, r;
	std::vector<int> n;
	const char *e;
	int inner;
	Batch(const char *e, int inner = -1) : e(e), inner(inner) {}
	~Batch() { flush(); }
	void flush()
	{
		if (x.empty())
			return;
		Ev ev(e);
		ev.i("p", prec<T>()).b("strict", strict).fs("x", x).fs("r", r);
		if (!n.empty())
			ev.is("n", n);
		if (inner >= 0)
			ev.b("inner", inner);
		x.clear();
		r.clear();
		n.clear();
	}
	void add(T a, T b)
	{
		x.push_back(a);
		r.push_back(b);
		if (x.size() >= 50)
			flush();
	}
	void add(T a, int k, T b)
	{
		n.push_back(k);
		add(a, b);
	}
};
template <typename T>
void all(int salt, int f)
{
	Rng r(salt);
	const int top = sizeof(T) == 4 ? 127 : 1023;
	const double tens = sizeof(T) == 4 ? 37.9 : 307.6;
	{
		Batch<T> b("ldexp");
		// every power, and one at random, with results which are normal numbers
		for (int n = -top + 1; n <= top; ++n)
			for (int k = 0; k < 3; ++k) {
				int lo = std::max(-top + 1, -top + 1 - n), hi = std::min(top - 1, top - 1 - n);
				int e = k == 0 && lo <= 0 && hi >= 0 ? 0 : r.range(lo, hi);
				T x = std::ldexp(T(k == 0 ? 1. : r.real(1, 2)), e);
				if (k && r.below(2))
					x = -x;
				b.add(x, n, DSP::ldexp(opaque(x), n));
			}
		b.add(T(0), 5, DSP::ldexp(opaque(T(0)), 5));
		b.add(T(0), -5, DSP::ldexp(opaque(T(0)), -5));
	}
	{
		Batch<T> b("exp10");
		for (int n = -int(tens); n <= int(tens); ++n)
			b.add(T(n), DSP::exp10(opaque(T(n))));
		for (int n = -40 * 2; n <= 40 * 2; ++n) {
			// where the nearest power of two changes
			T x = T((n + .5) * 0.30102999566398119521);
			if (std::fabs(x) < tens)
				for (T y : {x, std::nextafter(x, T(-1000)), std::nextafter(x, T(1000))})
					b.add(y, DSP::exp10(opaque(y)));
		}
		for (int i = 0; i < 500 * f; ++i) {
			T x = T(i % 4 == 0 ? r.real(-1, 1) : i % 4 == 1 ? std::ldexp(r.real(-1, 1), -r.below(30)) : r.real(-tens, tens));
			b.add(x, DSP::exp10(opaque(x)));
		}
	}
	{
		Batch<T> b("idecibel");
		for (int n = -200; n <= 200; ++n)
			b.add(T(n), DSP::idecibel(opaque(T(n))));
		for (int i = 0; i < 400 * f; ++i) {
			T x = T(i % 2 ? r.real(-10 * tens, 10 * tens) : r.real(-30, 30));
			b.add(x, DSP::idecibel(opaque(x)));
		}
	}
	{
		Batch<T> b("decibel", 1);
		for (int n = -37; n <= 37; ++n) {
			T x = T(std::pow(10., n));
			b.add(x, DSP::decibel(opaque(x)));
		}
		for (int n = -125; n <= 126; ++n) {
			T x = std::ldexp(T(1), n);
			b.add(x, DSP::decibel(opaque(x)));
		}
		for (int i = 0; i < 500 * f; ++i) {
			T x = T(i % 3 == 0 ? r.real(0, 1) + 1e-9 : i % 3 == 1 ? 1 + std::ldexp(r.real(-1, 1), -1 - r.below(25)) : std::pow(10., r.real(-37.9, 38)));
			b.add(x, DSP::decibel(opaque(x)));
		}
	}
	if (sizeof(T) == 8) {
		Batch<T> b("decibel", 0);
		for (int i = 0; i < 300 * f; ++i) {
			T x = T(std::pow(10., r.real(-tens, tens)));
			b.add(x, DSP::decibel(opaque(x)));
		}
		for (T x : {T(2.3e-308), T(1.7e308), T(1e-300), T(1e300)})
			b.add(x, DSP::decibel(opaque(x)));
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, f);
	shard("double");
	all<double>(2, f);
	done();
	return 0;
}
