// Real and complex samples alike: the two parts of complex ones are recorded as two objects
#pragma once
#include "h.hh"
#include "complex.hh"

namespace H {

template <typename T> struct Parts
{
	static const int n = 1;
	static T get(T v, int) { return v; }
	static T make(double a, double) { return T(a); }
};
template <typename T> struct Parts<DSP::Complex<T>>
{
	static const int n = 2;
	static T get(DSP::Complex<T> v, int i) { return i ? v.imag() : v.real(); }
	static DSP::Complex<T> make(double a, double b) { return DSP::Complex<T>(T(a), T(b)); }
};
template <typename T>
std::vector<T> signal(Rng &r, int n)
{
	std::vector<T> x;
	int kind = r.below(7), e = r.range(-40, 40);
	for (int i = 0; i < n; ++i) {
		double a = 0, b = 0;
		if (kind == 0)
			a = i == 0;
		if (kind == 1)
			a = 1, b = -2;
		if (kind == 2)
			a = r.real(-1, 1), b = r.real(-1, 1);
		if (kind == 3)
			a = r.real(-1000, 1000), b = std::ldexp(r.real(-1, 1), r.range(-20, 20));
		if (kind == 4)
			a = i & 1 ? -1 : 1, b = i & 2 ? 5 : 4;
		if (kind == 5)
			a = r.range(-3, 3) / 2., b = r.range(-1, 1);
		if (kind == 6)
			a = std::ldexp(r.real(-1, 1), e), b = std::ldexp(r.real(-1, 1), -e);
		x.push_back(Parts<T>::make(a, b));
	}
	return x;
}

// One event for each part
template <typename T>
void parts_in(int id, const std::vector<T> &x, const std::vector<T> &r)
{
	typedef Parts<T> P;
	for (int i = 0; i < P::n; ++i) {
		std::vector<decltype(P::get(x[0], 0))> a, b;
		for (size_t k = 0; k < x.size(); ++k) {
			a.push_back(P::get(x[k], i));
			b.push_back(P::get(r[k], i));
		}
		Ev("in").i("o", id + i).fs("x", a).fs("r", b);
	}
}

}
