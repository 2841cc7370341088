// Samples of different types made from and turned into small integers
#pragma once
#include "complex.hh"
template <typename T> struct Code
{
	static long long code(T v) { return v == T((long long)(v)) ? (long long)(v) : -987654; }
	static T make(int v) { return T(v); }
};
template <typename T> struct Code<DSP::Complex<T>>
{
	static long long code(DSP::Complex<T> v) { return v.imag() == -v.real() ? Code<T>::code(v.real()) : -987655; }
	static DSP::Complex<T> make(int v) { return DSP::Complex<T>(T(v), T(-v)); }
};
