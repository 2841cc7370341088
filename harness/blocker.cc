// BlockDC, NormalizeSine, NormalizeIQ
#include "parts.hh"
#include "normalize.hh"
using namespace H;

static int objects = 0;
template <typename T> struct Value { typedef T type; };
template <typename T> struct Value<DSP::Complex<T>> { typedef T type; };
template <typename T, typename M, bool NORM>
struct Run
{
	typedef Parts<T> P;
	int id;
	Obj<M> o;
	Run() : id(objects + 1)
	{
		for (int i = 0; i < P::n; ++i)
			Ev("new").i("o", ++objects).i("p", std::numeric_limits<typename Value<T>::type>::digits).b("norm", NORM);
	}
	void samples(int s)
	{
		o->samples(s);
		for (int i = 0; i < P::n; ++i)
			Ev("samples").i("o", id + i).i("s", s);
	}
	void in(const std::vector<T> &x)
	{
		std::vector<T> r;
		for (T v : x)
			r.push_back((*o)(v));
		parts_in(id, x, r);
	}
	// without looking at the results but the last; x are not larger than top
	void skip(const std::vector<T> &x, double top)
	{
		T y(0);
		for (T v : x)
			y = (*o)(v);
		for (int i = 0; i < P::n; ++i)
			Ev("skip").i("o", id + i).f("x", P::get(x.back(), i)).f("r", P::get(y, i)).f("top", top);
	}
	void constant(T x, int n)
	{
		T r(0);
		for (int i = 0; i < n; ++i)
			r = (*o)(x);
		for (int i = 0; i < P::n; ++i)
			Ev("constant").i("o", id + i).i("n", n).f("x", P::get(x, i)).f("r", P::get(r, i));
	}
};
template <typename T>
void blockers(int salt, int f)
{
	typedef typename Value<T>::type V;
	typedef Run<T, DSP::BlockDC<T, V>, false> B;
	typedef Parts<T> P;
	Rng r(salt);
	for (int i = 0; i < 6 * f; ++i) {
		B a;
		if (i % 2)
			a.in(signal<T>(r, 6));
		for (int j = 0; j < 4; ++j) {
			a.samples(r.below(2) ? r.range(1, 20) : r.range(1, 100000));
			a.in(signal<T>(r, r.range(1, 30)));
		}
	}
	for (int s : {1, 2, 3, 5, 100, 255, 256, 1000, 32768, 65536}) {
		B a;
		a.samples(s);
		std::vector<T> x(4, P::make(1, -3));
		x.push_back(P::make(0, 0));
		a.in(x);
		a.constant(P::make(1, 2), 10);
		a.constant(P::make(-3, 0), std::min(12 * s, 100000));
		a.in(signal<T>(r, 5));
	}
}
template <typename T>
std::vector<T> wave(Rng &r, int n, bool top = false)
{
	std::vector<T> x;
	double a = std::ldexp(r.real(.5, 1), top ? r.range(-2, 10) : r.below(2) ? r.range(-2, 10) : r.range(-16, 45)), b = r.real(-3, 3) * a, w = r.real(.05, 3), v = r.real(.05, 3);
	int kind = r.below(4);
	for (int i = 0; i < n; ++i) {
		double d = kind ? 0 : r.real(-.1, .1) * a;
		x.push_back(Parts<T>::make(a * std::cos(w * i) + b + d, kind == 2 ? r.real(-1, 1) : 2 * a * std::sin(v * i + 1) - b));
	}
	return x;
}
template <typename T, typename M>
void normalizers(int salt, int f)
{
	Rng r(salt);
	for (int i = 0; i < 8 * f; ++i) {
		Run<T, M, true> a;
		a.samples(r.range(2, 40));
		a.in(wave<T>(r, 60));
		if (i % 2) {
			a.in(wave<T>(r, 40));
			a.samples(r.range(2, 200));
			a.in(wave<T>(r, 40));
		}
	}
	for (int i = 0; i < 4 * f; ++i) {
		Run<T, M, true> a;
		a.samples(r.range(2, 10000));
		a.in(signal<T>(r, 20));
	}
}
// A long history
template <typename T, typename M, bool NORM>
void lasts(int salt)
{
	Rng r(salt);
	Run<T, M, NORM> a;
	a.samples(20);
	for (int i = 0; i < lasting(); i += 3000) {
		for (int k = 0; k < 6; ++k)
			a.in(NORM ? wave<T>(r, 100, true) : signal<T>(r, 100));
		a.skip(NORM ? wave<T>(r, 2400, true) : signal<T>(r, 2400), 5000);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("block");
	blockers<float>(1, f);
	blockers<double>(2, f);
	blockers<DSP::Complex<float>>(3, f);
	blockers<DSP::Complex<double>>(4, f);
	shard("sine");
	normalizers<float, DSP::NormalizeSine<float>>(5, f);
	normalizers<double, DSP::NormalizeSine<double>>(6, f);
	shard("iq");
	normalizers<DSP::Complex<float>, DSP::NormalizeIQ<DSP::Complex<float>>>(7, f);
	normalizers<DSP::Complex<double>, DSP::NormalizeIQ<DSP::Complex<double>>>(8, f);
	shard("lasting");
	lasts<double, DSP::BlockDC<double, double>, false>(9);
	lasts<float, DSP::NormalizeSine<float>, true>(10);
	done();
	return 0;
}
