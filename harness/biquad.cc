// Biquad, BiquadCascade
#include "parts.hh"
#include "biquad.hh"
using namespace H;

static int objects = 0;
template <typename T, typename V>
struct Any
{
	virtual void low(int n, int N) = 0;
	virtual void high(int n, int N) = 0;
	virtual void low(int, int, V) { exit(79); }
	virtual void high(int, int, V) { exit(79); }
	virtual void notch(int, int, V) { exit(79); }
	virtual void band(int, int, V) { exit(79); }
	virtual void allp(int, int, V) { exit(79); }
	virtual T in(T x) = 0;
	virtual ~Any() {}
};
template <typename T, typename V>
struct Single : public Any<T, V>
{
	Obj<DSP::Biquad<T, V>> o;
	void low(int n, int N) override { o->lowpass(n, N); }
	void high(int n, int N) override { o->highpass(n, N); }
	void low(int n, int N, V q) override { o->lowpass(n, N, q); }
	void high(int n, int N, V q) override { o->highpass(n, N, q); }
	void notch(int n, int N, V q) override { o->notch(n, N, q); }
	void band(int n, int N, V q) override { o->bandpass(n, N, q); }
	void allp(int n, int N, V q) override { o->allpass(n, N, q); }
	T in(T x) override { return (*o)(x); }
};
template <typename T, typename V, int M>
struct Cascade : public Any<T, V>
{
	Obj<DSP::BiquadCascade<T, V, M>> o;
	void low(int n, int N) override { o->lowpass(n, N); }
	void high(int n, int N) override { o->highpass(n, N); }
	T in(T x) override { return (*o)(x); }
};
template <typename T, typename V>
struct Run
{
	typedef Parts<T> P;
	int id;
	std::unique_ptr<Any<T, V>> o;
	Run(Any<T, V> *a, int m) : id(objects + 1), o(a)
	{
		for (int i = 0; i < P::n; ++i)
			Ev("new").i("o", ++objects).i("p", std::numeric_limits<V>::digits).i("m", m);
	}
	void plain(bool high, int n, int N)
	{
		if (high)
			o->high(n, N);
		else
			o->low(n, N);
		for (int i = 0; i < P::n; ++i)
			Ev("design").i("o", id + i).str("kind", high ? "high" : "low").i("n", n).i("N", N);
	}
	void design(int kind, int n, int N, V q)
	{
		static const char *names[] = {"low", "high", "notch", "band", "all"};
		switch (kind) {
		case 0: o->low(n, N, q); break;
		case 1: o->high(n, N, q); break;
		case 2: o->notch(n, N, q); break;
		case 3: o->band(n, N, q); break;
		case 4: o->allp(n, N, q); break;
		}
		for (int i = 0; i < P::n; ++i)
			Ev("design").i("o", id + i).str("kind", names[kind]).i("n", n).i("N", N).f("q", q).b("db", kind >= 2);
	}
	void in(const std::vector<T> &x)
	{
		std::vector<T> r;
		for (T v : x)
			r.push_back(o->in(v));
		parts_in(id, x, r);
	}
};
template <typename T, typename V>
void change(Run<T, V> &a, Rng &r)
{
	static const int rates[] = {8000, 44100, 48000, 192000, 2000000, 250000000};
	int N = r.below(2) ? r.range(3, 40) : r.below(2) ? rates[r.below(6)] : r.range(100, 30000);
	int n = r.range(1, (N - 1) / 2);
	int k = r.below(6);
	if (k == 5)
		a.plain(r.below(2), n, N);
	else if (k < 2)
		a.design(k, n, N, V(r.below(3) ? r.real(.3, 3) : r.below(2) ? r.real(.05, .5) : r.real(3, 200)));
	else
		a.design(k, n, N, V(r.below(4) ? r.below(3) ? r.real(-6, 20) : r.real(-25, 40) : r.range(-1, 3) * 3));
}
template <typename T, typename V>
void singles(int salt, int f)
{
	Rng r(salt);
	typedef Parts<T> P;
	for (int i = 0; i < 4 * f; ++i) {
		Run<T, V> a(new Single<T, V>(), 0);
		a.in(signal<T>(r, 6));
		for (int j = 0; j < 6; ++j) {
			change(a, r);
			a.in(signal<T>(r, r.range(1, 30)));
		}
	}
	// impulse responses of all designs
	for (int k = 0; k < 5; ++k)
		for (int i = 0; i < 3 * f; ++i) {
			Run<T, V> a(new Single<T, V>(), 0);
			int N = r.range(3, 50), n = r.range(1, (N - 1) / 2), scale = i % 3 == 2 ? 3000000 : i % 3 == 1 ? 40000 : 1;
			a.design(k, n * scale, N * scale, V(k < 2 ? std::ldexp(r.real(1, 2), r.range(-5, 6)) : r.below(2) ? r.real(-6, 20) : r.real(-25, 40)));
			std::vector<T> x(12, T(0));
			x[0] = P::make(1, 3);
			a.in(x);
		}
	for (int k = 0; k < 2; ++k)
		for (int N : {3, 4, 8, 9, 100, 32768, 65537, 1000000}) {
			Run<T, V> a(new Single<T, V>(), 0);
			a.plain(k, N < 10 ? 1 : N / 5, N);
			std::vector<T> x(6, T(0));
			x[0] = P::make(-2, 1);
			a.in(x);
		}
}
template <typename T, typename V, int M>
void cascade(Rng &r, int f)
{
	for (int i = 0; i < 4 * f; ++i) {
		Run<T, V> a(new Cascade<T, V, M>(), M);
		if (i % 4 == 3)
			a.in(signal<T>(r, 4));
		for (int j = 0; j < (i % 4 == 3 ? 3 : 1); ++j) {
			int N = r.range(10, 200), n = r.range((N + 9) / 10, 2 * N / 5), scale = i & 2 ? r.range(33000, 1000000) : 1;
			a.plain(i & 1, n * scale, N * scale);
			a.in(signal<T>(r, 20));
		}
	}
}
template <typename T, typename V>
void cascades(int salt, int f)
{
	Rng r(salt);
	cascade<T, V, 1>(r, f);
	cascade<T, V, 2>(r, f);
	cascade<T, V, 3>(r, f);
	cascade<T, V, 4>(r, f);
	cascade<T, V, 5>(r, f);
	cascade<T, V, 8>(r, f);
}
// A long history, with few changes
template <typename T, typename V>
void lasts(Run<T, V> a, Rng r, bool one)
{
	a.plain(false, 2, 13);
	for (int i = 0; i < lasting(); i += 100) {
		if (one && i % 30000 == 20000)
			change(a, r);
		a.in(signal<T>(r, 100));
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("single");
	singles<float, float>(1, f);
	singles<double, double>(2, f);
	shard("complex");
	singles<DSP::Complex<float>, float>(4, f);
	singles<DSP::Complex<double>, double>(5, f);
	shard("cascade");
	cascades<double, double>(6, f);
	cascades<float, float>(7, f);
	Rng r(8);
	cascade<DSP::Complex<double>, double, 3>(r, f);
	cascade<DSP::Complex<float>, float, 2>(r, f);
	shard("lasting");
	lasts<float, float>({new Single<float, float>(), 0}, 9, true);
	shard("lasting2");
	lasts<double, double>({new Cascade<double, double, 2>(), 2}, 10, false);
	done();
	return 0;
}
