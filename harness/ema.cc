// EMA, EMACascade
#include "parts.hh"
#include "ema.hh"
using namespace H;

static int objects = 0;
template <typename T, typename V>
struct Any
{
	virtual void cutoff(int n, int N) = 0;
	virtual void samples(int s) = 0;
	virtual T in(T x) = 0;
	virtual ~Any() {}
};
template <typename T, typename V>
struct Single : public Any<T, V>
{
	Obj<DSP::EMA<T, V>> o;
	template <typename... A> Single(A &&... a) : o(std::forward<A>(a)...) {}
	void cutoff(int n, int N) override { o->cutoff(n, N); }
	void samples(int s) override { o->samples(s); }
	T in(T x) override { return (*o)(x); }
};
template <typename T, typename V, int M>
struct Cascade : public Any<T, V>
{
	Obj<DSP::EMACascade<T, V, M>> o;
	void cutoff(int n, int N) override { o->cutoff(n, N); }
	void samples(int) override { exit(79); }
	T in(T x) override { return (*o)(x); }
};
template <typename T, typename V>
struct Run
{
	typedef Parts<T> P;
	int id, order;
	std::unique_ptr<Any<T, V>> o;
	Run(Any<T, V> *a, int m, T start, V alpha) : id(objects + 1), order(m), o(a)
	{
		for (int i = 0; i < P::n; ++i)
			Ev("new").i("o", ++objects).i("p", std::numeric_limits<V>::digits).i("m", m).f("start", P::get(start, i)).f("alpha", alpha);
	}
	void cutoff(int n, int N)
	{
		o->cutoff(n, N);
		for (int i = 0; i < P::n; ++i)
			Ev("cutoff").i("o", id + i).i("n", n).i("N", N);
	}
	void samples(int s)
	{
		o->samples(s);
		for (int i = 0; i < P::n; ++i)
			Ev("samples").i("o", id + i).i("s", s);
	}
	void in(const std::vector<T> &x)
	{
		std::vector<T> r;
		for (T v : x)
			r.push_back(o->in(v));
		parts_in(id, x, r);
	}
};
template <typename T, typename V>
void change(Run<T, V> &a, Rng &r, bool one)
{
	int w = r.below(one ? 5 : 3);
	// each of the averages is to have its cutoff in the lower half of the rate
	double part = std::sqrt(std::pow(2., 1. / a.order) - 1) / (a.order == 1 ? 2 : 2.0001);
	if (w == 0) {
		int N = r.range(2, 40), scale = r.below(2) ? r.range(33000, 5000000) : 1;
		a.cutoff(r.range(0, int(N * part)) * scale, N * scale);
	} else if (w == 1) {
		int N = r.range(100, 50000);
		a.cutoff(r.range(1, std::min(2000, int(N * part))), N);
	} else if (w == 2) {
		static const int rates[] = {8000, 44100, 48000};
		int N = rates[r.below(3)];
		a.cutoff(r.range(1, std::min(2000, int(N * part))), N);
	} else if (w == 3) {
		a.samples(r.range(1, 20));
	} else {
		a.samples(r.range(1, 100000));
	}
}
template <typename T, typename V>
void history(Run<T, V> &a, Rng &r, int n, bool one)
{
	a.in(signal<T>(r, 5));
	for (int i = 0; i < n; ++i) {
		change(a, r, one);
		a.in(signal<T>(r, r.range(1, 25)));
	}
}
template <typename T, typename V>
void singles(int salt, int f)
{
	Rng r(salt);
	typedef Parts<T> P;
	for (int i = 0; i < 3 * f; ++i) {
		{
			Run<T, V> a(new Single<T, V>(), 1, T(0), V(1));
			history(a, r, 6, true);
		}
		{
			T start = P::make(r.real(-2, 2), r.real(-2, 2));
			Run<T, V> a(new Single<T, V>(start), 1, start, V(1));
			history(a, r, 4, true);
		}
		{
			T start = P::make(r.range(-2, 2), r.range(-2, 2));
			V alpha = V(r.below(4) ? r.unit() : r.range(0, 4) / 4.);
			Run<T, V> a(new Single<T, V>(start, alpha), 1, start, alpha);
			history(a, r, 4, true);
		}
	}
	// each way to set it, from the start
	for (int i = 0; i < 20 * f; ++i) {
		Run<T, V> a(new Single<T, V>(), 1, T(0), V(1));
		change(a, r, true);
		a.in(signal<T>(r, 4));
	}
	for (int s : {1, 2, 3, 7, 10, 255, 256, 32767, 32768, 65535, 65536, 1000000}) {
		Run<T, V> a(new Single<T, V>(), 1, T(0), V(1));
		a.samples(s);
		a.in(std::vector<T>(3, P::make(1, -1)));
	}
}
template <typename T, typename V, int M>
void cascade(Rng &r, int f)
{
	for (int i = 0; i < 2 * f; ++i) {
		Run<T, V> a(new Cascade<T, V, M>(), M, T(0), V(1));
		history(a, r, 3, false);
	}
	for (int i = 0; i < 5 * f; ++i) {
		Run<T, V> a(new Cascade<T, V, M>(), M, T(0), V(1));
		change(a, r, false);
		a.in(signal<T>(r, 4));
	}
}
template <typename T, typename V>
void cascades(int salt, int f)
{
	Rng r(salt);
	cascade<T, V, 1>(r, f);
	cascade<T, V, 2>(r, f);
	cascade<T, V, 3>(r, f);
	cascade<T, V, 4>(r, f);
	cascade<T, V, 5>(r, f);
	cascade<T, V, 6>(r, f);
	cascade<T, V, 7>(r, f);
	cascade<T, V, 8>(r, f);
	cascade<T, V, 9>(r, f);
	cascade<T, V, 10>(r, f);
	cascade<T, V, 11>(r, f);
	cascade<T, V, 12>(r, f);
	cascade<T, V, 13>(r, f);
	cascade<T, V, 14>(r, f);
	cascade<T, V, 15>(r, f);
	cascade<T, V, 16>(r, f);
}
// A long history, with few changes
template <typename T, typename V>
void lasts(Run<T, V> a, Rng r, bool one)
{
	a.cutoff(1, 12);
	for (int i = 0; i < lasting(); i += 100) {
		if (i % 30000 == 20000)
			change(a, r, one);
		a.in(signal<T>(r, 100));
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("single");
	singles<float, float>(1, f);
	singles<double, double>(2, f);
	singles<double, float>(3, f);
	shard("complex");
	singles<DSP::Complex<float>, float>(4, f);
	singles<DSP::Complex<double>, double>(5, f);
	shard("cascade");
	cascades<double, double>(6, f);
	shard("cascade2");
	cascades<float, float>(7, f);
	Rng r(8);
	cascade<DSP::Complex<double>, double, 3>(r, f);
	cascade<DSP::Complex<float>, float, 2>(r, f);
	shard("lasting");
	lasts<double, double>({new Single<double, double>(), 1, 0., 1.}, 9, true);
	shard("lasting2");
	lasts<float, float>({new Cascade<float, float, 2>(), 2, 0.f, 1.f}, 10, false);
	done();
	return 0;
}
