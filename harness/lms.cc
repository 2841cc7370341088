// NLMS, NCLMS
#include "parts.hh"
#include "lms.hh"
using namespace H;

// the numbers are used again for the objects of the next history
static int objects = 0;
template <typename T> struct Value { typedef T type; };
template <typename T> struct Value<DSP::Complex<T>> { typedef T type; };
template <typename T, int N> struct Filter { typedef DSP::NLMS<T, N> type; };
template <typename T, int N> struct Filter<DSP::Complex<T>, N> { typedef DSP::NCLMS<DSP::Complex<T>, N> type; };

template <typename T, int N>
struct Run
{
	typedef typename Filter<T, N>::type F;
	typedef typename Value<T>::type R;
	Obj<F> o;
	int id;
	void coeffs(Ev &e)
	{
		const T *f = *o;
		for (int p = 0; p < Parts<T>::n; ++p) {
			std::vector<R> v;
			for (int i = 0; i < N; ++i)
				v.push_back(Parts<T>::get(f[i], p));
			e.fs(p ? "g" : "f", v);
		}
	}
	static void put(Ev &e, const char *k, T v)
	{
		std::vector<R> w;
		for (int p = 0; p < Parts<T>::n; ++p)
			w.push_back(Parts<T>::get(v, p));
		e.fs(k, w);
	}
	Run() : id(++objects)
	{
		Ev e("new");
		e.i("o", id).i("n", N).i("p", std::numeric_limits<R>::digits);
		coeffs(e);
	}
	Run(Run &a) : o(*a.o), id(++objects)
	{
		Ev("copy").i("o", a.id).i("to", id);
	}
	void step(T x, T d, bool given, R mu)
	{
		T r = given ? (*o)(x, d, mu) : (*o)(x, d);
		Ev e("step");
		e.i("o", id);
		put(e, "x", x);
		put(e, "d", d);
		if (given)
			e.f("mu", mu);
		put(e, "r", r);
		coeffs(e);
	}
};
template <typename T, int N>
void history(Rng &r, int n)
{
	typedef typename Value<T>::type R;
	objects = 0;
	Run<T, N> a;
	std::unique_ptr<Run<T, N>> b;
	T w[N], h[N];
	for (int i = 0; i < N; ++i) {
		w[i] = Parts<T>::make(r.real(-1, 1), r.real(-1, 1));
		h[i] = Parts<T>::make(0, 0);
	}
	int kind = r.below(4), zeros = r.below(2) ? r.below(N + 3) : 0, mode = r.below(4), copied = r.below(n);
	double level = std::ldexp(1, r.below(3) ? r.range(-6, 6) : r.range(-12, 40)), mu = r.real(0, 2);
	for (int k = 0; k < n; ++k) {
		T x = Parts<T>::make(r.real(-1, 1) * level, r.real(-1, 1) * level);
		if (kind == 1)
			x = Parts<T>::make(r.range(-2, 2), r.range(-2, 2));
		if (kind == 2)
			x = Parts<T>::make(std::cos(.7 * k), std::sin(.7 * k));
		// nothing at first, or long enough for all of it to be forgotten
		if (r.below(3 * N + 10) == 0)
			zeros = r.range(1, N + 2);
		if (zeros > 0) {
			--zeros;
			x = Parts<T>::make(0, 0);
		}
		for (int i = 0; i < N - 1; ++i)
			h[i] = h[i+1];
		h[N-1] = x;
		// of some other filter, with and without noise, or anything
		T d = Parts<T>::make(0, 0);
		for (int i = 0; i < N; ++i)
			d += w[i] * h[i];
		if (kind == 3 || r.below(8) == 0)
			d += Parts<T>::make(r.real(-3, 3), r.real(-3, 3));
		if (mode == 1 || r.below(10) == 0)
			mu = r.below(3) ? r.real(0, 2) : r.below(5) / 2.;
		a.step(x, d, mode > 0, R(mu));
		if (k == copied)
			b.reset(new Run<T, N>(a));
		if (b && r.below(2))
			b->step(r.below(2) ? x : d, r.below(2) ? d : x, true, R(r.real(0, 1)));
	}
}
template <typename T, int... N>
void sizes(Rng &r, int f, int n, std::integer_sequence<int, N...>)
{
	for (int i = 0; i < f; ++i) {
		int t[] = {(history<T, N>(r, n + N / 2), 0)...};
		(void)t;
	}
}
template <typename T>
void all(int salt, int f)
{
	Rng r(salt);
	for (auto &s : scripts("lms")) {
		objects = 0;
		Run<T, 2> a;
		for (auto &c : s) {
			if (c.first != "step")
				exit(79);
			int v = c.second;
			auto digit = [&] { int d = v % 16 - 8; v /= 16; return d; };
			int xr = digit(), xi = digit(), dr = digit(), di = digit();
			a.step(Parts<T>::make(xr, xi), Parts<T>::make(dr, di), true, typename Value<T>::type(v) / 2);
		}
	}
	sizes<T>(r, 2 * f, 40, std::integer_sequence<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17>());
	sizes<T>(r, f, 12, std::integer_sequence<int, 31, 32, 50, 64, 100>());
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, f);
	shard("double");
	all<double>(2, f);
	shard("cfloat");
	all<DSP::Complex<float>>(3, f);
	shard("cdouble");
	all<DSP::Complex<double>>(4, f);
	done();
	return 0;
}
