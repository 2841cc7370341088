// SMA1 to SMA4; built once for real and once for complex samples
#include "h.hh"
#ifdef COMPLEX
#include "complex.hh"
#endif
#include "sma.hh"
using namespace H;

static int next_id = 0;
template <typename T> struct Prec { static const int p = 0; };
template <> struct Prec<float> { static const int p = 24; };
template <> struct Prec<double> { static const int p = 53; };

template <typename T> void put(Ev &e, const char *k, const std::vector<T> &v) { e.is(k, v); }
void put(Ev &e, const char *k, const std::vector<float> &v) { e.fs(k, v); }
void put(Ev &e, const char *k, const std::vector<double> &v) { e.fs(k, v); }
template <typename T> void put1(Ev &e, const char *k, T v) { e.i(k, v); }
void put1(Ev &e, const char *k, float v) { e.f(k, v); }
void put1(Ev &e, const char *k, double v) { e.f(k, v); }

void created(int o, int n, bool norm, int p, const char *rule)
{
	Ev("new").i("o", o).i("n", n).b("norm", norm).i("p", p).str("rule", rule);
}
template <typename S, typename = void> struct Abs { template <typename E> static void dev(S &, int) {} };

template <typename T, typename V, int N> struct Kind1 { typedef DSP::SMA1<T, V, N> S; static const bool norm = true, dev = true; };
template <typename T, typename V, int N, bool M> struct Kind2 { typedef DSP::SMA2<T, V, N, M> S; static const bool norm = M, dev = false; };
template <typename T, typename V, int N, bool M> struct Kind3 { typedef DSP::SMA3<T, V, N, M> S; static const bool norm = M, dev = false; };
template <typename T, typename V, int N, bool M> struct Kind4 { typedef DSP::SMA4<T, V, N, M> S; static const bool norm = M, dev = false; };

#ifndef COMPLEX
template <typename T, typename K, int N>
struct Run
{
	Obj<typename K::S> s;
	int o;
	Run(const char *rule) : o(++next_id)
	{
		created(o, N, K::norm, Prec<T>::p, rule);
	}
	void dev()
	{
		if constexpr (K::dev) {
			Ev e("dev");
			e.i("o", o);
			put1(e, "r", s->abs_dev());
		}
	}
	void block(const std::vector<T> &in, int times = 0)
	{
		std::vector<T> out;
		for (int i = 1; i < times; ++i)
			for (T x : in)
				(*s)(x);
		for (T x : in)
			out.push_back((*s)(x));
		{
			Ev e(times ? "bulk" : "block");
			e.i("o", o);
			put(e, "in", in);
			put(e, "out", out);
		}
		dev();
	}
};
template <typename T> T sample(Rng &r, int grid, int top)
{
	if (grid < 0 && r.below(8) == 0)
		return T(r.range(-2, 2)) / 2;
	if (grid < 0)
		return std::ldexp(T(r.real(-1, 1)), r.below(2) ? r.range(-20, 20) : r.range(-60, 40));
	return T(r.range(-top, top)) / T(1 << grid);
}
template <typename T, int N>
void history(int salt, int grid, int top, const char *r1, const char *r2, const char *r3, const char *r4, int blocks)
{
	Rng r(salt);
	Run<T, Kind1<T, T, N>, N> a(r1);
	Run<T, Kind2<T, T, N, true>, N> b(r2);
	Run<T, Kind2<T, T, N, false>, N> c(r2);
	Run<T, Kind3<T, T, N, true>, N> d(r3);
	Run<T, Kind3<T, T, N, false>, N> e(r3);
	Run<T, Kind4<T, T, N, true>, N> f(r4);
	Run<T, Kind4<T, T, N, false>, N> g(r4);
	a.dev();
	for (int i = 0; i < blocks; ++i) {
		std::vector<T> in(r.range(1, min(N + 3, 40)));
		for (T &x : in)
			x = sample<T>(r, grid, r.below(3) ? top : top / 10 + 1);
		if (r.below(5) == 0)
			std::fill(in.begin(), in.end(), sample<T>(r, grid, top));
		a.block(in);
		if (*r2)
			b.block(in), c.block(in);
		if (*r3)
			d.block(in), e.block(in);
		f.block(in);
		g.block(in);
	}
}
template <typename T, int N>
void lengthy(int salt, int grid, int top, int times)
{
	Rng r(salt);
	Run<T, Kind1<T, T, N>, N> a("each");
	Run<T, Kind3<T, T, N, true>, N> d("top");
	Run<T, Kind3<T, T, N, false>, N> e("top");
	Run<T, Kind4<T, T, N, true>, N> f("each");
	for (int i = 0; i < 5; ++i) {
		std::vector<T> in(r.range(N, N + 20));
		for (T &x : in)
			x = sample<T>(r, grid, i % 2 ? top : top / 100 + 1);
		if (i == 0)
			a.block(in, 5);
		d.block(in, times);
		e.block(in, times);
		f.block(in, 10);
		in.resize(10);
		d.block(in);
		e.block(in);
	}
}
void any_length(Stepper &&x, int N, bool norm, int f)
{
	Rng r(15);
	int o = ++next_id;
	created(o, N, norm, 0, "int");
	for (int i = 0; i < 4 * f; ++i) {
		std::vector<int> in(i == 0 ? max(1, min(N - 1, 100)) : i < 3 ? 2 : r.range(1, min(N, 10))), out;
		for (int &v : in)
			out.push_back(x.step(v = r.range(-1000000, 1000000)));
		Ev("block").i("o", o).is("in", in).is("out", out);
	}
}
// samples which fill the precision, so that their differences do not fit, in an order in which the
// roundings of the differences would all go into one direction
template <typename T, int N>
void wide(int salt, int times)
{
	Rng r(salt);
	Run<T, Kind3<T, T, N, true>, N> d("top");
	Run<T, Kind3<T, T, N, false>, N> e("top");
	const long long top = (1LL << Prec<T>::p) - 1 - 2 * N;
	for (int i = 0; i < 6; ++i) {
		long long a = top - 2 * r.range(0, 1000), b = top - 2 * r.range(0, 1000) - 1;
		if ((a + b) % 4 != (i & 2) + 1)
			b -= 2;
		if (i & 1)
			a = -a, b = -b;
		std::vector<T> in;
		for (T x : {T(a), T(0), T(-b)})
			for (int k = 0; k < N; ++k)
				in.push_back(std::ldexp(x, -20));
		d.block(in, times);
		e.block(in, times);
		in.resize(N);
		for (T &x : in)
			x = std::ldexp(T(r.range(-1000, 1000)), -20);
		d.block(in);
		e.block(in);
	}
}
// sums which are exact, for long
template <typename T, int N>
void patient(int salt, const char *rule)
{
	Rng r(salt);
	Run<T, Kind1<T, T, N>, N> a(rule);
	Run<T, Kind2<T, T, N, true>, N> b(rule);
	Run<T, Kind2<T, T, N, false>, N> c(rule);
	Run<T, Kind4<T, T, N, true>, N> d(rule);
	Run<T, Kind4<T, T, N, false>, N> e(rule);
	for (int i = 0; i < 6; ++i) {
		std::vector<T> in(r.range(N, N + 5));
		for (T &x : in)
			x = T(r.range(-1000, 1000));
		int times = i & 1 ? 0 : lasting() / 20;
		a.block(in, times);
		b.block(in, times);
		c.block(in, times);
		d.block(in, times);
		e.block(in, times);
	}
}
template <int N> void ints(int salt, int f) { history<int, N>(salt, 0, 1000000, "int", "int", "int", "int", 8 * f); }
#ifdef LENGTHS
int main()
{
	int f = thorough() ? 10 : 1;
	shard("lengths");
	lengths([&](auto n) {
		constexpr int N = decltype(n)::value;
		any_length(Step<DSP::SMA1<int, int, N>>(), N, true, f);
		any_length(Step<DSP::SMA2<int, int, N>>(), N, true, f);
		any_length(Step<DSP::SMA3<int, int, N, false>>(), N, false, f);
		any_length(Step<DSP::SMA4<int, int, N>>(), N, true, f);
	});
	done();
	return 0;
}
#else
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("sma")) {
		Run<int, Kind1<int, int, 2>, 2> a("int");
		Run<int, Kind2<int, int, 2, true>, 2> b("int");
		Run<int, Kind3<int, int, 2, false>, 2> c("int");
		Run<int, Kind4<int, int, 2, false>, 2> d("int");
		Run<float, Kind3<float, float, 2, true>, 2> e("top");
		std::vector<int> v;
		std::vector<float> w;
		for (auto &c : s) {
			v.push_back(c.second);
			w.push_back(c.second);
		}
		a.block(v);
		b.block(v);
		c.block(v);
		d.block(v);
		e.block(w);
	}
	shard("int");
	ints<1>(1, f);
	ints<2>(2, f);
	ints<3>(3, f);
	ints<4>(4, f);
	ints<5>(5, f);
	ints<7>(6, f);
	ints<8>(7, f);
	ints<10>(8, f);
	ints<33>(9, f);
	ints<128>(10, f);
	ints<257>(11, f);
	ints<1000>(12, f);
	history<long long, 6>(13, 0, 100000000, "int", "int", "int", "int", 8 * f);
	history<short, 6>(14, 0, 1000, "int", "int", "int", "int", 8 * f);
	shard("float");
	history<float, 1>(20, 20, 1000000, "each", "", "top", "each", 10 * f);
	history<float, 2>(21, 20, 1000000, "each", "", "top", "each", 10 * f);
	history<float, 3>(22, 20, 1000000, "each", "", "top", "each", 10 * f);
	history<float, 7>(23, 20, 1000000, "each", "", "top", "each", 10 * f);
	history<float, 50>(24, 20, 1000000, "each", "", "top", "each", 10 * f);
	history<float, 300>(25, 20, 1000000, "each", "", "top", "each", 10 * f);
	history<float, 5>(26, 8, 1000, "exact", "exact", "exact", "exact", 10 * f);
	history<float, 64>(27, 8, 1000, "exact", "exact", "exact", "exact", 10 * f);
	history<float, 6>(28, -1, 0, "each", "", "", "each", 10 * f);
	history<float, 37>(29, -1, 0, "each", "", "", "each", 10 * f);
	shard("double");
	history<double, 1>(30, 28, 1000000000, "each", "", "top", "each", 10 * f);
	history<double, 4>(31, 28, 1000000000, "each", "", "top", "each", 10 * f);
	history<double, 77>(32, 28, 1000000000, "each", "", "top", "each", 10 * f);
	history<double, 5>(33, 8, 1000, "exact", "exact", "exact", "exact", 10 * f);
	history<double, 64>(34, 8, 1000, "exact", "exact", "exact", "exact", 10 * f);
	history<double, 37>(35, -1, 0, "each", "", "", "each", 10 * f);
	shard("long");
	lengthy<float, 10>(40, 20, 1000000, 3000 * f);
	patient<int, 6>(43, "int");
	wide<float, 3>(46, lasting() / 9);
	wide<float, 8>(47, lasting() / 24);
	wide<double, 5>(48, lasting() / 15);
	patient<float, 10>(44, "exact");
	patient<double, 9>(45, "exact");
	lengthy<float, 100>(41, 20, 1000000, 3000 * f);
	shard("longer");
	lengthy<float, 400>(42, 20, 1000000, 500 * f);
	done();
	return 0;
}
#endif
#else
template <typename T, typename K, int N>
struct Run
{
	typedef DSP::Complex<T> C;
	Obj<typename K::S> s;
	int o;
	Run(const char *rule) : o(next_id += 2)
	{
		created(o, N, K::norm, Prec<T>::p, rule);
		created(o + 1, N, K::norm, Prec<T>::p, rule);
	}
	void block(Rng &r, int n, int grid, int top)
	{
		std::vector<T> in[2], out[2];
		for (int i = 0; i < n; ++i) {
			T re = T(r.range(-top, top)) / T(1 << grid), im = T(r.range(-top, top)) / T(1 << grid);
			in[0].push_back(re);
			in[1].push_back(im);
			C y = (*s)(C(re, im));
			out[0].push_back(y.real());
			out[1].push_back(y.imag());
		}
		for (int j = 0; j < 2; ++j)
			Ev("block").i("o", o + j).fs("in", in[j]).fs("out", out[j]);
		if constexpr (K::dev)
			Ev("cdev").i("o", o).i("o2", o + 1).f("r", s->abs_dev());
	}
};
template <typename T, int N>
void history(int salt, int f)
{
	typedef DSP::Complex<T> C;
	Rng r(salt);
	Run<T, Kind1<C, T, N>, N> a("each");
	Run<T, Kind2<C, T, N, true>, N> b("exact");
	Run<T, Kind2<C, T, N, false>, N> c("exact");
	Run<T, Kind4<C, T, N, true>, N> d("each");
	Run<T, Kind4<C, T, N, false>, N> e("each");
	for (int i = 0; i < 10 * f; ++i) {
		int n = r.range(1, min(N + 3, 30));
		a.block(r, n, 20, 1000000);
		b.block(r, n, 8, 1000);
		c.block(r, n, 8, 1000);
		d.block(r, n, 20, 1000000);
		e.block(r, n, 20, 1000000);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("complex");
	history<float, 1>(50, f);
	history<float, 3>(51, f);
	history<float, 8>(52, f);
	history<float, 60>(53, f);
	history<double, 1>(54, f);
	history<double, 2>(55, f);
	history<double, 11>(56, f);
	done();
	return 0;
}
#endif
