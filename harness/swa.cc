// SWA: replays scripts generated from SwaTree.tla, and blocks of samples
#include "h.hh"
#include "code.hh"
#include "swa.hh"
using namespace H;

static int next_id = 0;
static int applied = 0, most = 0;

// bags of samples as sorted lists
typedef std::vector<int> Bag;
struct Union
{
	Bag operator()(const Bag &a, const Bag &b)
	{
		++applied;
		Bag r(a);
		r.insert(r.end(), b.begin(), b.end());
		return r;
	}
};
template <typename T> struct Sum { T operator()(T a, T b) { ++applied; return a + b; } };
template <typename T> struct Max { T operator()(T a, T b) { ++applied; return a < b ? b : a; } };
template <typename T> struct Min { T operator()(T a, T b) { ++applied; return a < b ? a : b; } };

template <int N>
struct Bags
{
	Obj<DSP::SWA<Bag, Union, N>> d;
	int o;
	Bags() : d(Bag()), o(++next_id)
	{
		Ev("new").i("o", o).i("n", N).str("op", "bag");
	}
	void in(int v)
	{
		applied = 0;
		Bag r = (*d)(Bag(1, v));
		Ev("bag").i("o", o).i("v", v).is("out", r).i("ops", applied);
	}
};
template <typename T, typename OP, int N>
struct Run
{
	Obj<DSP::SWA<T, OP, N>> d;
	int o;
	Run(const char *op, T ident) : d(ident), o(++next_id)
	{
		Ev("new").i("o", o).i("n", N).str("op", op);
	}
	long long one(int v)
	{
		applied = 0;
		long long r = Code<T>::code((*d)(Code<T>::make(v)));
		most = max(most, applied);
		return r;
	}
	void block(const std::vector<int> &in)
	{
		std::vector<long long> out;
		most = 0;
		for (int v : in)
			out.push_back(one(v));
		Ev("block").i("o", o).is("in", in).is("out", out).i("ops", most);
	}
	void bulk(const std::vector<int> &in)
	{
		long long last = 0;
		most = 0;
		for (int v : in)
			last = one(v);
		Ev("bulk").i("o", o).is("in", in).i("last", last).i("ops", most);
	}
};
template <int N>
void bags(int len, int salt)
{
	Rng r(salt);
	Bags<N> a, b;
	for (int i = 0; i < len; ++i) {
		a.in(i);
		if (r.below(3) == 0)
			b.in(1000 + i / 2);
	}
}
template <typename T, int N>
void history(int blocks, int salt, int top, T lowest, T highest, bool sign = true)
{
	Rng r(salt);
	Run<T, Sum<T>, N> a("sum", T(0));
	Run<T, Max<T>, N> b("max", lowest);
	Run<T, Min<T>, N> c("min", highest);
	for (int i = 0; i < blocks; ++i) {
		std::vector<int> in(r.range(1, min(N + 3, 60)));
		for (int &v : in)
			v = r.range(sign ? -top : 0, top);
		a.block(in);
		b.block(in);
		c.block(in);
	}
}
template <typename T, int N>
void long_window(int n, int salt, int top)
{
	Rng r(salt);
	Run<T, Sum<T>, N> a("sum", T(0));
	for (int i = 0; i < n; ++i) {
		std::vector<int> in(r.range(1, 2 * N));
		for (int &v : in)
			v = r.range(-top, top);
		a.bulk(in);
		in.resize(min(int(in.size()), 5));
		a.block(in);
	}
}
void any_window(Stepper &&x, int N, int n, int salt, int top)
{
	Rng r(salt);
	int o = ++next_id;
	Ev("new").i("o", o).i("n", N).str("op", "sum");
	for (int i = 0; i < n; ++i) {
		std::vector<int> in(i == 0 ? max(1, N - 1) : i < 3 ? 1 : r.range(1, 2 * N));
		int last = 0;
		most = 0;
		for (int &v : in) {
			applied = 0;
			last = x.step(v = r.range(-top, top));
			most = max(most, applied);
		}
		Ev("bulk").i("o", o).is("in", in).i("last", last).i("ops", most);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("swa")) {
		Bags<3> x;
		for (auto &c : s)
			x.in(c.second);
	}
	shard("bags");
	bags<1>(20 * f, 1);
	bags<2>(40 * f, 2);
	bags<3>(60 * f, 3);
	bags<4>(60 * f, 4);
	bags<5>(60 * f, 5);
	bags<6>(60 * f, 6);
	bags<7>(60 * f, 7);
	bags<8>(60 * f, 8);
	bags<9>(60 * f, 9);
	bags<11>(60 * f, 10);
	bags<13>(60 * f, 11);
	bags<16>(60 * f, 12);
	bags<17>(80 * f, 13);
	bags<31>(120 * f, 14);
	bags<100>(300 * f, 15);
	shard("numbers");
	history<int, 1>(10 * f, 20, 1000000, INT32_MIN, INT32_MAX);
	history<int, 2>(20 * f, 21, 1000000, INT32_MIN, INT32_MAX);
	history<int, 3>(20 * f, 22, 1000000, INT32_MIN, INT32_MAX);
	history<float, 5>(20 * f, 23, 100000, -1e30f, 1e30f);
	history<double, 6>(20 * f, 24, 1000000, -1e300, 1e300);
	history<short, 10>(20 * f, 25, 1000, -32768, 32767);
	history<long long, 12>(20 * f, 26, 1000000, INT64_MIN, INT64_MAX);
	history<int, 24>(20 * f, 27, 1000000, INT32_MIN, INT32_MAX);
	history<int, 64>(20 * f, 28, 1000000, INT32_MIN, INT32_MAX);
	{
		Rng r(29);
		Run<DSP::Complex<float>, Sum<DSP::Complex<float>>, 7> x("sum", DSP::Complex<float>(0, 0));
		for (int i = 0; i < 20 * f; ++i) {
			std::vector<int> in(r.range(1, 12));
			for (int &v : in)
				v = r.range(-1000, 1000);
			x.block(in);
		}
	}
	shard("long");
	long_window<int, 127>(10 * f, 30, 100000);
	long_window<int, 200>(10 * f, 31, 100000);
	long_window<int, 1000>(6 * f, 32, 100000);
	long_window<int, 20000>(3 * f, 33, 50000);
	long_window<int, 40000>(3 * f, 34, 40000);
	shard("lengths");
	lengths([&](auto n) { any_window(Step<DSP::SWA<int, Sum<int>, decltype(n)::value>>(0), n, 6 * f, 35, 100000); });
	shard("lengths2");
	long_lengths([&](auto n) { if (n < 10000) any_window(Step<DSP::SWA<int, Sum<int>, decltype(n)::value>>(0), n, 6 * f, 36, 100000); });
	shard("lasting");
	{
		Rng r(37);
		Run<int, Max<int>, 5> x("max", -2000000);
		for (int i = 0; i < 4 * f; ++i) {
			std::vector<int> in(40000);
			for (int &w : in)
				w = r.range(-1000000, 1000000);
			x.bulk(in);
			x.block({i, -i, 2 * i, -1000001, -1000002, -1000003, -1000004, -1000005, -1000006});
		}
	}
	done();
	return 0;
}
