// Delay: replays scripts generated from DelayRing.tla, and blocks of samples
#include "h.hh"
#include "owned.hh"
#include "code.hh"
#include "delay.hh"
using namespace H;

static int next_id = 0;

template <typename T, int N>
struct Run
{
	std::unique_ptr<Obj<DSP::Delay<T, N>>> d;
	int o;
	Run(int init) : o(++next_id)
	{
		if (init)
			d.reset(new Obj<DSP::Delay<T, N>>(Code<T>::make(init)));
		else
			d.reset(new Obj<DSP::Delay<T, N>>());
		Ev("new").i("o", o).i("n", N).i("init", init);
	}
	void block(const std::vector<int> &in)
	{
		std::vector<long long> out;
		for (int v : in)
			out.push_back(Code<T>::code((**d)(Code<T>::make(v))));
		Ev("block").i("o", o).is("in", in).is("out", out);
	}
};
template <typename T, int N>
void history(int len, int salt, int top, bool sign = true)
{
	Rng r(salt);
	Run<T, N> a(0), b(r.range(1, min(top, 100))), c(0);
	int maxb = N < 50 ? 3 * N + 2 : 2 * N;
	int done = 0;
	// first one by one
	for (int i = 0; i < 2 * N + 3 && i < 40; ++i) {
		a.block({i + 1});
		if (i % 3 == 0)
			b.block({top - i});
	}
	while (done < len) {
		std::vector<int> in(r.range(1, maxb));
		for (int &v : in)
			v = r.range(sign ? -top : 0, top);
		done += in.size();
		(r.below(3) ? r.below(2) ? a : c : b).block(in);
	}
}
void any_length(Stepper &&x, int N, int init, int n)
{
	Rng r(21);
	int v = 0, o = ++next_id;
	Ev("new").i("o", o).i("n", N).i("init", init);
	for (int i = 0; i < n; ++i) {
		std::vector<int> in(i == 0 ? max(1, N - 1) : i < 3 ? 1 : r.range(1, 2 * N)), out;
		for (int &w : in)
			out.push_back(x.step(w = ++v));
		Ev("block").i("o", o).is("in", in).is("out", out);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("delay")) {
		Run<int, 4> x(0);
		std::vector<int> in;
		for (auto &c : s)
			in.push_back(c.second);
		x.block(in);
	}
	shard("small");
	history<int, 1>(300 * f, 1, 1000000);
	history<float, 1>(300 * f, 2, 1000000);
	history<int, 2>(300 * f, 3, 1000000);
	history<unsigned char, 3>(300 * f, 4, 255, false);
	history<short, 4>(300 * f, 5, 30000);
	history<double, 5>(300 * f, 6, 1000000);
	history<int, 6>(300 * f, 7, 1000000);
	history<DSP::Complex<float>, 7>(300 * f, 8, 1000000);
	history<int, 8>(300 * f, 9, 1000000);
	history<long long, 11>(300 * f, 10, 1000000);
	history<float, 16>(500 * f, 11, 1000000);
	history<int, 31>(500 * f, 12, 1000000);
	history<int, 64>(2000 * f, 13, 1000000);
	history<Owned, 1>(100 * f, 23, 1000000);
	history<Owned, 9>(300 * f, 24, 1000000);
	shard("large");
	history<int, 100>(2000 * f, 14, 1000000);
	history<int, 130>(2000 * f, 15, 1000000);
	history<int, 256>(2000 * f, 16, 1000000);
	history<float, 300>(3000 * f, 17, 1000000);
	history<int, 1000>(10000 * f, 18, 1000000);
	history<int, 40000>(200000 * f, 19, 1000000);
	shard("lengths");
	lengths([&](auto n) { any_length(Step<DSP::Delay<int, decltype(n)::value>>(n % 3), n, n % 3, 5 * f); });
	shard("lasting");
	history<int, 5>(150000 * f, 22, 1000000);
	shard("huge");
	history<int, 70000>(400000 * f, 20, 1000000);
	done();
	return 0;
}
