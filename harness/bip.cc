// BipBuffer: replays scripts generated from BipRing.tla, and blocks of samples
#include "h.hh"
#include "owned.hh"
#include "code.hh"
#include "bip_buffer.hh"
using namespace H;

static int next_id = 0;

template <typename T, int N>
struct Run
{
	Obj<DSP::BipBuffer<T, N>> d;
	int o;
	std::vector<long long> view(const T *p)
	{
		std::vector<long long> r;
		for (int i = 0; i < N; ++i)
			r.push_back(Code<T>::code(p[i]));
		return r;
	}
	Run() : o(++next_id)
	{
		Ev("new").i("o", o).i("n", N).is("view", view((*d)()));
	}
	void block(const std::vector<int> &in)
	{
		const T *p = nullptr;
		for (int v : in)
			p = (*d)(Code<T>::make(v));
		Ev("block").i("o", o).is("in", in).is("view", view(p));
	}
	void peek()
	{
		Ev("peek").i("o", o).is("view", view((*d)()));
	}
};
template <typename T, int N>
void history(int len, int salt, int top, bool sign = true)
{
	Rng r(salt);
	Run<T, N> a, b;
	for (int i = 0; i < 4 * N + 5 && i < 300; ++i) {
		a.block({r.range(sign ? -top : 0, top)});
		if (i % 7 == 3)
			b.block({r.range(sign ? -top : 0, top)});
		if (i % 5 == 0)
			a.peek();
	}
	for (int i = 0; i < len; ++i) {
		Run<T, N> &x = r.below(3) ? a : b;
		if (r.below(5) == 0)
			x.peek();
		std::vector<int> in(r.below(2) ? 1 : r.range(1, 2 * N + 2));
		for (int &v : in)
			v = r.range(sign ? -top : 0, top);
		x.block(in);
	}
}
struct Viewer
{
	virtual const int *view() = 0;
	virtual const int *view(int v) = 0;
	virtual ~Viewer() {}
};
template <int N>
struct View : public Viewer
{
	Obj<DSP::BipBuffer<int, N>> d;
	const int *view() override { return (*d)(); }
	const int *view(int v) override { return (*d)(v); }
};
void revolutions(Viewer &&x, int N, int salt, int n)
{
	Rng r(salt);
	int v = 0, o = ++next_id;
	const int *p = x.view();
	Ev("new").i("o", o).i("n", N).is("view", std::vector<int>(p, p + N));
	for (int i = 0; i < n; ++i) {
		std::vector<int> in(i == 0 ? max(1, N - 1) : i < 4 ? 1 : i == 4 ? max(1, N - 2) : i < 7 ? 1 : r.range(1, 2 * N));
		for (int &w : in)
			p = x.view(w = ++v);
		Ev("block").i("o", o).is("in", in).is("view", std::vector<int>(p, p + N));
		if (i % 4 == 1) {
			p = x.view();
			Ev("peek").i("o", o).is("view", std::vector<int>(p, p + N));
		}
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("bip")) {
		Run<int, 3> x;
		int n = 0;
		for (auto &c : s) {
			x.block({c.second});
			if (++n % 2)
				x.peek();
		}
	}
	shard("small");
	history<int, 1>(40 * f, 1, 1000000);
	history<float, 1>(40 * f, 2, 1000000);
	history<int, 2>(60 * f, 3, 1000000);
	history<unsigned char, 3>(60 * f, 4, 255, false);
	history<short, 4>(60 * f, 5, 30000);
	history<double, 5>(60 * f, 6, 1000000);
	history<DSP::Complex<float>, 7>(60 * f, 7, 1000000);
	history<int, 8>(60 * f, 8, 1000000);
	history<float, 17>(60 * f, 9, 1000000);
	history<Owned, 1>(40 * f, 18, 1000000);
	history<Owned, 6>(60 * f, 19, 1000000);
	shard("large");
	history<int, 64>(40 * f, 10, 1000000);
	history<int, 130>(40 * f, 11, 1000000);
	history<int, 300>(40 * f, 12, 1000000);
	history<DSP::Complex<float>, 1000>(20 * f, 13, 1000000);
	shard("lengths");
	lengths([&](auto n) { revolutions(View<decltype(n)::value>(), n, 15, 9 * f); });
	shard("lengths2");
	long_lengths([&](auto n) { if (n < 10000) revolutions(View<decltype(n)::value>(), n, 16, 7 * f); });
	shard("lasting");
	{
		Rng r(17);
		Run<int, 5> x;
		for (int i = 0; i < 4 * f; ++i) {
			std::vector<int> in(40000);
			for (int &w : in)
				w = r.range(-1000000, 1000000);
			x.block(in);
			x.block({i});
		}
	}
	shard("huge");
	{
		Rng r(14);
		Run<int, 20000> x;
		Run<int, 40000> y;
		for (int i = 0; i < 8 * f; ++i) {
			std::vector<int> in(r.range(1, 45000));
			for (int &v : in)
				v = r.range(-1000000, 1000000);
			x.block(in);
			x.block({i});
			y.block(in);
			y.block({i});
			y.peek();
		}
	}
	done();
	return 0;
}
