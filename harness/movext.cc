// MovMin, MovMax, MovExt: replays scripts generated from MovExtStacks.tla, and blocks of samples
#include "h.hh"
#include "movext.hh"
using namespace H;

static int next_id = 0;
static long long comps = 0;
template <typename T> struct CountLess { bool operator()(T a, T b) const { ++comps; return a < b; } };
template <typename T> struct CountGreater { bool operator()(T a, T b) const { ++comps; return a > b; } };

// values of a type in increasing order; traces contain the indices
template <typename T>
std::vector<T> ladder(int n, Rng &r)
{
	std::vector<T> v;
	v.push_back(std::numeric_limits<T>::lowest());
	v.push_back(std::numeric_limits<T>::max());
	v.push_back(std::numeric_limits<T>::min());
	v.push_back(T(0));
	v.push_back(T(1));
	if (std::numeric_limits<T>::is_signed)
		v.push_back(T(-1));
	if (!std::numeric_limits<T>::is_integer) {
		v.push_back(T(-std::numeric_limits<T>::min()));
		v.push_back(T(std::numeric_limits<T>::epsilon()));
		v.push_back(T(1) + T(std::numeric_limits<T>::epsilon()));
	}
	v.push_back(T(std::numeric_limits<T>::max() / 2));
	v.push_back(T(std::numeric_limits<T>::lowest() / 2));
	while (int(v.size()) < n)
		v.push_back(std::numeric_limits<T>::is_integer ? T(r.next()) : T(r.real(-100, 100)));
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
template <typename T>
int rank_of(const std::vector<T> &l, T v)
{
	for (size_t i = 0; i < l.size(); ++i)
		if (l[i] == v)
			return i;
	return -1;
}
template <typename T, typename M, int N>
struct Run
{
	std::unique_ptr<Obj<M>> d;
	int o;
	bool counted;
	long long total = 0;
	std::vector<T> l;
	template <typename... A>
	Run(const char *kind, const std::vector<T> &l, bool counted, A... a) : d(new Obj<M>(a...)), o(++next_id), counted(counted), l(l)
	{
		Ev("new").i("o", o).i("n", N).str("kind", kind);
	}
	void bulk(const std::vector<int> &in)
	{
		int last = 0;
		for (int v : in)
			last = rank_of(l, (**d)(l[v]));
		Ev("bulk").i("o", o).is("in", in).i("last", last);
	}
	void block(const std::vector<int> &in)
	{
		std::vector<int> out;
		comps = 0;
		for (int v : in)
			out.push_back(rank_of(l, (**d)(l[v])));
		total += comps;
		Ev e("block");
		e.i("o", o).is("in", in).is("out", out);
		if (counted)
			e.i("comps", total);
	}
};
// shapes of input which matter: runs up and down, plateaus, few values, extremes
std::vector<int> shape(Rng &r, int n, int top)
{
	std::vector<int> v(n);
	int kind = r.below(9), a = r.below(top), b = r.below(top), p = r.range(1, 9);
	for (int i = 0; i < n; ++i)
		switch (kind) {
		case 0: v[i] = r.below(top); break;
		case 1: v[i] = (a + i) % top; break;
		case 2: v[i] = (a + n - i) % top; break;
		case 3: v[i] = i / p % 2 ? a : b; break;
		case 4: v[i] = a; break;
		case 5: v[i] = r.below(2) ? a : b; break;
		case 6: v[i] = r.below(3) ? 0 : top - 1; break;
		case 7: v[i] = i % p ? (a + i / p) % top : b; break;
		case 8: v[i] = min(top - 1, max(0, (i ? v[i-1] : a) + r.range(-1, 1))); break;
		}
	return v;
}
template <typename T, int N>
void history(int blocks, int salt, int rungs)
{
	Rng r(salt);
	std::vector<T> l = ladder<T>(rungs, r);
	Run<T, DSP::MovMin<T, N>, N> a("min", l, false), a2("min", l, false);
	Run<T, DSP::MovMax<T, N>, N> b("max", l, false), b2("max", l, false);
	Run<T, DSP::MovExt<T, std::equal_to<T>, CountLess<T>, N>, N> c("min", l, true, std::numeric_limits<T>::max());
	Run<T, DSP::MovExt<T, std::equal_to<T>, CountGreater<T>, N>, N> d("max", l, true, std::numeric_limits<T>::lowest());
	for (int i = 0; i < blocks; ++i) {
		std::vector<int> in = shape(r, r.range(1, N < 100 ? 2 * N + 4 : N), l.size());
		a.block(in);
		b.block(in);
		if (i % 3 == 0) {
			a2.block(in);
			b2.block(in);
		}
		c.block(in);
		d.block(in);
	}
}
template <typename T, int N>
void fill_up(int salt)
{
	// fresh objects: each shape right from the start
	Rng r(salt);
	std::vector<T> l = ladder<T>(14, r);
	for (int i = 0; i < 24; ++i) {
		Run<T, DSP::MovMin<T, N>, N> a("min", l, false);
		Run<T, DSP::MovMax<T, N>, N> b("max", l, false);
		std::vector<int> in = shape(r, 2 * N + 3, l.size());
		a.block(in);
		b.block(in);
	}
}
void any_length(Stepper &&x, const char *kind, int N, int n)
{
	Rng r(18);
	int o = ++next_id;
	std::vector<int> l = ladder<int>(40, r);
	Ev("new").i("o", o).i("n", N).str("kind", kind);
	for (int i = 0; i < n; ++i) {
		std::vector<int> in = shape(r, i % 3 ? r.range(1, 4) : max(1, N - 2), l.size());
		int last = 0;
		for (int v : in)
			last = x.step(l[v]);
		Ev("bulk").i("o", o).is("in", in).i("last", rank_of(l, last));
	}
}
#ifdef LENGTHS
int main()
{
	int f = thorough() ? 10 : 1;
	shard("lengths");
	lengths([&](auto n) {
		any_length(Step<DSP::MovMin<int, decltype(n)::value>>(), "min", n, 8 * f);
		any_length(Step<DSP::MovMax<int, decltype(n)::value>>(), "max", n, 8 * f);
	});
	done();
	return 0;
}
#else
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	std::vector<int> top = {0, 5, 10, INT32_MAX}, low = {INT32_MIN, 10, 20, 30};
	std::vector<float> ftop = {0, -1, 1, std::numeric_limits<float>::max()}, flow = {std::numeric_limits<float>::lowest(), -2, -1, 0};
	for (auto &s : scripts("movext")) {
		Run<int, DSP::MovMin<int, 3>, 3> a("min", top, false);
		Run<float, DSP::MovMax<float, 3>, 3> b("max", flow, false);
		std::vector<int> in, rev;
		for (auto &c : s) {
			in.push_back(c.second);
			rev.push_back(3 - c.second);
		}
		a.block(in);
		b.block(rev);
	}
	shard("fill");
	fill_up<int, 1>(50);
	fill_up<int, 2>(51);
	fill_up<float, 3>(52);
	fill_up<double, 4>(53);
	fill_up<signed char, 5>(54);
	fill_up<unsigned char, 6>(55);
	fill_up<short, 8>(56);
	fill_up<float, 13>(57);
	shard("small");
	history<int, 1>(10 * f, 1, 12);
	history<float, 1>(10 * f, 2, 12);
	history<int, 2>(20 * f, 3, 12);
	history<signed char, 3>(40 * f, 4, 14);
	history<unsigned char, 4>(40 * f, 5, 14);
	history<float, 5>(40 * f, 6, 14);
	history<double, 6>(40 * f, 7, 14);
	history<short, 7>(40 * f, 8, 14);
	history<int, 8>(40 * f, 9, 30);
	history<long long, 11>(40 * f, 10, 30);
	history<float, 16>(40 * f, 11, 100);
	history<int, 17>(40 * f, 12, 100);
	shard("large");
	history<int, 64>(20 * f, 13, 100);
	history<float, 100>(20 * f, 14, 200);
	history<int, 130>(20 * f, 15, 200);
	history<int, 300>(12 * f, 16, 400);
	shard("huge");
	{
		Rng r(17);
		std::vector<int> l = ladder<int>(60, r);
		Run<int, DSP::MovMin<int, 40000>, 40000> a("min", l, false);
		Run<int, DSP::MovMax<int, 70000>, 70000> b("max", l, false);
		std::vector<int> in(600);
		for (int k = 0; k < 160 * f; ++k) {
			for (int &v : in)
				v = 20 + 14 - (k % 140 < 70 ? k % 70 : 69 - k % 70) / 5 + r.below(7);
			a.bulk(in);
			b.bulk(in);
		}
	}
	done();
	return 0;
}
#endif
