// Kahan, kahan_sum
#include "h.hh"
#include <list>
#include "kahan.hh"
using namespace H;

static int next_id = 0;
template <typename T> struct Bits { static const int p = sizeof(T) == 4 ? 24 : 53; };

template <typename T>
struct Sum
{
	Obj<DSP::Kahan<T>> k;
	int o;
	Sum(T init) : k(init), o(++next_id)
	{
		Ev("new").i("o", o).i("p", Bits<T>::p).f("init", init).f("value", (*k)());
	}
	Sum() : o(++next_id)
	{
		Ev("new").i("o", o).i("p", Bits<T>::p).f("init", T(0)).f("value", (*k)());
	}
	Sum(Sum &other) : k(*other.k), o(++next_id)
	{
		Ev("copy").i("o", o).i("from", other.o).f("value", (*k)()).f("of", (*other.k)());
	}
	void block(const std::vector<T> &in)
	{
		if (in.empty())
			return;
		std::vector<T> out;
		for (T x : in)
			out.push_back((*k)(x));
		Ev("block").i("o", o).fs("in", in).fs("out", out).f("value", (*k)());
	}
	void bulk(const std::vector<T> &in, int times)
	{
		T r = 0;
		for (int i = 0; i < times; ++i)
			for (T x : in)
				r = (*k)(x);
		Ev("bulk").i("o", o).fs("in", in).i("times", times).f("r", r);
	}
	void twin(const std::vector<T> &in)
	{
		DSP::Kahan<T> c(*k);
		DSP::Kahan<T> d(T(5));
		d = c;
		std::vector<T> out, tw;
		for (T x : in)
			out.push_back((*k)(x));
		for (size_t i = 0; i < in.size(); ++i)
			tw.push_back(i % 2 ? (d(in[i]), c(in[i])) : (c(in[i]), d(in[i])));
		Ev("twin").i("o", o).fs("in", in).fs("out", out).fs("twin", tw);
	}
	// settled: an input of zero was added last; exact: all the sums so far were exact
	void same(T x, bool settled, bool exact)
	{
		DSP::Kahan<T> c(*k);
		bool self = c == *k;
		T before = (*k)();
		bool r = k->same(x);
		T after = (*k)();
		bool eq = c == *k;
		bool probes = c() == (*k)();
		T ulp = std::ldexp(std::abs(after) + std::abs(before), -Bits<T>::p);
		for (int i = -16; i <= 16; ++i) {
			DSP::Kahan<T> a(c), b(*k);
			T y = ulp * i / 8, z = ulp * 3 / 16;
			T a1 = a(y), b1 = b(y), a2 = a(z), b2 = b(z), a3 = a(-before), b3 = b(-before);
			probes = probes && a1 == b1 && a2 == b2 && a3 == b3;
		}
		Ev("same").i("o", o).f("x", x).b("r", r).b("eq", eq).b("probes", probes).b("self", self)
			.b("settled", settled).b("exact", exact).f("before", before).f("after", after);
	}
};
template <typename T>
std::vector<T> values(Rng &r, int n, int kind)
{
	std::vector<T> v;
	T u = std::ldexp(T(1), -Bits<T>::p);
	for (int i = 0; i < n; ++i)
		switch (kind) {
		case 0: v.push_back(T(r.real(0, 1))); break;
		case 1: v.push_back(T(r.real(-1, 1))); break;
		case 2: v.push_back(std::ldexp(T(r.real(-1, 1)), r.range(-30, 30))); break;
		case 3: v.push_back(T(1) / T(i + 1)); break;
		case 4: v.push_back(i ? T(r.range(1, 9)) * u / 5 : T(1)); break;
		case 5: v.push_back(i % 2 ? T(-1e6) + T(i) : T(1e6)); break;
		case 6: v.push_back(T(0.1)); break;
		case 7: v.push_back(std::ldexp(T(r.real(0.5, 1)), -min(i, 90))); break;
		case 8: v.push_back(std::ldexp(T(r.real(0.5, 1)), min(i, 90) - 90)); break;
		case 9: v.push_back(i % 3 == 0 ? T(1) : i % 3 == 1 ? u : -u * T(1.5)); break;
		case 10: v.push_back(T(r.below(2) ? 1 : -1) * (1 + u * 2 * r.below(8))); break;
		case 11: v.push_back(-T(r.real(0, 1e3))); break;
		case 12: v.push_back(r.below(2) ? T(0) : T(r.range(-2, 2)) / 3); break;
		case 13: v.push_back(std::ldexp(T(r.real(-1, 1)), r.range(45, 90))); break;
		case 14: v.push_back(i % 3 == 2 ? -v[i-2] : i % 3 ? T(r.range(-1, 1)) : T(r.real(1e12, 1e18))); break;
		}
	return v;
}
// the sum over a range, and the same inputs one by one
template <typename T, typename I>
void range(I begin, I end, T init)
{
	std::vector<T> in(begin, end);
	DSP::Kahan<T> k(init);
	for (T x : in)
		k(x);
	Ev("range").i("p", Bits<T>::p).f("init", init).fs("in", in)
		.f("r", DSP::kahan_sum(begin, end, init)).f("single", k());
}
template <typename T>
void run(int salt)
{
	Rng r(salt);
	T u = std::ldexp(T(1), -Bits<T>::p);
	for (int kind = 0; kind < 15; ++kind)
		for (int n : {1, 2, 3, 30, 400}) {
			Sum<T> a, b(T(r.real(-2, 2)));
			std::vector<T> v = values<T>(r, n, kind);
			a.block(v);
			b.block(v);
			range<T>(v.begin(), v.end(), T(kind - 3));
			std::list<T> li(v.begin(), v.end());
			range<T>(li.begin(), li.end(), T(0.7));
			range<T>(v.data(), v.data() + n, T(-0.7));
			// a start which takes most of the sum away
			T most = 0;
			for (T x : v)
				most -= x;
			range<T>(v.begin(), v.end(), most);
			Sum<T> c(a);
			a.block(values<T>(r, 20, (kind + 5) % 15));
			c.block(values<T>(r, 20, (kind + 3) % 15));
			a.block(values<T>(r, 5, 0));
			a.twin(values<T>(r, 20, 4));
			a.twin(values<T>(r, 20, kind));
		}
	for (T init : {T(0), T(1), T(-3)})
		range<T>((T *)nullptr, (T *)nullptr, init);
	// long runs
	int f = thorough() ? 100 : 10;
	for (int kind = 0; kind < 15; ++kind) {
		Sum<T> a(T(r.real(-1, 1)));
		for (int i = 0; i < 5; ++i)
			a.bulk(values<T>(r, 50, kind), 100 * f);
	}
	{
		Sum<T> a(1), b(-1);
		a.bulk({u / 2}, 50000 * f);
		b.bulk({u / 2, -u / 3}, 50000 * f);
		a.bulk({u / 4, u / 8, u * 3}, 5000 * f);
	}
	// a copy of a copy of a copy
	for (int kind : {0, 3, 4, 6}) {
		std::vector<T> v = values<T>(r, 400, kind);
		std::unique_ptr<Sum<T>> a(new Sum<T>(1));
		for (T x : v) {
			std::unique_ptr<Sum<T>> b(new Sum<T>(*a));
			b->block({x});
			std::swap(a, b);
		}
	}
	// whether anything changed
	for (int i = 0; i < (thorough() ? 200 : 20); ++i) {
		Sum<T> a(T(r.real(-2, 2)));
		a.same(T(0), true, true);
		a.same(u / 16, false, true);
		a.same(T(0), false, false);
		a.same(T(0), true, false);
		a.block(values<T>(r, 10, i % 15));
		a.same(T(0), false, false);
		a.same(T(0), true, false);
		for (int j = 0; j < 20; ++j) {
			T x = std::ldexp(T(r.real(-1, 1)), -r.below(3 * Bits<T>::p));
			a.same(x, false, false);
			a.same(T(0), false, false);
			a.same(T(0), true, false);
		}
		Sum<T> c(8);
		c.same(T(4), false, true);
		c.same(T(1) / 16, false, true);
		c.same(T(0), true, true);
		c.same(u * 2, false, true);
		c.same(-u * 2, false, false);
		// smaller and smaller inputs until one does not matter any more
		Sum<T> d(T(r.real(1, 2)));
		T x = T(r.real(0.5, 1));
		for (int j = 0; j < 2 * Bits<T>::p + 6; ++j, x /= 2)
			d.same(x, false, false);
	}
}
int main()
{
	shard("float");
	run<float>(1);
	shard("double");
	run<double>(2);
	done();
	return 0;
}
