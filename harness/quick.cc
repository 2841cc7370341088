// quick_sort and quick_select
#include "h.hh"
#include "owned.hh"
#include "quick.hh"
using namespace H;

static long long comps = 0;
// an element that counts the comparisons made
struct Counted
{
	int v;
	Counted(int v = 0) : v(v) {}
	operator int() const { return v; }
};
inline bool operator<(Counted a, Counted b) { ++comps; return a.v < b.v; }
inline bool operator>(Counted a, Counted b) { ++comps; return a.v > b.v; }
inline bool operator<=(Counted a, Counted b) { ++comps; return a.v <= b.v; }
inline bool operator>=(Counted a, Counted b) { ++comps; return a.v >= b.v; }
inline bool operator==(Counted a, Counted b) { ++comps; return a.v == b.v; }
inline bool operator!=(Counted a, Counted b) { ++comps; return a.v != b.v; }
inline int counted_value(Counted a) { return a.v; }
OWNED_OPS(Counted, counted_value)

template <typename T> struct Guard { static T value() { return T(111); } };

// an array with guard elements on both sides, in an allocation of its own
template <typename T>
struct Array
{
	static const int G = 3;
	int n;
	T *mem, *a;
	Array(const std::vector<int> &in) : n(in.size()), mem(new T[n + 2 * G]), a(mem + G)
	{
		for (int i = 0; i < n + 2 * G; ++i)
			mem[i] = i % 2 ? T(120) : T(0);
		for (int i = 0; i < n; ++i)
			a[i] = T(in[i]);
	}
	~Array() { delete[] mem; }
	std::vector<int> out()
	{
		std::vector<int> r;
		for (int i = 0; i < n; ++i)
			r.push_back(int(a[i]));
		return r;
	}
	bool guards()
	{
		for (int i = 0; i < n + 2 * G; ++i)
			if ((i < G || i >= G + n) && int(mem[i]) != (i % 2 ? 120 : 0))
				return false;
		return true;
	}
};
template <typename T>
void sort(const std::vector<int> &in, bool count = false)
{
	Array<T> x(in);
	comps = 0;
	DSP::quick_sort(x.a, x.n);
	long long c = comps;
	Ev e("sort");
	e.is("in", in).is("out", x.out()).b("guards", x.guards());
	if (count)
		e.i("comps", c);
	// without guards: a bare array, so that accesses outside are outside of the allocation
	T *bare = new T[x.n];
	for (int i = 0; i < x.n; ++i)
		bare[i] = T(in[i]);
	DSP::quick_sort(bare, x.n);
	delete[] bare;
}
template <typename T>
void select(const std::vector<int> &in, int k, bool count = false)
{
	Array<T> x(in);
	comps = 0;
	T r = DSP::quick_select(x.a, k, x.n);
	long long c = comps;
	Ev e("select");
	e.is("in", in).is("out", x.out()).i("k", k).i("r", int(r)).b("guards", x.guards());
	if (count)
		e.i("comps", c);
	T *bare = new T[x.n];
	for (int i = 0; i < x.n; ++i)
		bare[i] = T(in[i]);
	DSP::quick_select(bare, k, x.n);
	delete[] bare;
}
std::vector<int> shape(Rng &r, int n, int kind, int top, bool sign)
{
	std::vector<int> v(n);
	int vals = 2 + r.below(5), p = r.range(2, 40);
	for (int i = 0; i < n; ++i)
		switch (kind) {
		case 0: v[i] = r.below(top); break;
		case 1: v[i] = i; break;
		case 2: v[i] = n - i; break;
		case 3: v[i] = 7; break;
		case 4: v[i] = r.below(vals); break;
		case 5: v[i] = r.below(2) ? 100 : 3; break;
		case 6: v[i] = i < n / 2 ? i : n - i; break;
		case 7: v[i] = i < n / 2 ? n - i : i; break;
		case 8: v[i] = i % p; break;
		case 9: v[i] = i / p; break;
		case 10: v[i] = i; break;
		case 11: v[i] = i % 2 ? i : n; break;
		case 12: v[i] = r.below(10) ? 50 : r.below(100); break;
		}
	if (kind == 10) // sorted with a few exchanges
		for (int j = 0; j < 3 && n > 1; ++j)
			std::swap(v[r.below(n)], v[r.below(n)]);
	for (int &x : v) {
		x %= top;
		if (sign && r.below(2) && kind != 3)
			x = kind == 0 ? -x : x;
	}
	return v;
}
template <typename T>
void cover(int salt, int top, bool sign, bool count, int lo, int hi, int step, int selects)
{
	Rng r(salt);
	for (int n = lo; n <= hi; n += step)
		for (int kind = 0; kind <= 12; ++kind) {
			std::vector<int> in = shape(r, n, kind, top, sign);
			sort<T>(in, count);
			for (int s = 0; s < selects && n; ++s)
				select<T>(in, s == 0 ? 0 : s == 1 ? n - 1 : s == 2 ? n / 2 : r.below(n), count);
		}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("short");
	// every array of up to 5 elements out of 3 values
	for (int n = 0; n <= 5; ++n) {
		int m = 1;
		for (int i = 0; i < n; ++i)
			m *= 3;
		for (int w = 0; w < m; ++w) {
			std::vector<int> in(n);
			for (int i = 0, x = w; i < n; ++i, x /= 3)
				in[i] = x % 3;
			sort<int>(in);
			if (n)
				select<float>(in, w % n);
		}
	}
	cover<int>(1, 1000000, true, false, 6, 33, 1, 2);
	shard("medium");
	// just above the length from which ranges are partitioned
	for (int i = 0; i < f; ++i)
		cover<int>(2 + 100 * i, 1000000, true, false, 32, 72, 1, 4);
	shard("types");
	cover<float>(3, 1000000, true, false, 30, 130, 9, 4);
	cover<double>(4, 1000000, true, false, 31, 130, 9, 4);
	cover<unsigned char>(5, 120, false, false, 32, 300, 17, 3);
	cover<signed char>(6, 120, true, false, 33, 300, 17, 3);
	cover<short>(7, 30000, true, false, 34, 400, 31, 3);
	cover<long long>(8, 1000000, true, false, 35, 200, 31, 3);
	cover<unsigned>(14, 2000000000, false, false, 33, 150, 29, 3);
	cover<unsigned short>(15, 65000, false, false, 33, 150, 29, 3);
	cover<unsigned long long>(16, 1000000, false, false, 33, 150, 29, 3);
	cover<int>(17, 2000000000, true, false, 33, 150, 29, 3);
	cover<Owned>(13, 1000000, true, false, 3, 100, 19, 3);
	shard("all-ranks");
	{
		Rng r(9);
		for (int n : {33, 34, 40, 67})
			for (int kind : {0, 3, 4, 5, 8, 12}) {
				std::vector<int> in = shape(r, n, kind, 1000, false);
				for (int k = 0; k < n; ++k)
					select<int>(in, k);
			}
	}
	shard("long");
	for (int i = 0; i < f; ++i) {
		cover<Counted>(10 + 100 * i, 1000000, true, true, 1000, 4200, 1567, 3);
		cover<Counted>(11 + 100 * i, 1000000, true, true, 16384, 16384, 1, 1);
	}
	shard("longest");
	{
		Rng r(12);
		std::vector<int> in = shape(r, 70000, 0, 1000000, true);
		sort<int>(in);
		select<int>(in, 66000);
		select<int>(in, 100);
		in = shape(r, 70000, 4, 1000000, true);
		sort<int>(in);
	}
	shard("misuse");
	for (int n : {0, 1, 2, 40})
		for (int k : {0, 1, 2, 39, 40, 41})
			Ev("try").i("n", n).i("k", k).str("outcome", outcome([=]() {
				std::vector<int> v(100, 5);
				DSP::quick_select(v.data(), k, n);
			}));
	done();
	return 0;
}
