// Windows; with -DFILTER prototypes of filters and arrays of coefficients
#include "h.hh"
#include "window.hh"
#include "filter.hh"
#include "coeffs.hh"
using namespace H;

template <typename T> int prec() { return sizeof(T) == 4 ? 24 : 53; }
template <typename T, typename W>
void values(const char *name, const W &w, int N, std::vector<int> n, std::vector<T> a = {}, int num = 0, int den = 0)
{
	std::vector<T> r;
	for (int i : n)
		r.push_back(w(i, N));
	Ev("window").str("w", name).i("p", prec<T>()).i("N", N).is("n", n).fs("a", a).i("num", num).i("den", den).fs("r", r);
}
// All positions of short windows, some of long ones
std::vector<int> positions(Rng &r, int N, int most)
{
	std::vector<int> n;
	if (N <= most) {
		for (int i = 0; i < N; ++i)
			n.push_back(i);
		return n;
	}
	for (int i : {0, 1, 2, 3, N/4-1, N/4, N/4+1, (N-1)/2-1, (N-1)/2, (N-1)/2+1, (N-1)/2+2, N-4, N-3, N-2, N-1})
		n.push_back(i);
	while (int(n.size()) < most)
		n.push_back(r.below(N));
	return n;
}
#ifndef FILTER
template <typename T>
void windows(Rng &r, int N, int most, int which)
{
	std::vector<int> n = positions(r, N, most);
	std::vector<int> around;
	for (int i = -5; i < 5; ++i) {
		around.push_back(i);
		around.push_back(N + i);
	}
	around.push_back(-1000000);
	around.push_back(1000000);
	values<T>("rect", DSP::Rect<T>(), N, n);
	values<T>("rect", DSP::Rect<T>(), N, around);
	values<T>("hann", DSP::Hann<T>(), N, n);
	values<T>("hamming", DSP::Hamming<T>(), N, n);
	values<T>("lanczos", DSP::Lanczos<T>(), N, n);
	values<T>("blackman", DSP::Blackman<T>(), N, n);
	T a = which % 3 == 0 ? T(.16) : T(r.real(0, .5));
	values<T>("blackman1", DSP::Blackman<T>(a), N, n, {a});
	T a0 = T(r.real(.3, .5)), a1 = T(r.real(.3, .6)), a2 = T(r.real(0, .2));
	values<T>("blackman3", DSP::Blackman<T>(a0, a1, a2), N, n, {a0, a1, a2});
	T o = which % 3 == 0 ? T(.5) : which % 3 == 1 ? T(r.real(.15, .6)) : T(r.real(.5, 4));
	values<T>("gauss", DSP::Gauss<T>(o), N, n, {o});
	T b = which % 6 == 0 ? T(3) : which % 6 == 1 ? T(0) : which % 6 == 2 ? T(2) : T(r.real(0, 3));
	values<T>("kaiser", DSP::Kaiser<T>(b), N, n, {b});
}
int main()
{
	int f = thorough() ? 6 : 1;
	for (int k = 0; k < 4; ++k) {
		shard("windows" + std::to_string(k));
		Rng r(k);
		for (int i = 0; i < f; ++i) {
			for (int N = 2 + k; N <= 48; N += 4)
				if (N / 4 % 2)
					windows<float>(r, N, 48, N / 4 + k);
				else
					windows<double>(r, N, 48, N / 4 + k);
			for (int N = 2; N < 12; ++N)
				if ((N + k) % 2)
					windows<float>(r, N, 16, r.below(6));
				else
					windows<double>(r, N, 16, r.below(6));
			int t = 0;
			for (int N : {63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 2049, 4096, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1000001})
				if (t++ % 4 == k) {
					windows<float>(r, N, 24, t);
					windows<double>(r, N, 24, t + 3);
				}
		}
	}
	done();
	return 0;
}
#else
template <typename T>
void prototypes(Rng &r, int N, int most, int which)
{
	std::vector<int> n = positions(r, N, most);
	T c = which % 5 == 0 ? T(.25) : which % 5 == 1 ? T(r.real(.001, .05)) : T(r.real(.01, .49)), d = T(r.real(.01, .49));
	values<T>("low", DSP::LowPass<T>(c), N, n, {c});
	values<T>("high", DSP::HighPass<T>(c), N, n, {c});
	values<T>("band", DSP::BandPass<T>(std::min(c, d), std::max(c, d)), N, n, {std::min(c, d), std::max(c, d)});
	values<T>("hilbert", DSP::HilbertTransform<T>(), N, n);
	static const int nums[] = {1, 1, 1, 2, 3, 3, 7, 1000, 11025, 5000, 15000, 13, 1, 8000};
	static const int dens[] = {4, 3, 8, 5, 8, 7, 16, 48000, 44100, 44100, 48000, 27, 97, 16001};
	const int total = sizeof(nums) / sizeof(*nums);
	for (int i : {which % total, r.below(total)}) {
		values<T>("low2", DSP::LowPass2<T>(nums[i], dens[i]), N, n, {}, nums[i], dens[i]);
		values<T>("high2", DSP::HighPass2<T>(nums[i], dens[i]), N, n, {}, nums[i], dens[i]);
	}
	int den = r.range(5, 200), num = r.range(1, (den - 1) / 2);
	if (which % 2 && N < 10000) {
		// frequencies and rates of more than two bytes
		values<T>("low2", DSP::LowPass2<T>(40000, 96000), N, n, {}, 40000, 96000);
		values<T>("high2", DSP::HighPass2<T>(70000, 192001), N, n, {}, 70000, 192001);
	}
	values<T>("low2", DSP::LowPass2<T>(num, den), N, n, {}, num, den);
	values<T>("high2", DSP::HighPass2<T>(num, den), N, n, {}, num, den);
}
// Anything, with a sum other than one
template <typename T>
struct Table
{
	std::vector<T> v;
	T operator () (int n, int N) const
	{
		if (N != int(v.size()) || n < 0 || n >= N)
			exit(79);
		return v[n];
	}
};
// An array of whatever length
template <typename T>
struct Any
{
	virtual T at(int n) = 0;
	virtual const T *data() = 0;
	virtual void normalize() = 0;
	virtual void normalize(T d) = 0;
	virtual ~Any() {}
};
template <int N, typename T, bool NORM>
struct Some : public Any<T>
{
	Obj<DSP::Coeffs<N, T, NORM>> c;
	template <typename... A> Some(A... a) : c(a...) {}
	T at(int n) override { return (*c)(n); }
	const T *data() override { const T *p = *c; return p; }
	void normalize() override { c->normalize(); }
	void normalize(T d) override { c->normalize(d); }
};
template <int N, typename T>
Any<T> *make(int kind, Table<T> *u, Table<T> *v)
{
	switch (kind) {
	case 0: return new Some<N, T, false>(u);
	case 1: return new Some<N, T, false>(u, v);
	case 2: return new Some<N, T, true>(u);
	default: return new Some<N, T, true>(u, v);
	}
}
template <typename T>
void coefficients(Rng &r, int N, Any<T> *(*make)(int, Table<T> *, Table<T> *), int which)
{
	Table<T> u, v;
	int kind = which % 4;
	for (int i = 0; i < N; ++i) {
		u.v.push_back(T(kind == 0 ? r.real(.1, .3) : kind == 1 ? -r.real(.5, 5) : kind == 2 ? .25 * (1 + i % 3) : r.real(-1, 1) + (i == N / 2 ? 2 : 0)));
		v.v.push_back(T(r.real(.1, 1)));
	}
	auto show = [&](Any<T> &c, bool product, bool norm, T d) {
		std::vector<T> x, q;
		for (int i = -3; i < N + 3; ++i)
			x.push_back(c.at(i));
		const T *p = c.data();
		for (int i = 0; i < N; ++i)
			q.push_back(p[i]);
		Ev("coeffs").i("p", prec<T>()).i("taps", N).b("product", product).b("norm", norm).f("d", d).fs("u", u.v).fs("v", v.v).fs("r", x).fs("q", q);
		return q;
	};
	{
		std::unique_ptr<Any<T>> c(make(0, &u, &v));
		show(*c, false, false, T(1));
		c->normalize();
		std::vector<T> w = show(*c, false, true, T(1));
		// once more
		Table<T> keep = u;
		u.v = w;
		c->normalize(T(2.5));
		show(*c, false, true, T(2.5));
		u = keep;
	}
	{
		std::unique_ptr<Any<T>> c(make(1, &u, &v));
		show(*c, true, false, T(1));
		T d = T(r.real(.1, 7));
		c->normalize(d);
		show(*c, true, true, d);
	}
	{
		std::unique_ptr<Any<T>> c(make(2, &u, &v));
		show(*c, false, true, T(1));
		std::unique_ptr<Any<T>> e(make(3, &u, &v));
		show(*e, true, true, T(1));
	}
}
int main()
{
	int f = thorough() ? 6 : 1;
	for (int k = 0; k < 4; ++k) {
		shard("prototypes" + std::to_string(k));
		Rng r(k);
		for (int i = 0; i < f; ++i) {
			for (int N = 1 + k; N <= 48; N += 4)
				if (N / 4 % 2)
					prototypes<float>(r, N, 48, N / 4 + k);
				else
					prototypes<double>(r, N, 48, N / 4 + k);
			for (int N = 1; N < 10; ++N)
				if ((N + k) % 2)
					prototypes<float>(r, N, 16, N + k);
				else
					prototypes<double>(r, N, 16, N + k);
			int t = 0;
			for (int N : {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1001, 2049, 4097, 10001, 32769, 65537, 70000, 100000})
				if (t++ % 4 == k) {
					prototypes<float>(r, N, 24, t);
					prototypes<double>(r, N, 24, t + 3);
				}
		}
	}
	shard("coeffs");
	int t = 0;
	Rng r(9);
	lengths([&](auto n) {
		if (t++ % 2)
			coefficients<float>(r, n, make<decltype(n)::value, float>, t / 2);
		else
			coefficients<double>(r, n, make<decltype(n)::value, double>, t / 2);
	});
	for (int i = 0; i < 8 * f; ++i) {
		coefficients<float>(r, 1, make<1, float>, i);
		coefficients<float>(r, 2, make<2, float>, i);
		coefficients<double>(r, 3, make<3, double>, i);
		coefficients<float>(r, 8, make<8, float>, i);
		coefficients<float>(r, 31, make<31, float>, i);
		coefficients<double>(r, 129, make<129, double>, i);
	}
	done();
	return 0;
}
#endif
