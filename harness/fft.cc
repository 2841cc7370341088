// Fourier transforms of the sizes of one PART; with -DREAL real transforms, with -DPAD zero padding
#include "h.hh"
#include "complex.hh"
#include "fft.hh"
#include "fdzp.hh"
using namespace H;

template <typename T> using C = DSP::Complex<T>;
template <typename T> using Vec = std::vector<C<T>>;
constexpr bool smooth(int n)
{
	const int primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31};
	for (int i = 0; i < 11; ++i)
		while (n % primes[i] == 0)
			n /= primes[i];
	return n == 1;
}
// Any transform
template <typename T>
struct Any
{
	int in, out;
	Any(int in, int out) : in(in), out(out) {}
	virtual void go(C<T> *o, const C<T> *i) = 0;
	virtual ~Any() {}
};
template <int N, typename T, int SIGN>
struct Fft : public Any<T>
{
	Obj<DSP::FastFourierTransform<N, C<T>, SIGN>> f;
	Fft() : Any<T>(N, N) {}
	void go(C<T> *o, const C<T> *i) override { (*f)(o, i); }
};
#ifdef REAL
template <int N, typename T>
struct Half : public Any<T>
{
	Obj<DSP::RealToHalfComplexTransform<N, C<T>>> f;
	Half() : Any<T>(N, N / 2 + 1) {}
	void go(C<T> *o, const C<T> *i) override
	{
		std::vector<T> v;
		for (int n = 0; n < N; ++n)
			v.push_back(i[n].real());
		std::vector<T> w(v);
		(*f)(o, v.data());
		if (memcmp(v.data(), w.data(), N * sizeof(T)))
			o[-1] = C<T>(77);	// is found to be unclean
	}
};
#endif
#ifdef PAD
template <int N, int M, typename T>
struct Pad : public Any<T>
{
	Obj<DSP::FDZP<N, M, C<T>>> f;
	Pad() : Any<T>(M, N) {}
	void go(C<T> *o, const C<T> *i) override { (*f)(o, i); }
};
#endif
static std::string list(const std::vector<std::string> &v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i)
		s += (i ? "," : "") + v[i];
	return s + "]";
}
template <typename T>
struct Cases
{
	std::vector<std::string> all;
	void add(Any<T> &a, int sign, const Vec<T> &x, int most, Rng &r)
	{
		const int G = 9;
		const C<T> mark(T(123.5), T(-77.25));
		Vec<T> in(x), out(a.out + 2 * G, mark);
		a.go(out.data() + G, in.data());
		bool clean = !memcmp(in.data(), x.data(), x.size() * sizeof(C<T>));
		for (int i = 0; i < G; ++i)
			clean = clean && out[i] == mark && out[G + a.out + i] == mark;
		std::vector<int> bins;
		if (a.out <= most)
			for (int i = 0; i < a.out; ++i)
				bins.push_back(i);
		else {
			for (int i : {0, 1, 2, 3, a.out / 2 - 1, a.out / 2, a.out / 2 + 1, a.out / 4, a.out - 2, a.out - 1})
				bins.push_back(i);
			while (int(bins.size()) < most)
				bins.push_back(r.below(a.out));
		}
		std::vector<std::string> ir, ii, xr, xi;
		for (C<T> z : x) {
			ir.push_back('"' + hex(z.real()) + '"');
			ii.push_back('"' + hex(z.imag()) + '"');
		}
		for (int k : bins) {
			xr.push_back('"' + hex(out[G + k].real()) + '"');
			xi.push_back('"' + hex(out[G + k].imag()) + '"');
		}
		std::string b = "[";
		for (size_t i = 0; i < bins.size(); ++i)
			b += (i ? "," : "") + std::to_string(bins[i]);
		all.push_back("{\"sign\":" + std::to_string(sign) + ",\"clean\":" + (clean ? "true" : "false") +
			",\"inre\":" + list(ir) + ",\"inim\":" + list(ii) + ",\"bins\":" + b + "],\"outre\":" + list(xr) + ",\"outim\":" + list(xi) + "}");
	}
	void write(const char *e, int M, int N)
	{
		Ev ev(e);
		ev.i("p", sizeof(T) == 4 ? 24 : 53).i("M", M).i("N", N);
		ev.key("cases");
		ev.s += list(all);
	}
};
template <typename T>
void run(Any<T> &a, int sign, Cases<T> &c, Rng &r, int most)
{
	int N = a.in;
	auto random = [&] {
		Vec<T> x;
		for (int i = 0; i < N; ++i)
			x.push_back(C<T>(T(r.real(-1, 1)), T(r.real(-1, 1))));
		return x;
	};
	Vec<T> first = random();
	c.add(a, sign, first, most, r);
	Vec<T> impulse(N);
	impulse[r.below(N)] = C<T>(T(r.real(.5, 1)), T(r.real(-1, 1)));
	c.add(a, sign, impulse, most, r);
	if (r.below(3) == 0) {
		Vec<T> x = random();
		for (C<T> &z : x)
			z *= std::ldexp(T(1), r.range(-10, 10));
		c.add(a, sign, x, most, r);
	}
	c.add(a, sign, first, a.out > a.in ? most : std::min(most, 16), r);
}
template <typename T, int N>
void both(Rng &r, int most)
{
	Cases<T> c;
	std::unique_ptr<Any<T>> f(new Fft<N, T, -1>), b(new Fft<N, T, 1>);
	run<T>(*f, -1, c, r, most);
	run<T>(*b, 1, c, r, most);
	c.write("fft", N, N);
}
#ifdef REAL
template <typename T, int N>
void real(Rng &r, int most)
{
	Cases<T> c;
	std::unique_ptr<Any<T>> f(new Half<N, T>);
	run<T>(*f, -1, c, r, most);
	run<T>(*f, -1, c, r, most);
	c.write("rfft", N, N);
}
#endif
#ifdef PAD
template <typename T, int N, int M>
void pad(Rng &r)
{
	Cases<T> c;
	std::unique_ptr<Any<T>> f(new Pad<N, M, T>);
	run<T>(*f, -1, c, r, N);
	c.write("fdzp", M, N);
}
template <int N, int M>
void pair(Rng &r)
{
	if constexpr (smooth(N) && smooth(M) && M < N) {
		if ((N + M) % 2)
			pad<float, N, M>(r);
		else
			pad<double, N, M>(r);
	}
}
#endif
#ifdef LARGE
// Transforms which are too large to be computed by their definition: a few samples that are not
// zero, and tones; of the output some bins, among them the largest ones
template <typename T>
struct Large
{
	static const int G = 9;
	Any<T> &a;
	Rng &r;
	Vec<T> out;
	bool clean;
	Large(Any<T> &a, Rng &r) : a(a), r(r) {}
	void go(const Vec<T> &x)
	{
		const C<T> mark(T(123.5), T(-77.25));
		Vec<T> in(x);
		out.assign(a.out + 2 * G, mark);
		a.go(out.data() + G, in.data());
		clean = !memcmp(in.data(), x.data(), x.size() * sizeof(C<T>));
		for (int i = 0; i < G; ++i)
			clean = clean && out[i] == mark && out[G + a.out + i] == mark;
	}
	void result(Ev &e, std::vector<int> bins)
	{
		std::vector<int> rank;
		for (int i = 0; i < a.out; ++i)
			rank.push_back(i);
		int top = min(8, a.out);
		std::partial_sort(rank.begin(), rank.begin() + top, rank.end(), [&](int i, int j) { return norm(out[G + i]) > norm(out[G + j]); });
		bins.insert(bins.end(), rank.begin(), rank.begin() + top);
		for (int i : {0, 1, a.out / 2, a.out - 1})
			bins.push_back(i);
		for (int i = 0; i < 8; ++i)
			bins.push_back(r.below(a.out));
		std::vector<T> re, im;
		for (int k : bins) {
			re.push_back(out[G + k].real());
			im.push_back(out[G + k].imag());
		}
		e.is("bins", bins).fs("outre", re).fs("outim", im).b("clean", clean);
	}
	void sparse(const char *kind, int sign)
	{
		Vec<T> x(a.in);
		std::vector<int> at;
		std::vector<T> re, im;
		for (int i = 0; i < 3; ++i) {
			int k = i == 0 ? a.in - 1 - r.below(2) : r.below(a.in - 2);
			if (x[k] == C<T>(0))
				x[k] = C<T>(T(r.real(.5, 1)), kind[0] == 'r' ? T(0) : T(r.real(-1, 1)));
		}
		for (int k = 0; k < a.in; ++k)
			if (x[k] != C<T>(0)) {
				at.push_back(k);
				re.push_back(x[k].real());
				im.push_back(x[k].imag());
			}
		go(x);
		Ev e("sparse");
		e.str("kind", kind).i("p", sizeof(T) == 4 ? 24 : 53).i("N", a.in).i("sign", sign).is("at", at).fs("inre", re).fs("inim", im);
		result(e, {});
	}
	void tone(const char *kind, int sign, int m)
	{
		T re = T(r.real(.5, 1)), im = T(r.real(.5, 1));
		Vec<T> x;
		for (int n = 0; n < a.in; ++n) {
			long double w = 2 * M_PIl * ((long long)n * m % a.in) / a.in, c = cosl(w), s = sinl(w);
			x.push_back(C<T>(T(re * c - im * s), kind[0] == 'r' ? T(0) : T(re * s + im * c)));
		}
		go(x);
		Ev e("tone");
		e.str("kind", kind).i("p", sizeof(T) == 4 ? 24 : 53).i("N", kind[0] == 'p' ? a.out : a.in).i("sign", sign).i("m", m).f("re", re).f("im", im);
		result(e, kind[0] == 'p' ? std::vector<int>() : std::vector<int>{kind[0] == 'r' || sign < 0 ? m : (a.in - m) % a.in});
	}
};
template <typename T>
void large(Any<T> &&a, const char *kind, int sign, Rng &r)
{
	Large<T> l(a, r);
	if (kind[0] == 'p') {
		int h = (a.in - 1) / 2;
		for (int m : {0, h, -h, r.range(-h, h)})
			l.tone(kind, sign, m);
	} else {
		int h = kind[0] == 'r' ? a.in / 2 : a.in - 1;
		l.sparse(kind, sign);
		l.sparse(kind, sign);
		for (int m : {0, 1, h, r.range(0, h), r.range(0, h)})
			l.tone(kind, sign, m);
	}
}
#endif
template <typename F, int LO, int... I>
void span(F f, std::integer_sequence<int, I...>)
{
	int t[] = {(f(std::integral_constant<int, LO + I>()), 0)...};
	(void)t;
}
template <int LO, int HI, typename F>
void sizes(F f)
{
	span<F, LO>(f, std::make_integer_sequence<int, HI - LO + 1>());
}
template <int... N, typename F>
void some(F f)
{
	int t[] = {(f(std::integral_constant<int, N>()), 0)...};
	(void)t;
}
int main()
{
	int f = thorough() ? 6 : 1;
	Rng r(PART);
	int count = 0;
	auto next = [&] {
		shard("fft" + std::to_string(count++));
	};
	auto each = [&](auto type, auto n, int most) {
		(void)most;
		(void)type;
		constexpr int N = decltype(n)::value;
		typedef decltype(type) T;
		if constexpr (smooth(N)) {
#ifdef REAL
			if constexpr (N % 2 == 0)
				real<T, N>(r, most);
#elif !defined(PAD)
			both<T, N>(r, most);
#endif
		}
	};
	auto doubles = [&](auto n) { each(double(), n, 256); };
	auto floats = [&](auto n) { each(float(), n, 256); };
	auto few = [&](auto n) { each(double(), n, 60); each(float(), n, 40); };
	(void)doubles;
	(void)floats;
	(void)few;
	for (int k = 0; k < f; ++k) {
#if defined(LARGE)
	auto both = [&](auto n) {
		constexpr int N = decltype(n)::value;
		large<double>(Fft<N, double, -1>(), "fft", -1, r);
		large<float>(Fft<N, float, 1>(), "fft", 1, r);
	};
	auto half = [&](auto n) {
		constexpr int N = decltype(n)::value;
		(void)N;
#ifdef REAL
		large<double>(Half<N, double>(), "rfft", -1, r);
		large<float>(Half<N, float>(), "rfft", -1, r);
#endif
	};
	(void)both;
	(void)half;
	next();
#if defined(PAD)
	large<double>(Pad<2500, 2048, double>(), "pad", -1, r);
	large<float>(Pad<4096, 2187, float>(), "pad", -1, r);
	large<double>(Pad<80000, 39366, double>(), "pad", -1, r);
	large<double>(Pad<70000, 34000, double>(), "pad", -1, r);
	large<float>(Pad<65536, 40000, float>(), "pad", -1, r);
#elif defined(REAL)
	some<4096, 8192, 6250, 34000, 65536, 72900, 131072>(half);
#else
#if PART == 6
	some<4096, 8192, 16384, 3125, 2401>(both);
	next();
	some<40000, 59049, 65536, 131072>(both);
#else
	some<30030, 14641, 28561, 4913, 6859, 12167, 24389, 59582>(both);
#endif
#endif
#elif defined(PAD)
	next();
#if PART == 1
		// all pairs of small sizes
		sizes<1, 12>([&](auto m) {
			sizes<2, 13>([&](auto n) { pair<decltype(n)::value, decltype(m)::value>(r); });
		});
#else
		pair<31, 30>(r), pair<32, 31>(r), pair<33, 32>(r), pair<34, 33>(r), pair<35, 34>(r);
		pair<64, 16>(r), pair<64, 17>(r), pair<66, 33>(r), pair<99, 33>(r), pair<100, 66>(r), pair<100, 75>(r), pair<100, 99>(r), pair<45, 14>(r);
		next();
		pair<128, 64>(r), pair<128, 100>(r), pair<105, 35>(r), pair<120, 1>(r), pair<121, 2>(r), pair<96, 65>(r), pair<160, 20>(r), pair<200, 125>(r), pair<210, 70>(r);
		next();
		pair<256, 128>(r), pair<280, 35>(r), pair<300, 256>(r);
#endif
#elif defined(REAL)
	next();
#if PART == 1
	sizes<2, 64>(doubles);
	next();
	some<2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 38, 46, 58, 62, 64>(floats);
#else
	sizes<65, 100>(doubles);
	next();
	some<110, 124, 128, 144, 162, 200, 242, 250, 254, 256, 260>(few);
	next();
	some<512, 540, 768, 1000, 1024>(few);
	next();
	some<2048>(few);
#endif
#else
	next();
#if PART == 1
	sizes<1, 48>(doubles);
#elif PART == 2
	sizes<49, 80>(doubles);
#elif PART == 3
	sizes<81, 112>(doubles);
#elif PART == 4
	sizes<1, 34>(floats);
	some<35, 48, 49, 62, 64, 77, 81, 93, 100, 121, 128>(floats);
	next();
	some<124, 125, 126, 128, 144, 160, 162, 169, 180, 192, 200, 216, 240, 243, 250, 256>(few);
#else
	some<289, 310, 343, 361, 384, 435, 480, 500, 512, 529>(few);
	next();
	some<625, 640, 729, 768, 841>(few);
	next();
	some<961, 1000, 1024>(few);
	next();
	some<1155, 1536, 2048>(few);
#endif
#endif
	}
	done();
	return 0;
}
