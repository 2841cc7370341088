// Resampler, Resampler2
#include "parts.hh"
#include "resampler.hh"
using namespace H;

static int objects = 0;
template <typename T>
struct Config
{
	T rate, cutoff, alpha;
	Config(Rng &r)
	{
		static const int rates[] = {1, 100, 8000, 44100, 48000};
		rate = T(r.below(4) ? rates[r.below(5)] : r.real(1, 1e5));
		cutoff = T(rate * (r.below(3) ? r.real(.1, .5) : r.range(1, 4) / 8.));
		alpha = T(r.below(2) ? r.real(0, 3) : r.range(0, 3));
	}
	void start(int id, int taps, int over, int parts)
	{
		Ev("new").i("o", id).i("p", std::numeric_limits<T>::digits).i("T", taps).i("O", over).f("rate", rate).f("cutoff", cutoff).f("a", alpha);
		for (int i = 1; i < parts; ++i)
			Ev("same").i("o", id).i("to", id + i);
	}
};
template <typename T>
T difference(Rng &r, T rate)
{
	switch (r.below(5)) {
	case 0: return 0;
	case 1: return T(rate * r.range(-4, 4) / 8);
	case 2: return T(rate * r.real(-1, 1) * 1e-3);
	default: return T(rate * r.real(-.5, .5));
	}
}
template <typename IO, typename T>
std::vector<T> part(const std::vector<IO> &v, int p)
{
	std::vector<T> w;
	for (IO z : v)
		w.push_back(Parts<IO>::get(z, p));
	return w;
}
template <typename T, typename IO, int TAPS, int OVER>
void blocks(Rng &r, int n, int longest = 0)
{
	Config<T> c(r);
	typedef DSP::Resampler<T, TAPS, OVER> R;
	Obj<R> o(c.rate, c.cutoff, c.alpha);
	objects = 0;
	c.start(1, TAPS, OVER, Parts<IO>::n);
	for (int k = 0; k < n; ++k) {
		int samples = k < 3 ? TAPS + k - 1 : longest ? r.range(longest / 2, longest) : r.range(TAPS, 2 * TAPS + 20), stride = k < 2 ? 1 : r.range(1, 3);
		T diff = difference<T>(r, c.rate);
		std::vector<IO> x = signal<IO>(r, samples);
		// exactly the samples there are, with others in between
		size_t cells = samples > 0 ? (samples - 1) * stride + 1 : 0;
		std::unique_ptr<IO[]> in(new IO[cells]), out(new IO[cells]);
		for (size_t i = 0; i < cells; ++i) {
			in[i] = i % stride ? Parts<IO>::make(1e5, -1e5) : x[i / stride];
			out[i] = Parts<IO>::make(777, 777);
		}
		if (stride == 1)
			(*o)(out.get(), in.get(), diff, samples);
		else
			(*o)(out.get(), in.get(), diff, samples, stride);
		std::vector<IO> y(out.get(), out.get() + cells);
		for (int p = 0; p < Parts<IO>::n; ++p)
			Ev("block").i("o", 1 + p).f("diff", diff).i("samples", samples).i("stride", stride).f("was", T(777)).fs("x", part<IO, T>(x, p)).fs("r", part<IO, T>(y, p));
	}
}
template <typename T, typename IO, int TAPS, int OVER>
struct Stream
{
	typedef DSP::Resampler2<T, IO, TAPS, OVER> R;
	Config<T> c;
	Obj<R> o;
	int id;
	Stream(Rng &r) : Stream(Config<T>(r)) {}
	Stream(Config<T> c) : c(c), o(c.rate, c.cutoff, c.alpha), id(objects + 1)
	{
		objects += Parts<IO>::n;
		c.start(id, TAPS, OVER, Parts<IO>::n);
	}
	Stream(Stream &a) : c(a.c), o(*a.o), id(objects + 1)
	{
		objects += Parts<IO>::n;
		for (int i = 0; i < Parts<IO>::n; ++i)
			Ev("same").i("o", a.id + i).i("to", id + i);
	}
	void in(const std::vector<IO> &x, const std::vector<T> &diff, bool heard = true)
	{
		std::vector<int> n;
		std::vector<IO> y;
		for (size_t i = 0; i < x.size(); ++i) {
			IO out[16];
			int k = (*o)(out, x[i], diff[i]);
			if (k < 0 || k > 16)
				k = 16;
			n.push_back(k);
			if (heard)
				y.insert(y.end(), out, out + k);
		}
		for (int p = 0; p < Parts<IO>::n; ++p)
			Ev(heard ? "in" : "skip").i("o", id + p).fs("x", part<IO, T>(x, p)).fs("diff", diff).is("n", n).fs("r", part<IO, T>(y, p));
	}
};
template <typename T, typename IO, int TAPS, int OVER>
void streams(Rng &r, int n)
{
	objects = 0;
	typedef Stream<T, IO, TAPS, OVER> S;
	S a(r);
	std::unique_ptr<S> b;
	for (int k = 0; k < n; ++k) {
		int len = k == 0 ? TAPS + 2 : r.range(1, TAPS / 2 + 12);
		std::vector<IO> x = signal<IO>(r, len);
		std::vector<T> d;
		bool same = r.below(2);
		T first = difference<T>(r, a.c.rate);
		for (int i = 0; i < len; ++i)
			d.push_back(same ? first : difference<T>(r, a.c.rate));
		a.in(x, d);
		if (k == n / 2)
			b.reset(new S(a));
		if (b)
			b->in(signal<IO>(r, 3), std::vector<T>(3, difference<T>(r, a.c.rate)));
	}
}
template <typename T, typename IO, int TAPS, int OVER>
void both(Rng &r, int f)
{
	for (int i = 0; i < f; ++i) {
		blocks<T, IO, TAPS, OVER>(r, 6);
		streams<T, IO, TAPS, OVER>(r, 5);
	}
}
template <typename T, typename C>
void all(Rng &r, int f, bool real)
{
	if (real) {
		// the position does not depend on the samples
		objects = 0;
		Config<T> four(r), seven(r);
		four.rate = 4;
		four.cutoff = 1;
		seven.rate = 7;
		seven.cutoff = 3;
		Stream<T, T, 2, 2> fours(four), sevens(seven);
		for (auto &s : scripts("resample")) {
			objects = 2;
			Stream<T, T, 2, 2> a(s[0].second >= 6000 ? sevens : fours);
			std::vector<T> x, d;
			for (auto &e : s) {
				if (e.first != "in")
					exit(79);
				x.push_back(T(x.size() + 1));
				d.push_back(T((e.second + 500) % 1000 - 500));
			}
			a.in(x, d);
		}
		both<T, T, 1, 2>(r, f);
		both<T, T, 1, 5>(r, f);
		both<T, T, 2, 1>(r, f);
		both<T, T, 2, 3>(r, f);
		both<T, T, 3, 4>(r, f);
		both<T, T, 4, 8>(r, f);
		both<T, T, 5, 3>(r, f);
	} else {
		both<T, C, 3, 2>(r, f);
		both<T, T, 8, 16>(r, f);
		both<T, T, 9, 5>(r, f);
		both<T, C, 10, 4>(r, f);
		both<T, T, 17, 8>(r, f);
		both<T, T, 33, 4>(r, f);
	}
}
// A long history
template <typename T>
void lasts(int salt)
{
	Rng r(salt);
	objects = 0;
	Config<T> c(r);
	c.rate = 8000;
	c.cutoff = 3000;
	Stream<T, T, 3, 2> a(c);
	for (int i = 0; i < lasting(); i += 500) {
		T d = T(r.range(-9, 9) * (r.below(3) ? 8 : 800));
		a.in(signal<T>(r, 20), std::vector<T>(20, d));
		for (int k = 0; k < 6; ++k)
			a.in(signal<T>(r, 80), std::vector<T>(80, d), false);
	}
}
int main()
{
	int f = thorough() ? 8 : 1;
	Rng r(1);
	shard("float1");
	all<float, DSP::Complex<float>>(r, f, true);
	shard("double1");
	all<double, DSP::Complex<double>>(r, f, true);
	shard("float2");
	all<float, DSP::Complex<float>>(r, f, false);
	shard("double2");
	all<double, DSP::Complex<double>>(r, f, false);
	shard("lasting");
	lasts<double>(2);
	shard("long");
	blocks<double, double, 2, 3>(r, 4, 2 * lasting() / 3);
	blocks<float, float, 3, 2>(r, 4, 3000);
	done();
	return 0;
}
