// Integrator and Differentiator on histories whose sums are exact
#include "h.hh"
#include "complex.hh"
#include "calculus.hh"
using namespace H;

static int next_id = 0;

template <typename T> std::vector<std::string> text(T v) { return {hex((long double)(v))}; }
template <typename T> std::vector<std::string> text(DSP::Complex<T> v) { return {hex((long double)(v.real())), hex((long double)(v.imag()))}; }
// bits of precision of histories which are not exact
static bool exact = true;
template <typename T> struct Prec { static int p() { return exact ? 0 : sizeof(T) == 4 ? 24 : 53; } };
void put(Ev &e, const char *k, const std::vector<std::string> &v)
{
	e.key(k);
	e.s += '[';
	for (size_t i = 0; i < v.size(); ++i) {
		if (i)
			e.s += ',';
		e.s += '"' + v[i] + '"';
	}
	e.s += ']';
}
template <typename T, typename D>
struct Run
{
	std::unique_ptr<Obj<D>> d;
	int o;
	Run(const char *kind) : d(new Obj<D>()), o(++next_id)
	{
		Ev e("new");
		e.i("o", o).str("kind", kind).i("p", Prec<T>::p());
		put(e, "start", text(T(0)));
	}
	Run(const char *kind, T start) : d(new Obj<D>(start)), o(++next_id)
	{
		Ev e("new");
		e.i("o", o).str("kind", kind).i("p", Prec<T>::p());
		put(e, "start", text(start));
	}
	T in(T x)
	{
		T r = (**d)(x);
		Ev e("call");
		e.i("o", o);
		put(e, "x", text(x));
		put(e, "r", text(r));
		return r;
	}
	// without looking at the results but the last: last input, sum of the inputs
	void skip(const std::vector<T> &x)
	{
		T r(0), sum(0);
		for (T v : x) {
			r = (**d)(v);
			sum += v;
		}
		Ev e("skip");
		e.i("o", o);
		put(e, "x", text(x.back()));
		put(e, "sum", text(sum));
		put(e, "r", text(r));
	}
};
// kind of values: integers of a range times a power of two
template <typename T> T value(Rng &r, long long top, double unit) { return T(double(r.range(-int(top), int(top))) * unit); }
template <typename T>
void history(int n, int salt, int top, double unit)
{
	Rng r(salt);
	Run<T, DSP::Integrator<T>> a("int"), b("int", value<T>(r, top, unit));
	Run<T, DSP::Differentiator<T>> c("diff"), d("diff", value<T>(r, top, unit)), e("diff");
	for (int i = 0; i < n; ++i) {
		T x = value<T>(r, top, unit);
		T s = a.in(x);
		b.in(value<T>(r, top, unit));
		c.in(x);
		if (r.below(2))
			d.in(value<T>(r, top, unit));
		e.in(s);
	}
}
template <typename T>
void complex_history(int n, int salt, int top, double unit)
{
	typedef DSP::Complex<T> C;
	Rng r(salt);
	Run<C, DSP::Integrator<C>> a("int"), b("int", C(value<T>(r, top, unit), value<T>(r, top, unit)));
	Run<C, DSP::Differentiator<C>> c("diff"), d("diff", C(value<T>(r, top, unit), value<T>(r, top, unit))), e("diff");
	for (int i = 0; i < n; ++i) {
		C x(value<T>(r, top, unit), value<T>(r, top, unit));
		C s = a.in(x);
		b.in(C(value<T>(r, top, unit), value<T>(r, top, unit)));
		c.in(x);
		d.in(s);
		e.in(s);
	}
}
// magnitudes that differ: each result is rounded
template <typename T>
void rounded(int n, int salt)
{
	Rng r(salt);
	Run<T, DSP::Differentiator<T>> c("diff"), d("diff", T(1e10));
	Run<T, DSP::Integrator<T>> a("int"), b("int", T(-1e10));
	for (int i = 0; i < n; ++i) {
		T x = T(std::ldexp(r.real(-1, 1), r.below(5) ? 0 : r.range(-30, 60)));
		if (r.below(4) == 0)
			x = T(r.range(-8, 8)) / 4;
		c.in(x);
		d.in(x);
		a.in(x);
		b.in(T(-x));
	}
}
// A long history
template <typename T>
void lasts(int salt)
{
	Rng r(salt);
	Run<T, DSP::Integrator<T>> a("int");
	Run<T, DSP::Differentiator<T>> b("diff");
	for (int i = 0; i < 3 * lasting(); i += 1000) {
		std::vector<T> x;
		for (int k = 0; k < 995; ++k)
			x.push_back(T(r.range(-20, 20)));
		a.skip(x);
		b.skip(x);
		for (int k = 0; k < 5; ++k) {
			a.in(x[k]);
			b.in(x[k]);
		}
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("calculus")) {
		Run<int, DSP::Integrator<int>> a("int", s[0].second), b("int", s[1].second);
		Run<int, DSP::Differentiator<int>> c("diff", s[0].second), d("diff", s[1].second);
		for (size_t i = 2; i < s.size(); ++i) {
			c.in(a.in(s[i].second));
			b.in(d.in(s[i].second));
		}
	}
	shard("numbers");
	history<int>(200 * f, 1, 100000, 1);
	history<short>(100, 2, 30, 1);
	history<long long>(200 * f, 3, 1000000000, 1);
	history<long long>(200 * f, 4, 1000000000, 1 << 20);
	history<float>(200 * f, 5, 1000, 1. / 64);
	history<float>(150, 6, 10000, 1024);
	history<double>(200 * f, 7, 1000000000, 1. / 1024);
	history<double>(200 * f, 8, 1000000000, 1. / (1 << 30));
	history<float>(100, 9, 30000, 1.0842021724855044e-19);
	history<int>(100, 12, 1, 1);
	shard("rounded");
	exact = false;
	rounded<float>(400 * f, 20);
	rounded<double>(400 * f, 21);
	exact = true;
	shard("complex");
	complex_history<float>(200 * f, 10, 1000, 1. / 64);
	complex_history<double>(200 * f, 11, 1000000000, 1. / 64);
	shard("lasting");
	lasts<int>(30);
	lasts<float>(31);
	lasts<double>(32);
	lasts<DSP::Complex<float>>(33);
	done();
	return 0;
}
