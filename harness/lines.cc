// Estimators of lines: -DROBUST for Theil-Sen and repeated median, otherwise regression
#include "h.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"
#include "regression.hh"
using namespace H;

template <typename T> struct Prec { static const int p = sizeof(T) == 4 ? 24 : 53; };
template <typename T, typename E>
void result(Ev &e, E &est, Rng &r, bool xint = true)
{
	std::vector<T> at = {T(0), T(1), T(r.range(-50, 50)), T(r.real(-100, 100))}, val;
	for (T x : at)
		val.push_back(est(x));
	T slope = est.slope(), yint = est.yint(), xi = est.xint();
	e.i("p", Prec<T>::p).f("slope", slope).f("yint", yint).fs("at", at).fs("val", val);
	if (xint && slope != 0)
		e.f("xint", xi);
}
template <typename T> struct Points { std::vector<T> x, y; bool integral; };

template <typename T>
Points<T> points(Rng &r, int n, int kind)
{
	Points<T> p;
	p.integral = kind % 2 == 0;
	T a = r.range(-20, 20), b = r.range(-5, 5);
	for (int i = 0; i < n; ++i) {
		T x, y;
		switch (kind) {
		case 0: x = r.range(-50, 50); y = r.range(-900, 900); break;
		case 1: x = T(r.range(-5000, 5000)) / 64; y = T(r.real(-10, 10)); break;
		case 2: x = r.range(-3, 3); y = r.range(-9, 9); break;
		case 3: x = T(i) / 8 - 1; y = a + b * x + T(r.real(-1, 1)) * (r.below(4) == 0 ? 100 : 1); break;
		case 4: x = 10 - i; y = a + b * x; break;
		case 5: x = T(r.range(0, 8)) / 4; y = T(r.range(-100, 100)) / 16; break;
		case 6: x = i - n / 2; y = a + b * x + (r.below(3) == 0 ? r.range(-500, 500) : 0); break;
		case 7: x = T(1000) + T(i) / 2; y = T(r.real(0, 1)); break;
		}
		if (sizeof(T) == 4 && !p.integral)
			y = std::nearbyint(y * 65536) / 65536;
		p.x.push_back(x);
		p.y.push_back(std::ldexp(std::nearbyint(std::ldexp(y, 40)), -40));
	}
	// at least two different abscissas
	bool differ = false;
	for (T x : p.x)
		differ |= x != p.x[0];
	if (!differ)
		p.x[0] += 1;
	return p;
}
#ifdef ROBUST
template <typename T, typename E>
void use(const char *name, E &e, const Points<T> &p, Rng &r, int cap = 0)
{
	// in arrays of exactly that length
	int n = p.x.size();
	std::unique_ptr<T[]> x(new T[n]), y(new T[n]);
	std::copy(p.x.begin(), p.x.end(), x.get());
	std::copy(p.y.begin(), p.y.end(), y.get());
	e.compute(x.get(), y.get(), n);
	bool kept = std::equal(p.x.begin(), p.x.end(), x.get()) && std::equal(p.y.begin(), p.y.end(), y.get());
	Ev v(name);
	v.fs("x", p.x).fs("y", p.y).b("kept", kept).b("integral", p.integral);
	if (cap)
		v.i("cap", cap);
	result<T>(v, e, r);
}
template <typename E> void start(E &e)
{
	std::vector<double> val = {double(e(0)), double(e(3))};
	Ev("zero").f("slope", e.slope()).f("yint", e.yint()).f("xint", e.xint()).fs("val", val);
}
template <typename T, int MAX>
void all(int salt, int rounds, std::vector<int> sizes)
{
	Rng r(salt);
	Obj<DSP::TheilSenEstimator<T, MAX>> a;
	Obj<DSP::RepeatedMedianEstimator<T, MAX>> b;
	Obj<DSP::RepeatedMedianEstimator2<T, MAX>> c;
	start(*a);
	start(*b);
	start(*c);
	for (int i = 0; i < rounds; ++i)
		for (int n : sizes)
			for (int kind = 0; kind < 8; ++kind) {
				Points<T> p = points<T>(r, n, kind);
				use("theil", *a, p, r);
				use("rm1", *b, p, r);
				use("rm2", *c, p, r);
			}
}
template <typename T, int MAX>
void many(int salt, std::vector<int> sizes)
{
	Rng r(salt);
	Obj<DSP::TheilSenEstimator<T, MAX>> a;
	Obj<DSP::RepeatedMedianEstimator<T, MAX>> b;
	Obj<DSP::RepeatedMedianEstimator2<T, MAX>> c;
	for (int n : sizes) {
		Points<T> p = points<T>(r, n, 1);
		use("theil", *a, p, r);
		use("rm1", *b, p, r);
		use("rm2", *c, p, r);
	}
}
#ifdef BEYOND
// More points than fit, and fewer again
template <typename T, int MAX>
void beyond(int salt, int rounds)
{
	Rng r(salt);
	Obj<DSP::TheilSenEstimator<T, MAX>> a;
	Obj<DSP::RepeatedMedianEstimator<T, MAX>> b;
	Obj<DSP::RepeatedMedianEstimator2<T, MAX>> c;
	for (int i = 0; i < rounds; ++i)
		for (int n : {MAX + 1, MAX, MAX + 2, 2 * MAX, max(2, MAX - 1), 3 * MAX + 1, 60 + MAX})
			for (int kind = 0; kind < 8; ++kind) {
				Points<T> p = points<T>(r, n, kind);
				// different ones among those that fit
				if (p.x[1] == p.x[0])
					p.x[1] += 1;
				use("theil", *a, p, r, MAX);
				use("rm1", *b, p, r, MAX);
				use("rm2", *c, p, r, MAX);
			}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	{
		Rng r(1);
		int k = 0;
		Obj<DSP::TheilSenEstimator<float, 4>> a;
		Obj<DSP::RepeatedMedianEstimator<float, 4>> b;
		Obj<DSP::RepeatedMedianEstimator2<float, 4>> c;
		for (auto &s : scripts("beyond")) {
			Points<float> p;
			p.integral = true;
			for (auto &q : s) {
				p.x.push_back(q.second);
				p.y.push_back((q.second * 7 + int(p.x.size()) * 5) % 11);
			}
			if (++k % 3 == 0)
				use("theil", *a, p, r, 4);
			else if (k % 3 == 1)
				use("rm1", *b, p, r, 4);
			else
				use("rm2", *c, p, r, 4);
		}
	}
	shard("float");
	beyond<float, 2>(2, f);
	beyond<float, 3>(3, f);
	beyond<float, 5>(4, f);
	beyond<float, 12>(5, f);
	shard("double");
	beyond<double, 4>(6, f);
	beyond<double, 7>(7, f);
	beyond<double, 8>(8, f);
	beyond<double, 20>(9, f);
	done();
	return 0;
}
#else
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	{
		Rng r(1);
		int k = 0;
		Obj<DSP::TheilSenEstimator<float, 5>> a;
		Obj<DSP::RepeatedMedianEstimator<float, 5>> b;
		Obj<DSP::RepeatedMedianEstimator2<float, 5>> c;
		for (auto &s : scripts("lines")) {
			Points<float> p;
			p.integral = true;
			for (auto &q : s)
				(q.first == "x" ? p.x : p.y).push_back(q.second);
			if (++k % 3 == 0)
				use("theil", *a, p, r);
			else if (k % 3 == 1)
				use("rm1", *b, p, r);
			else
				use("rm2", *c, p, r);
		}
	}
	shard("tiny");
	all<float, 2>(2, 4 * f, {2});
	all<double, 3>(3, 4 * f, {2, 3});
	all<float, 4>(4, 4 * f, {4, 3, 2});
	all<double, 6>(5, 3 * f, {6, 5, 4, 3, 2});
	shard("float");
	all<float, 12>(6, 2 * f, {12, 7, 11, 8, 2, 9});
	all<float, 40>(7, f, {40, 25, 33, 10});
	shard("double");
	all<double, 20>(8, 2 * f, {13, 20, 6, 19});
	all<double, 70>(9, f, {70, 35, 36});
	// more pairs than 32767, and 65535
	shard("many");
	many<double, 270>(10, {270, 258, 6});
	shard("more");
	many<float, 370>(11, {370, 7});
	done();
	return 0;
}
#endif
#else
template <typename T>
void regress(const Points<T> &p, Rng &r)
{
	int n = p.x.size();
	std::unique_ptr<T[]> x(new T[n]), y(new T[n]);
	std::copy(p.x.begin(), p.x.end(), x.get());
	std::copy(p.y.begin(), p.y.end(), y.get());
	Obj<DSP::SimpleLinearRegression<T>> e((const T *)x.get(), (const T *)y.get(), n);
	bool kept = std::equal(p.x.begin(), p.x.end(), x.get()) && std::equal(p.y.begin(), p.y.end(), y.get());
	Ev v("reg");
	v.fs("x", p.x).fs("y", p.y).b("kept", kept).f("xint", e->xint());
	result<T>(v, *e, r, false);
}
template <typename T>
void spaced(const std::vector<T> &ys, T x0, T dx, int args, Rng &r)
{
	int n = ys.size();
	std::unique_ptr<T[]> y(new T[n]);
	std::copy(ys.begin(), ys.end(), y.get());
	typedef DSP::SimpleLinearRegression<T> R;
	std::unique_ptr<R> e(args == 0 ? new R(y.get(), n) : args == 1 ? new R(y.get(), n, x0) : new R(y.get(), n, x0, dx));
	bool kept = std::equal(ys.begin(), ys.end(), y.get());
	Ev v("regu");
	v.fs("y", ys).f("x0", args > 0 ? x0 : T(0)).f("dx", args > 1 ? dx : T(1)).b("kept", kept).f("xint", e->xint());
	result<T>(v, *e, r, false);
}
template <typename T>
void all(int salt, int rounds)
{
	Rng r(salt);
	{
		Obj<DSP::SimpleLinearRegression<T>> z;
		std::vector<T> val = {(*z)(T(0)), (*z)(T(5)), (*z)(T(-2.5))};
		Ev("zero").f("slope", z->slope()).f("yint", z->yint()).f("xint", z->xint()).fs("val", val);
	}
	for (int i = 0; i < rounds; ++i)
		for (int n : {2, 3, 4, 5, 7, 10, 33, 100, 255, 257, 400})
			for (int kind = 0; kind < 7; ++kind) {
				Points<T> p = points<T>(r, n, kind);
				if (n < 40 || kind != 5)
					regress(p, r);
				T x0 = T(r.range(-80, 80)) / 8, dx = T(r.range(1, 40)) / 16;
				if (r.below(2))
					dx = -dx;
				spaced(p.y, x0, dx, r.below(4), r);
			}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, 2 * f);
	shard("double");
	all<double>(2, 2 * f);
	// as many points that their number squared or cubed leaves the range of an integer
	shard("many");
	Rng r(3);
	for (int n : {1024, 1291, 2000, 5000})
		for (int kind : {1, 3, 6}) {
			Points<float> p = points<float>(r, n, kind);
			Points<double> q = points<double>(r, n, kind);
			regress(p, r);
			regress(q, r);
			spaced(p.y, 3.5f, 0.25f, kind == 3, r);
			spaced(q.y, 3.5, -0.25, kind == 3 ? 1 : 2, r);
		}
	shard("huge");
	for (int n : {40000, 70000}) {
		Points<double> q = points<double>(r, n, 6);
		regress(q, r);
		spaced(q.y, -7., 0.5, 2, r);
	}
	done();
	return 0;
}
#endif
