// UniformNaturalCubicSpline, CubicHermiteSpline
#include "parts.hh"
#include "spline.hh"
using namespace H;

template <typename O, typename I>
struct Any
{
	virtual O at(I x) = 0;
	virtual ~Any() {}
};
template <int K, typename O, typename I>
struct Some : public Any<O, I>
{
	Obj<DSP::UniformNaturalCubicSpline<K, O, I>> s;
	template <typename... A> Some(A &&... a) : s(std::forward<A>(a)...) {}
	O at(I x) override { return (*s)(x); }
};
template <typename O>
std::vector<O> values(Rng &r, int n)
{
	std::vector<O> y;
	int kind = r.below(6);
	double a = r.real(-2, 2), b = r.real(-2, 2), scale = r.below(3) ? 1 : std::ldexp(1, r.range(-30, 40));
	for (int i = 0; i < n; ++i) {
		double u, v = r.real(-1, 1);
		switch (kind) {
		case 0: u = a * i + b, v = b * i - a; break;		// a line
		case 1: u = r.real(-1, 1); break;
		case 2: u = i == n / 2; break;
		case 3: u = r.range(-5, 5); break;
		case 4: u = 100 * std::sin(.4 * i); break;
		default: u = i == 0 ? 1 : i == n - 1 ? -1 : 0;
		}
		y.push_back(Parts<O>::make(u * scale, v * scale));
	}
	return y;
}
template <typename I>
std::vector<I> positions(Rng &r, int n, I x0, I dx)
{
	std::vector<I> x;
	for (int i = 0; i < 24; ++i) {
		double p;
		switch (i % 6) {
		case 0: p = r.below(n); break;
		case 1: p = r.below(2 * n) / 2.; break;
		case 2: p = r.real(-1.5, 0); break;
		case 3: p = r.real(n - 1, n + .5); break;
		case 4: p = r.below(4) ? r.real(0, n - 1) : r.real(-4, n + 4); break;
		default: p = i < 6 ? 0 : i < 12 ? n - 1 : r.below(n) + (r.below(2) ? 1 : -1) * std::ldexp(1, -r.range(4, 30));
		}
		x.push_back(I(x0 + p * dx));
	}
	return x;
}
template <typename O, typename I>
void put(Ev &e, const char *k, const std::vector<O> &v, int part)
{
	std::vector<I> w;
	for (O z : v)
		w.push_back(Parts<O>::get(z, part));
	e.fs(k, w);
}
static bool slow;
template <int K, typename O, typename I>
void natural(Rng &r)
{
	for (int j = 0; j < (slow ? 6 : 2); ++j) {
		int stride = j == 0 ? 1 : r.range(1, 4);
		std::vector<O> y = values<O>(r, K), w((K - 1) * stride + 1, Parts<O>::make(1e6, -1e6));
		for (int i = 0; i < K; ++i)
			w[i * stride] = y[i];
		// by default from zero at a distance of one
		bool plain = stride == 1 && r.below(2);
		I x0 = plain ? I(0) : I(r.below(2) ? r.real(-10, 10) : r.range(-3, 3)), dx = plain ? I(1) : I(r.below(3) ? r.real(.01, 3) : 1. / r.range(1, 8));
		if (!plain && r.below(3) == 0) {
			I scale = I(std::ldexp(1, r.range(-30, 40)));
			x0 *= scale;
			dx *= scale;
		}
		std::unique_ptr<Any<O, I>> s;
		if (plain)
			s.reset(new Some<K, O, I>(w.data()));
		else if (stride == 1 && r.below(2))
			s.reset(new Some<K, O, I>(w.data(), x0, dx));
		else
			s.reset(new Some<K, O, I>(w.data(), x0, dx, stride));
		// the values are not needed any longer
		std::fill(w.begin(), w.end(), Parts<O>::make(-3, 3));
		std::vector<I> x = positions<I>(r, K, x0, dx);
		std::vector<O> v;
		for (I t : x)
			v.push_back(s->at(t));
		for (int part = 0; part < Parts<O>::n; ++part) {
			Ev e("natural");
			e.i("p", std::numeric_limits<I>::digits).f("x0", x0).f("dx", dx);
			put<O, I>(e, "y", y, part);
			e.fs("x", x);
			put<O, I>(e, "r", v, part);
		}
	}
}
template <typename O, typename I, int... K>
void naturals(Rng &r, std::integer_sequence<int, K...>)
{
	int t[] = {(natural<K + 2, O, I>(r), 0)...};
	(void)t;
}
template <typename O, typename I>
void hermite(Rng &r, int n)
{
	typedef DSP::CubicHermiteSpline<O, I> S;
	std::vector<O> y = values<O>(r, n), v;
	std::vector<I> X, x;
	int kind = r.below(3);
	double at = r.real(-5, 5), scale = r.below(3) ? 1 : std::ldexp(1, r.range(-30, 40));
	for (int i = 0; i < n; ++i) {
		X.push_back(I(at * scale));
		at += kind == 0 ? 1 : kind == 1 ? r.real(.1, 2) : std::ldexp(1, r.range(-4, 2));
	}
	for (int i = 0; i < 24; ++i) {
		int k = r.below(n - 1);
		switch (i % 6) {
		case 0: x.push_back(X[r.below(n)]); break;
		case 1: x.push_back((X[k] + X[k+1]) / 2); break;
		case 2: x.push_back(I(X[0] - r.real(0, 1.5) * (X[1] - X[0]))); break;
		case 3: x.push_back(I(X[n-1] + r.real(0, 1.5) * (X[n-1] - X[n-2]))); break;
		case 4: x.push_back(I(r.real(X[0], X[n-1]))); break;
		default: x.push_back(i < 6 ? X[0] : i < 12 ? X[n-1] : std::nextafter(X[k], r.below(2) ? I(-1e30) : I(1e30)));
		}
	}
	// exactly as many as there are
	std::unique_ptr<I[]> cx(new I[n]);
	std::unique_ptr<O[]> cy(new O[n]);
	std::copy(X.begin(), X.end(), cx.get());
	std::copy(y.begin(), y.end(), cy.get());
	for (I t : x)
		v.push_back(S::eval(cx.get(), cy.get(), t, n));
	for (int part = 0; part < Parts<O>::n; ++part) {
		Ev e("hermite");
		e.i("p", std::numeric_limits<I>::digits);
		e.fs("at", X);
		put<O, I>(e, "y", y, part);
		e.fs("x", x);
		put<O, I>(e, "r", v, part);
	}
	for (int j = 0; j < 3; ++j) {
		I x0 = j == 0 ? I(0) : I(r.real(-10, 10)), dx = j < 2 ? I(1) : I(r.below(3) ? r.real(.01, 3) : 1. / r.range(1, 8));
		if (j == 2) {
			x0 *= I(scale);
			dx *= I(scale);
		}
		x = positions<I>(r, n, x0, dx);
		v.clear();
		for (I t : x)
			v.push_back(j == 0 ? S::eval(cy.get(), t, n) : j == 1 ? S::eval(cy.get(), t, n, x0) : S::eval(cy.get(), t, n, x0, dx));
		for (int part = 0; part < Parts<O>::n; ++part) {
			Ev e("uniform");
			e.i("p", std::numeric_limits<I>::digits);
			if (j > 0)
				e.f("x0", x0);
			if (j > 1)
				e.f("dx", dx);
			put<O, I>(e, "y", y, part);
			e.fs("x", x);
			put<O, I>(e, "r", v, part);
		}
	}
}
template <typename O, typename I>
void hermites(Rng &r, int f)
{
	for (int k = 0; k < f; ++k) {
		for (int n = 3; n < 24; ++n)
			hermite<O, I>(r, n);
		for (int n : {3, 4, 5, 33, 64, 129, 300})
			hermite<O, I>(r, n);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	slow = f > 1;
	Rng r(1);
#ifdef HERMITE
	shard("float");
	hermites<float, float>(r, f);
	shard("double");
	hermites<double, double>(r, f);
	shard("complex");
	hermites<DSP::Complex<float>, float>(r, f);
	hermites<DSP::Complex<double>, double>(r, f);
#else
	typedef std::make_integer_sequence<int, 22> Short;
	typedef std::integer_sequence<int, 30, 62, 63, 98, 127, 255> Long;
	shard("float");
	naturals<float, float>(r, Short());
	naturals<float, float>(r, Long());
	shard("double");
	naturals<double, double>(r, Short());
	naturals<double, double>(r, Long());
	shard("complex");
	naturals<DSP::Complex<float>, float>(r, std::integer_sequence<int, 0, 1, 2, 3, 6, 14>());
	naturals<DSP::Complex<double>, double>(r, std::integer_sequence<int, 0, 1, 2, 3, 6, 14>());
#endif
	done();
	return 0;
}
