// Complex
#include "h.hh"
#include "complex.hh"
using namespace H;

template <typename T> struct Kind { static const int p = 0; };
template <> struct Kind<float> { static const int p = 24; };
template <> struct Kind<double> { static const int p = 53; };
template <typename T> T opaque(T x) { asm volatile("" : "+m"(x)); return x; }
template <typename T> using C = DSP::Complex<T>;
template <typename T> using Vec = std::vector<C<T>>;
template <typename T> void put(Ev &e, const char *k, const std::vector<T> &v)
{
	if constexpr (Kind<T>::p == 0)
		e.is(k, v);
	else
		e.fs(k, v);
}
template <typename T> void put(Ev &e, const char *k, const Vec<T> &v)
{
	std::vector<T> w;
	for (C<T> z : v) {
		w.push_back(z.real());
		w.push_back(z.imag());
	}
	put(e, k, w);
}
static int scale;			// all values are multiples of 2^-scale
template <typename T>
void op(const char *name, const Vec<T> &a, const Vec<T> &b, const std::function<C<T>(C<T>, C<T>)> &f)
{
	Vec<T> r;
	for (size_t i = 0; i < a.size(); ++i)
		r.push_back(f(opaque(a[i]), opaque(b[i])));
	Ev e("op");
	e.str("op", name).i("p", Kind<T>::p).i("k", scale);
	put(e, "a", a);
	put(e, "b", b);
	put(e, "r", r);
}
// A compound assignment: what it leaves in its destination, and what it returned
template <typename T>
void compound(const char *name, const Vec<T> &a, const Vec<T> &b, const std::function<C<T>(C<T> &, C<T>)> &f)
{
	Vec<T> r, s;
	for (size_t i = 0; i < a.size(); ++i) {
		C<T> z = opaque(a[i]);
		s.push_back(f(z, opaque(b[i])));
		r.push_back(z);
	}
	{
		Ev e("op");
		e.str("op", name).i("p", Kind<T>::p).i("k", scale);
		// the scaled one is the second operand
		bool swap = std::string(name) == "scale";
		put(e, "a", swap ? b : a);
		put(e, "b", swap ? a : b);
		put(e, "r", r);
	}
	Ev e("same");
	e.i("p", Kind<T>::p).i("k", scale);
	put(e, "assigned", r);
	put(e, "returned", s);
}
template <typename T>
void all(const Vec<T> &a, const Vec<T> &b)
{
	typedef C<T> Z;
	op<T>("add", a, b, [](Z x, Z y) { return x + y; });
	op<T>("sub", a, b, [](Z x, Z y) { return x - y; });
	op<T>("neg", a, b, [](Z x, Z) { return -x; });
	op<T>("pos", a, b, [](Z x, Z) { return +x; });
	op<T>("conj", a, b, [](Z x, Z) { return conj(x); });
	op<T>("mul", a, b, [](Z x, Z y) { return x * y; });
	op<T>("scale", a, b, [](Z x, Z y) { return x.real() * y; });
	op<T>("real", a, b, [](Z x, Z) { return Z(x.real()); });
	op<T>("zero", a, b, [](Z, Z) { return Z(); });
	op<T>("pair", a, b, [](Z x, Z y) { return Z(x.real(), y.imag()); });
	op<T>("setre", a, b, [](Z x, Z y) { x.real(y.real()); return x; });
	op<T>("setim", a, b, [](Z x, Z y) { x.imag(y.imag()); return x; });
	compound<T>("add", a, b, [](Z &x, Z y) { return x += y; });
	compound<T>("sub", a, b, [](Z &x, Z y) { return x -= y; });
	compound<T>("mul", a, b, [](Z &x, Z y) { return x *= y; });
	compound<T>("scale", a, b, [](Z &x, Z y) { return x *= y.real(); });
	compound<T>("add", a, a, [](Z &x, Z) { return x += x; });
	compound<T>("sub", a, a, [](Z &x, Z) { return x -= x; });
	compound<T>("mul", a, a, [](Z &x, Z) { return x *= x; });
	compound<T>("real", a, b, [](Z &x, Z) { return x = x.real(); });
	{
		std::vector<int> eq, ne;
		Vec<T> c(b);
		for (size_t i = 0; i < c.size(); ++i) {
			if (i % 4 == 0)
				c[i] = a[i];
			if (i % 4 == 1)
				c[i] = Z(a[i].real(), c[i].imag());
			if (i % 4 == 2)
				c[i] = Z(c[i].real(), a[i].imag());
			// next to each other
			if constexpr (Kind<T>::p != 0) {
				if (i % 8 == 3)
					c[i] = Z(a[i].real(), std::nextafter(a[i].imag(), T(0)));
				if (i % 8 == 7)
					c[i] = Z(std::nextafter(a[i].real(), T(0)), a[i].imag());
			}
			eq.push_back(opaque(a[i]) == opaque(c[i]));
			ne.push_back(opaque(a[i]) != opaque(c[i]));
		}
		Ev e("eq");
		e.i("p", Kind<T>::p).i("k", scale);
		put(e, "a", a);
		put(e, "b", c);
		e.is("eq", eq).is("ne", ne);
	}
	std::vector<T> n;
	for (Z z : a)
		n.push_back(norm(opaque(z)));
	if constexpr (Kind<T>::p == 0) {
		Ev e("norm");
		e.i("p", 0);
		put(e, "a", a);
		put(e, "norm", n);
	} else {
		op<T>("div", a, b, [](Z x, Z y) { return x / y; });
		op<T>("rdiv", a, b, [](Z x, Z y) { return x.real() / y; });
		op<T>("divr", a, b, [](Z x, Z y) { return x / y.real(); });
		compound<T>("div", a, b, [](Z &x, Z y) { return x /= y; });
		compound<T>("divr", a, b, [](Z &x, Z y) { return x /= y.real(); });
		compound<T>("div", a, a, [](Z &x, Z) { return x /= x; });
		compound<T>("divr", a, a, [](Z &x, Z) { return x /= x.real(); });
		std::vector<T> m, g;
		for (Z z : a) {
			m.push_back(abs(opaque(z)));
			g.push_back(arg(opaque(z)));
		}
		Ev e("polar");
		e.i("p", Kind<T>::p).i("k", scale);
		put(e, "a", a);
		put(e, "norm", n);
		put(e, "abs", m);
		put(e, "arg", g);
	}
}
template <typename T>
void integers(int salt, int top, int f)
{
	Rng r(salt);
	scale = 0;
	for (int k = 0; k < 4 * f; ++k) {
		Vec<T> a, b;
		for (int i = 0; i < 40; ++i) {
			int t = i % 4 == 0 ? 2 : top;
			a.push_back(C<T>(r.range(-t, t), r.range(-t, t)));
			b.push_back(C<T>(r.range(-t, t), r.range(-t, t)));
		}
		all<T>(a, b);
	}
}
template <typename T>
void reals(int salt, int f)
{
	Rng r(salt);
	const int top = sizeof(T) == 4 ? 40 : 200;
	for (int k = 0; k < 6 * f; ++k) {
		Vec<T> a, b;
		int range = k % 3 == 0 ? 0 : k % 3 == 1 ? 10 : top;
		scale = 2 * range + 400;
		auto one = [&] {
			double s = std::ldexp(1., r.range(-range, range));
			int w = r.below(8);
			double x = r.real(.5, 1) * (r.below(2) ? 1 : -1), y = r.real(.5, 1) * (r.below(2) ? 1 : -1);
			if (w == 0)
				y = std::ldexp(y, -r.below(20));
			if (w == 1)
				x = std::ldexp(x, -r.below(20));
			if (w == 4 && range == 0)
				(r.below(2) ? x : y) *= std::ldexp(1., -r.below(45));
			if (w == 2)
				x = std::round(4 * x), y = std::round(4 * y);
			if (w == 3)
				y = x;
			return C<T>(T(x * s), T(y * s));
		};
		for (int i = 0; i < 40; ++i) {
			a.push_back(one());
			b.push_back(one());
		}
		all<T>(a, b);
	}
	for (int k = 0; k < 4 * f; ++k) {
		std::vector<T> m, g;
		Vec<T> v;
		for (int i = 0; i < 40; ++i) {
			m.push_back(T(i % 3 ? r.real(0, 2) : std::ldexp(r.real(-1, 1), r.range(-20, 20))));
			g.push_back(T(i % 5 == 0 ? 0 : i % 5 == 1 ? r.real(-.1, .1) : r.real(-10, 10)));
			v.push_back(DSP::polar(opaque(m.back()), opaque(g.back())));
		}
		Ev e("frompolar");
		e.i("p", Kind<T>::p).fs("mag", m).fs("ang", g);
		put(e, "r", v);
	}
}
template <typename T>
void axes()
{
	scale = 200;
	Vec<T> a, b;
	for (int x : {-2, -1, 1, 2})
		for (int y : {-3, -1, 1, 3}) {
			a.push_back(C<T>(x, y));
			b.push_back(C<T>(y, x));
		}
	all<T>(a, b);
	// zeros
	Vec<T> z, u;
	for (int i = 0; i < 4; ++i) {
		z.push_back(C<T>(i & 1, i & 2));
		u.push_back(C<T>());
	}
	op<T>("add", z, u, [](C<T> x, C<T> y) { return x + y; });
	op<T>("sub", u, z, [](C<T> x, C<T> y) { return x - y; });
	op<T>("mul", z, u, [](C<T> x, C<T> y) { return x * y; });
	op<T>("pos", u, z, [](C<T>, C<T>) { return C<T>(); });
	constexpr C<T> p(3, 4), q = p * C<T>(2, -1) + conj(p) - C<T>(1);
	static_assert(q == C<T>(12, 1), "");
	op<T>("mul", {p}, {C<T>(2, -1)}, [](C<T>, C<T>) { constexpr C<T> r = C<T>(3, 4) * C<T>(2, -1); return r; });
}
template <typename T>
void program(const std::vector<std::pair<std::string, int>> &s)
{
	C<T> x[2] = {C<T>(1, 2), C<T>(-3, 1)};
	std::vector<std::string> ops;
	std::vector<int> dst, arg, re, im;
	for (auto &c : s) {
		std::string o = c.first;
		int d, k = c.second;
		if (o == "add" || o == "sub" || o == "mul") {
			d = k / 10;
			k %= 10;
		} else if (o == "conj" || o == "neg") {
			d = k;
			k = 0;
		} else {
			d = o.back() - '0';
			o.pop_back();
		}
		C<T> &z = x[d-1];
		if (o == "add")
			z += x[k-1];
		else if (o == "sub")
			z -= x[k-1];
		else if (o == "mul")
			z *= x[k-1];
		else if (o == "mulr")
			z *= T(k);
		else if (o == "set")
			z = T(k);
		else if (o == "re")
			z.real(k);
		else if (o == "im")
			z.imag(k);
		else if (o == "conj")
			z = conj(z);
		else if (o == "neg")
			z = -z;
		else
			exit(79);
		ops.push_back(o);
		dst.push_back(d);
		arg.push_back(k);
		re.push_back(int(z.real()));
		im.push_back(int(z.imag()));
	}
	Ev e("prog");
	e.key("ops");
	e.s += '[';
	for (size_t i = 0; i < ops.size(); ++i)
		e.s += (i ? ",\"" : "\"") + ops[i] + '"';
	e.s += ']';
	e.is("dst", dst).is("arg", arg).is("re", re).is("im", im);
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("ints");
	integers<int>(1, 30000, f);
	integers<int>(2, 5, f);
	integers<short>(3, 120, f);
	integers<long long>(4, 30000, f);
	shard("float");
	reals<float>(5, f);
	axes<float>();
	shard("double");
	reals<double>(6, f);
	axes<double>();
	auto ss = scripts("complex");
	for (int k = 0; k < 4; ++k) {
		shard("programs" + std::to_string(k));
		for (size_t i = k; i < ss.size(); i += 4) {
			if (i / 4 % 3 == 0)
				program<int>(ss[i]);
			else if (i / 4 % 3 == 1)
				program<float>(ss[i]);
			else
				program<double>(ss[i]);
		}
	}
	done();
	return 0;
}
