// FMD1 to FMD5
#include "h.hh"
#include "const.hh"
#include "complex.hh"
#include "fmd.hh"
using namespace H;

static int objects = 0;
template <typename T>
struct Any
{
	typedef DSP::Complex<T> C;
	virtual void bandwidth(T bw) = 0;
	virtual T in(C z) = 0;
	virtual ~Any() {}
};
template <typename T, typename M>
struct One : public Any<T>
{
	Obj<M> o;
	void bandwidth(T bw) override { o->bandwidth(bw); }
	T in(DSP::Complex<T> z) override { return (*o)(z); }
};
template <typename T>
struct Run
{
	typedef DSP::Complex<T> C;
	int id, kind;
	std::unique_ptr<Any<T>> o;
	static Any<T> *make(int k)
	{
		switch (k) {
		case 1: return new One<T, DSP::FMD1<C>>();
		case 2: return new One<T, DSP::FMD2<C>>();
		case 3: return new One<T, DSP::FMD3<C>>();
		case 4: return new One<T, DSP::FMD4<C>>();
		default: return new One<T, DSP::FMD5<C>>();
		}
	}
	Run(int k) : id(++objects), kind(k), o(make(k))
	{
		Ev("new").i("o", id).i("p", std::numeric_limits<T>::digits).i("kind", k);
	}
	void bandwidth(T bw) { o->bandwidth(bw); Ev("bandwidth").i("o", id).f("bw", bw); }
	void in(const std::vector<C> &x)
	{
		std::vector<T> a, r;
		for (C z : x) {
			r.push_back(o->in(z));
			a.push_back(z.real());
			a.push_back(z.imag());
		}
		Ev("in").i("o", id).fs("x", a).fs("r", r);
	}
	// without looking at the results; the last two samples
	void skip(const std::vector<C> &x)
	{
		for (C z : x)
			o->in(z);
		C a = x[x.size() - 2], b = x[x.size() - 1];
		Ev("skip").i("o", id).fs("x", std::vector<T>{a.real(), a.imag(), b.real(), b.imag()});
	}
};
template <typename T>
std::vector<DSP::Complex<T>> carrier(Rng &r, int n)
{
	std::vector<DSP::Complex<T>> x;
	int kind = r.below(6);
	double phase = r.real(-3, 3), step = r.real(-3.1, 3.1);
	double mag = std::ldexp(r.real(.5, 1), r.below(3) ? r.range(-4, 4) : r.range(-20, 30));
	double scale = r.below(4) ? 1 : std::ldexp(1, r.range(-20, 30));
	for (int i = 0; i < n; ++i) {
		double a = mag, p = phase;
		if (kind == 0)
			phase += step;
		if (kind == 1)
			phase += step / 50, a *= r.real(.5, 2);
		if (kind == 2)
			p = r.real(-4, 4), a = r.real(.1, 10) * scale;
		if (kind == 3)
			phase += 3.1 * std::sin(.3 * i);
		if (kind == 4)
			phase += i & 1 ? 2 : -2;
		if (kind == 5) {
			static const int re[] = {1, 1, 0, -1, -1, -1, 0, 1}, im[] = {0, 1, 1, 1, 0, -1, -1, -1};
			int k = r.below(8), m = r.range(1, 3);
			x.push_back(DSP::Complex<T>(T(m * re[k] * scale), T(m * im[k] * scale)));
			continue;
		}
		x.push_back(DSP::Complex<T>(T(a * std::cos(p)), T(a * std::sin(p))));
	}
	return x;
}
template <typename T>
void all(int salt, int f)
{
	typedef DSP::Complex<T> C;
	Rng r(salt);
	for (int k = 1; k <= 5; ++k)
		for (int i = 0; i < 4 * f; ++i) {
			Run<T> a(k);
			if (i % 4 == 1)
				a.in(carrier<T>(r, 3));
			for (int j = 0; j < 4; ++j) {
				if (j != 1)
					a.bandwidth(T(r.below(3) ? r.real(.001, 1) : 1. / r.range(1, 16)));
				a.in(carrier<T>(r, r.range(1, 25)));
			}
		}
	// the first samples
	for (int k = 1; k <= 5; ++k)
		for (C z : {C(1, 0), C(0, 1), C(-1, T(.5)), C(2, -2), C(T(-.5), T(-.25))}) {
			Run<T> a(k);
			a.bandwidth(1);
			a.in({z, C(z.imag(), z.real()), z, z});
		}
}
// A long history
template <typename T>
void lasts(int salt, int kind)
{
	Rng r(salt);
	Run<T> a(kind);
	a.bandwidth(T(.25));
	for (int i = 0; i < 3 * lasting(); i += 1000) {
		a.in(carrier<T>(r, 20));
		a.skip(carrier<T>(r, 980));
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, f);
	shard("double");
	all<double>(2, f);
	shard("lasting");
	for (int k = 1; k <= 5; ++k) {
		if (k & 1)
			lasts<float>(3, k);
		else
			lasts<double>(3, k);
	}
	done();
	return 0;
}
