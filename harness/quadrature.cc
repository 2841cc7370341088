// Hilbert, CDC
#include "h.hh"
#include "const.hh"
#include "complex.hh"
#include "hilbert.hh"
#include "cdc.hh"
using namespace H;

static int objects = 0;
template <typename T>
struct Any
{
	typedef DSP::Complex<T> C;
	virtual C in(const T *x) = 0;
	virtual ~Any() {}
};
template <typename T, typename M, int N>
struct Some : public Any<T>
{
	Obj<M> o;
	template <typename... A> Some(A &&... a) : o(std::forward<A>(a)...) {}
	DSP::Complex<T> in(const T *x) override
	{
		if constexpr (N == 1)
			return (*o)(x[0]);
		else
			return (*o)(x[0], x[1]);
	}
};
template <typename T>
struct Run
{
	int id, n;
	std::unique_ptr<Any<T>> o;
	Run(const char *kind, int taps, Any<T> *a, bool given, T v) : id(++objects), n(std::string(kind) == "cdc" ? 2 : 1), o(a)
	{
		Ev e("new");
		e.i("o", id).str("kind", kind).i("p", std::numeric_limits<T>::digits).i("T", taps);
		if (given)
			e.f("a", v);
	}
	void in(const std::vector<T> &x)
	{
		std::vector<T> re, im;
		for (size_t i = 0; i < x.size(); i += n) {
			DSP::Complex<T> z = o->in(x.data() + i);
			re.push_back(z.real());
			im.push_back(z.imag());
		}
		Ev("in").i("o", id).fs("x", x).fs("re", re).fs("im", im);
	}
};
template <typename T>
std::vector<T> input(Rng &r, int n)
{
	std::vector<T> x;
	int kind = r.below(4);
	double w = r.real(.1, 3), a = std::ldexp(1, r.below(3) ? r.range(-8, 8) : r.range(-60, 60));
	for (int i = 0; i < n; ++i)
		x.push_back(T(kind == 0 ? i == 0 : kind == 1 ? a * std::cos(w * i) : kind == 2 ? r.real(-a, a) : r.range(-9, 9)));
	return x;
}
template <typename T>
void drive(Run<T> a, Rng &r, int taps)
{
	// an impulse at both parities, and what comes after it
	std::vector<T> x(2 * ((2 * taps + 4) / 2), T(0));
	x[0] = 1;
	x[taps + 2] = -2;
	a.in(x);
	for (int i = 0; i < 3; ++i)
		a.in(input<T>(r, 2 * r.range(1, 20)));
	a.in(input<T>(r, 2 * taps));
}
template <typename T, int TAPS>
void taps(Rng &r)
{
	typedef DSP::Complex<T> C;
	typedef Some<T, DSP::Hilbert<C, TAPS>, 1> A;
	typedef Some<T, DSP::CDC<C, TAPS>, 2> B;
	drive(Run<T>("hilbert", TAPS, new A(), false, 0), r, TAPS);
	drive(Run<T>("cdc", TAPS, new B(), false, 0), r, TAPS);
	T a = T(r.real(0, 3));
	drive(Run<T>("hilbert", TAPS, new A(a), true, a), r, TAPS);
	drive(Run<T>("cdc", TAPS, new B(a), true, a), r, TAPS);
}
template <typename T>
void all(int salt, int f)
{
	Rng r(salt);
	for (int i = 0; i < f; ++i) {
		taps<T, 5>(r);
		taps<T, 9>(r);
		taps<T, 13>(r);
		taps<T, 17>(r);
		taps<T, 21>(r);
		taps<T, 33>(r);
		taps<T, 65>(r);
		taps<T, 129>(r);
		taps<T, 257>(r);
	}
}
// A long history
template <typename T>
void lasts(Run<T> a, Rng r)
{
	for (int i = 0; i < lasting(); i += 200)
		a.in(input<T>(r, 200));
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1, f);
	shard("double");
	all<double>(2, f);
	shard("lasting");
	lasts<float>({"hilbert", 9, new Some<float, DSP::Hilbert<DSP::Complex<float>, 9>, 1>(), false, 0}, 3);
	shard("lasting2");
	lasts<double>({"cdc", 9, new Some<double, DSP::CDC<DSP::Complex<double>, 9>, 2>(), false, 0}, 4);
	done();
	return 0;
}
