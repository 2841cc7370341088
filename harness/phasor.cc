// Phasor
#include "h.hh"
#include "const.hh"
#include "complex.hh"
#include "phasor.hh"
using namespace H;

static int objects = 0;
template <typename T>
struct Run
{
	typedef DSP::Complex<T> C;
	int id;
	Obj<DSP::Phasor<C>> o;
	Run() : id(++objects) { Ev("new").i("o", id).i("p", std::numeric_limits<T>::digits); }
	void turn(int n, int N) { o->omega(n, N); Ev("turn").i("o", id).i("n", n).i("N", N); }
	void rad(T v) { o->omega(v); Ev("rad").i("o", id).f("v", v); }
	void freq(T v) { o->freq(v); Ev("freq").i("o", id).f("v", v); }
	void reset() { o->reset(); Ev("reset").i("o", id); }
	void call(int n)
	{
		std::vector<T> z;
		while (n--) {
			C c = (*o)();
			z.push_back(c.real());
			z.push_back(c.imag());
		}
		Ev("call").i("o", id).fs("z", z);
	}
	void skip(int n)
	{
		for (int i = 0; i < n; ++i)
			(*o)();
		Ev("skip").i("o", id).i("n", n);
	}
};
template <typename T>
void tune(Run<T> &a, Rng &r)
{
	switch (r.below(7)) {
	case 0: { int N = r.range(1, 40); a.turn(r.range(-N, N), N); break; }
	case 1: { int N = r.range(1, 100000); a.turn(r.range(-N, N), N); break; }
	case 2: a.rad(T(r.real(-3.2, 3.2))); break;
	case 3: a.rad(T(std::ldexp(r.real(-1, 1), -r.below(20)))); break;
	case 4: a.freq(T(r.real(-.5, .5))); break;
	case 5: a.freq(T(r.range(-16, 16)) / 16); break;
	case 6: a.rad(T(r.real(-50, 50))); break;
	}
}
template <typename T>
void history(int salt, int n)
{
	Rng r(salt);
	Run<T> a, b;
	a.call(2);
	for (int i = 0; i < n; ++i) {
		Run<T> &o = r.below(3) ? a : b;
		int w = r.below(10);
		if (w < 4)
			tune(o, r);
		else if (w < 5)
			o.reset();
		else if (w < 6)
			o.skip(r.range(1, 40));
		else
			o.call(r.range(1, 6));
	}
	a.call(2);
	b.call(2);
}
template <typename T>
void lasting(int salt, int n)
{
	Rng r(salt);
	Run<T> a;
	tune(a, r);
	a.call(20);
	for (int k = 10; k < n; k *= 3) {
		a.skip(k);
		a.call(3);
		if (k > n / 10)
			tune(a, r);
	}
	a.reset();
	a.call(4);
}
template <typename T>
void all(int salt, int f)
{
	for (auto &s : scripts("phasor")) {
		Run<T> a;
		for (auto &c : s)
			if (c.first == "turn")
				a.turn(c.second, 4);
			else if (c.first == "reset")
				a.reset();
			else if (c.first == "call")
				a.call(1);
			else
				exit(79);
		a.call(2);
	}
	for (int i = 0; i < 8 * f; ++i)
		history<T>(salt + i, 60);
	for (int i = 0; i < 4 * f; ++i)
		lasting<T>(salt + 500 + i, f > 1 ? 30000000 : 3000000);
	// a whole turn in N calls
	for (int N : {1, 2, 3, 5, 8, 12, 31}) {
		Run<T> a;
		a.turn(1, N);
		a.call(N + 1);
		a.reset();
		a.freq(T(1) / T(N));
		a.call(N + 1);
		a.reset();
		a.turn(-1, N);
		a.call(3);
		a.turn(0, N);
		a.call(2);
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	all<float>(1000, f);
	shard("double");
	all<double>(2000, f);
	done();
	return 0;
}
