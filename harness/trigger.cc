// Schmitt and edge triggers
#include "h.hh"
#include "trigger.hh"
using namespace H;

static int next_id = 0;

template <typename T> const int bits() { return std::numeric_limits<T>::digits; }

template <typename T>
struct Level
{
	std::unique_ptr<Obj<DSP::SchmittTrigger<T>>> d;
	int o;
	Level() : d(new Obj<DSP::SchmittTrigger<T>>()), o(++next_id)
	{
		Ev("new").i("o", o).str("kind", "schmitt0").b("on", false).i("p", bits<T>());
	}
	Level(T t, int on) : o(++next_id)
	{
		if (on < 0)
			d.reset(new Obj<DSP::SchmittTrigger<T>>(t));
		else
			d.reset(new Obj<DSP::SchmittTrigger<T>>(t, bool(on)));
		Ev("new").i("o", o).str("kind", "schmitt1").b("on", on > 0).f("hi", double(t));
	}
	Level(T lo, T hi, int on) : o(++next_id)
	{
		if (on < 0)
			d.reset(new Obj<DSP::SchmittTrigger<T>>(lo, hi));
		else
			d.reset(new Obj<DSP::SchmittTrigger<T>>(lo, hi, bool(on)));
		Ev("new").i("o", o).str("kind", "schmitt2").b("on", on > 0).f("lo", double(lo)).f("hi", double(hi));
	}
	bool in(T x)
	{
		bool r = (**d)(x);
		Ev("level").i("o", o).f("x", double(x)).b("r", r);
		return r;
	}
	// without looking at the results but the last
	void skip(const std::vector<T> &x)
	{
		bool r = false;
		for (T v : x)
			r = (**d)(v);
		Ev("skip").i("o", o).b("on", r);
	}
};
template <typename E>
struct Edge
{
	std::unique_ptr<Obj<E>> d;
	int o;
	Edge(const char *kind, int on = -1) : o(++next_id)
	{
		if (on < 0)
			d.reset(new Obj<E>());
		else
			d.reset(new Obj<E>(bool(on)));
		Ev("new").i("o", o).str("kind", kind).b("on", on > 0);
	}
	void in(bool x)
	{
		bool r = (**d)(x);
		Ev("edge").i("o", o).b("x", x).b("r", r);
	}
	void skip(const std::vector<bool> &x)
	{
		for (bool v : x)
			(**d)(v);
		Ev("skip").i("o", o).b("on", x.back());
	}
};
// every input in the vicinity of the thresholds, from both states, and random walks
template <typename T>
void around(Level<T> &x, T lo, T hi, Rng &r, int n)
{
	T inf = std::numeric_limits<T>::max();
	std::vector<T> v = {lo, hi, T(lo + (hi - lo) / 2), T(lo - 1), T(hi + 1), 0, inf, T(-inf)};
	if (!std::numeric_limits<T>::is_integer) {
		for (T t : {lo, hi}) {
			v.push_back(std::nextafter(t, inf));
			v.push_back(std::nextafter(t, -inf));
		}
	}
	for (T a : v)
		for (T b : v) {
			x.in(a);
			x.in(b);
		}
	for (int i = 0; i < n; ++i)
		x.in(v[r.below(v.size())]);
}
int main()
{
	int f = thorough() ? 20 : 1;
	shard("script");
	for (auto &s : scripts("trigger")) {
		float t[] = {-3.5f, -1.25f, 0, 2.5f, 7};
		Level<float> a(t[1], t[3], s[0].second);
		Level<int> b(1, 3, s[0].second);
		Edge<DSP::RisingEdgeTrigger> c("rising", s[0].second);
		Edge<DSP::FallingEdgeTrigger> d("falling", s[0].second);
		for (size_t i = 1; i < s.size(); ++i) {
			bool r = a.in(t[s[i].second]);
			b.in(s[i].second);
			c.in(r);
			d.in(r);
		}
	}
	shard("levels");
	Rng r(1);
	{
		Level<float> a;
		around<float>(a, -1.f / 3.f, 1.f / 3.f, r, 200 * f);
		Level<double> b;
		around<double>(b, -1. / 3., 1. / 3., r, 200 * f);
		for (int on : {-1, 0, 1}) {
			Level<float> c(0.75f, on);
			around<float>(c, -0.75f, 0.75f, r, 100 * f);
			Level<double> d(0.125, on);
			around<double>(d, -0.125, 0.125, r, 100 * f);
			Level<float> e(0.f, on);
			around<float>(e, 0, 0, r, 100 * f);
			Level<float> g(-0.5f, 3.f, on);
			around<float>(g, -0.5f, 3.f, r, 100 * f);
			Level<double> h(2., 2., on);
			around<double>(h, 2, 2, r, 100 * f);
			Level<int> i(-5, 7, on);
			around<int>(i, -5, 7, r, 100 * f);
			Level<float> j(-9.f, -4.f, on);
			around<float>(j, -9, -4, r, 100 * f);
			Level<double> k(1000., 1e30, on);
			around<double>(k, 1000., 1e30, r, 100 * f);
		}
		for (int i = 0; i < 30 * f; ++i) {
			float lo = r.real(-2, 2), hi = lo + (r.below(5) ? r.real(0, 2) : 0);
			Level<float> c(lo, hi, r.range(-1, 1));
			Level<double> d(lo, hi, r.range(-1, 1));
			for (int n = 0; n < 60; ++n) {
				float x = r.below(4) ? float(r.real(-5, 5)) : r.below(2) ? lo : hi;
				c.in(x);
				if (n % 3)
					d.in(x);
			}
		}
	}
	shard("edges");
	for (int on : {-1, 0, 1})
		for (int w = 0; w < 64; ++w) {
			Edge<DSP::RisingEdgeTrigger> c("rising", on);
			Edge<DSP::FallingEdgeTrigger> d("falling", on);
			for (int i = 0; i < 6; ++i) {
				c.in(w >> i & 1);
				d.in(w >> i & 1);
			}
		}
	for (int k = 0; k < 20 * f; ++k) {
		Edge<DSP::RisingEdgeTrigger> c("rising"), c2("rising", 1);
		Edge<DSP::FallingEdgeTrigger> d("falling"), d2("falling", 1);
		for (int i = 0; i < 50; ++i) {
			bool x = r.below(2);
			c.in(x);
			d.in(x);
			if (r.below(2)) {
				c2.in(x);
				d2.in(!x);
			}
		}
	}
	shard("lasting");
	{
		Level<float> a(-.5f, 1.f, -1);
		Level<int> b(-2, 3, 0);
		Edge<DSP::RisingEdgeTrigger> c("rising");
		Edge<DSP::FallingEdgeTrigger> d("falling");
		for (int n = 0; n < 3 * lasting(); n += 1000) {
			std::vector<float> x;
			std::vector<int> y;
			std::vector<bool> z;
			for (int i = 0; i < 990; ++i) {
				x.push_back(float(r.range(-9, 9)) / 4);
				y.push_back(r.range(-5, 5));
				z.push_back(r.below(2));
			}
			a.skip(x);
			b.skip(y);
			c.skip(z);
			d.skip(z);
			for (int i = 0; i < 10; ++i) {
				a.in(x[i]);
				b.in(y[i]);
				c.in(z[i]);
				d.in(z[i]);
			}
		}
	}
	done();
	return 0;
}
