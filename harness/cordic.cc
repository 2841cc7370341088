// CORDIC
#include "h.hh"
#include "cordic.hh"
using namespace H;

template <typename T>
struct Batch
{
	std::vector<int> y, x, r;
	void add(int b, int a)
	{
		if (!a && !b)
			return;
		y.push_back(b);
		x.push_back(a);
		r.push_back(DSP::CORDIC<T>::atan2(T(b), T(a)));
		if (y.size() >= 256)
			flush();
	}
	void flush()
	{
		if (y.size())
			Ev("cordic").i("b", 8 * sizeof(T)).is("y", y).is("x", x).is("r", r);
		y.clear();
		x.clear();
		r.clear();
	}
};
int main()
{
	int f = thorough() ? 10 : 1;
	Rng r(1);
#ifdef VARIANT_fast
	int step = 1;
#else
	int step = thorough() ? 1 : 8;
#endif
	for (int s = 0; s < 8; ++s) { // every pair of 8-bit integers
		shard("bytes" + std::to_string(s));
		Batch<int8_t> b;
		for (int x = -128 + s * 32; x < -96 + s * 32; ++x)
			for (int y = -128; y < 128; ++y)
				if ((x + y) % step == 0 || x == 0 || x == -128 || x == 127 || y == -128 || y == 127)
					b.add(y, x);
		b.flush();
	}
	shard("words");
	{
		Batch<int16_t> b;
		std::vector<int> v = {0, 1, -1, 2, -2, 3, 7, -8, 100, -100, 255, 256, -257, 4095, -4096, 16383, 16384, -16384, 23170, -23170, 32766, 32767, -32767, -32768};
		for (int y : v)
			for (int x : v)
				b.add(y, x);
		for (int y = -20; y <= 20; y += 1)
			for (int x = -20; x <= 20; x += 3)
				b.add(y, x);
		b.flush();
	}
	shard("words2");
	{
		Batch<int16_t> b;
		for (int i = 0; i < 3000 * f; ++i) {
			double a = r.real(0, 6.2831853), m = i % 3 ? r.real(100, 32767) : std::pow(2, r.real(0, 15));
			b.add(int(m * std::sin(a)), int(m * std::cos(a)));
			if (i % 5 == 0)
				b.add(r.range(-32768, 32767), r.below(2) ? 32767 : -32768);
			if (i % 5 == 1)
				b.add(r.below(2) ? 32767 : -32768, r.range(-32768, 32767));
			if (i % 5 == 2)
				b.add(r.range(-3, 3), r.range(-32768, 32767));
			if (i % 5 == 3)
				b.add(r.range(-32768, 32767), r.range(-3, 3));
		}
		b.flush();
	}
	done();
	return 0;
}
