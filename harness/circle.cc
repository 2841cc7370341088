// UnitCircle
#include "h.hh"
#include "unit_circle.hh"
using namespace H;

template <typename T>
void values(const std::vector<int> &n, int N)
{
	std::vector<T> c, s, r;
	for (int i : n) {
		c.push_back(DSP::UnitCircle<T>::cos(i, N));
		s.push_back(DSP::UnitCircle<T>::sin(i, N));
		r.push_back(DSP::UnitCircle<T>::rad(i, N));
	}
	Ev("circle").i("p", sizeof(T) == 4 ? 24 : 53).i("N", N).is("n", n).fs("cos", c).fs("sin", s).fs("rad", r);
}
template <typename T>
void whole(int from, int to)
{
	for (int N = from; N <= to; ++N) {
		std::vector<int> n;
		for (int i = -N; i <= N; ++i)
			n.push_back(i);
		values<T>(n, N);
	}
}
template <typename T>
void large(int salt, int rounds)
{
	Rng r(salt);
	for (int i = 0; i < rounds; ++i) {
		int N = r.range(1, 1 << r.range(6, 26));
		if (r.below(3) == 0)
			N = 1 << r.range(3, 26);
		else if (r.below(2))
			N -= N % 8;
		if (i == 0)
			N = 100000000;
		if (N < 1)
			N = 8;
		std::vector<int> n;
		for (int k = -8; k <= 8; ++k) // around every eighth of a turn
			for (int d : {-1, 0, 1})
				n.push_back(max(-N, min(N, int((long long)(k) * N / 8) + d)));
		for (int k = 0; k < 8; ++k)
			n.push_back(r.range(-N, N));
		values<T>(n, N);
	}
}
// evaluated by the compiler
template <typename T, int N>
struct Table
{
	T c[2 * N + 1], s[2 * N + 1], r[2 * N + 1];
	constexpr Table() : c(), s(), r()
	{
		for (int i = 0; i <= 2 * N; ++i) {
			c[i] = DSP::UnitCircle<T>::cos(i - N, N);
			s[i] = DSP::UnitCircle<T>::sin(i - N, N);
			r[i] = DSP::UnitCircle<T>::rad(i - N, N);
		}
	}
};
template <typename T, int N>
void constants()
{
	static constexpr Table<T, N> t;
	std::vector<int> n;
	for (int i = -N; i <= N; ++i)
		n.push_back(i);
	Ev("circle").i("p", sizeof(T) == 4 ? 24 : 53).i("N", N).is("n", n)
		.fs("cos", std::vector<T>(t.c, t.c + 2 * N + 1)).fs("sin", std::vector<T>(t.s, t.s + 2 * N + 1)).fs("rad", std::vector<T>(t.r, t.r + 2 * N + 1));
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	whole<float>(1, 40);
	whole<float>(360, 360);
	shard("double");
	whole<double>(1, 40);
	whole<double>(360, 360);
	shard("more");
	{
		Rng r(3);
		for (int i = 0; i < 3 * f; ++i) {
			int N = r.range(41, 500);
			whole<float>(N, N);
			whole<double>(N, N);
		}
	}
	shard("large");
	large<float>(1, 20 * f);
	large<double>(2, 20 * f);
	shard("constants");
	constants<float, 48>();
	constants<double, 48>();
	constants<double, 77>();
	done();
	return 0;
}
