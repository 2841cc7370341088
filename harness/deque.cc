// Deque: replays scripts generated from DequeRing.tla, and random and directed histories
#include "h.hh"
#include "owned.hh"
#include "complex.hh"
#include "deque.hh"
using namespace H;

template <typename T> struct Code { static int code(T v) { return int(v); } static T make(int v) { return T(v); } };
template <typename T> struct Code<DSP::Complex<T>> {
	static int code(DSP::Complex<T> v) { return v.imag() == -v.real() ? int(v.real()) : -99; }
	static DSP::Complex<T> make(int v) { return DSP::Complex<T>(v, -v); }
};

template <typename T, int N>
struct Run
{
	Obj<DSP::Deque<T, N>> d;
	int o;
	typedef Code<T> C;
	Run(int o) : o(o)
	{
		Ev e("new");
		e.i("o", o).i("cap", N);
		observe(e);
	}
	void observe(Ev &e)
	{
		e.i("size", d->size()).b("empty", d->empty()).b("full", d->full()).i("max", d->max_size());
		if (d->size() > 0)
			e.i("front", C::code(d->front())).i("back", C::code(d->back()));
		else
			e.i("front", 0).i("back", 0);
	}
	void raw(const std::string &op, int v)
	{
		if (op == "push_back") d->push_back(C::make(v));
		else if (op == "push_front") d->push_front(C::make(v));
		else if (op == "pop_back") d->pop_back();
		else if (op == "pop_front") d->pop_front();
		else if (op == "clear") d->clear();
		else if (op == "front") d->front();
		else if (op == "back") d->back();
	}
	void call(const std::string &op, int v)
	{
		raw(op, v);
		Ev e("call");
		e.i("o", o).str("op", op).i("v", v);
		observe(e);
	}
	void burst(const std::string &op, int n, int v)
	{
		for (int i = 0; i < n; ++i)
			raw(op, v + i);
		Ev e("burst");
		e.i("o", o).str("op", op).i("v", v).i("n", n);
		observe(e);
	}
	void attempt(const std::string &op)
	{
		std::string r = outcome([&]() { raw(op, 1); });
		Ev e("try");
		e.i("o", o).str("op", op).str("outcome", r);
	}
	void misuse()
	{
		for (const char *op : {"push_back", "push_front", "pop_back", "pop_front", "front", "back"})
			attempt(op);
	}
	bool allowed(const std::string &op)
	{
		return op[1] == 'u' ? d->size() < N : op[1] == 'o' ? d->size() > 0 : true;
	}
};

static int next_id = 0;

// a long history: phases of growing, shrinking and shuffling
template <typename T, int N>
void random_history(int len, int salt, int top)
{
	Rng r(salt);
	Run<T, N> a(++next_id), b(++next_id);
	int bias = 50;
	static const char *ops[] = {"push_back", "push_front", "pop_back", "pop_front"};
	for (int i = 0; i < len; ++i) {
		if (i % (N < 40 ? 2 * N + 3 : 97) == 0)
			bias = r.range(0, 100);
		Run<T, N> &x = r.below(4) ? a : b;
		int side = r.below(3) ? (i / (N + 1)) % 2 : r.below(2);
		std::string op = ops[(r.below(100) < bias ? 0 : 2) + side];
		if (r.below(N < 20 ? 40 : 400) == 0)
			op = "clear";
		if (x.allowed(op))
			x.call(op, r.range(1, top));
	}
}
// one end is pushed, one end is popped, for several rounds of the ring
template <typename T, int N>
void rotate(const char *in, const char *out, int rounds, int fill)
{
	Run<T, N> x(++next_id);
	int v = 0;
	for (int i = 0; i < fill; ++i)
		x.call(in, 1 + (v++ % 100));
	for (int i = 0; i < rounds; ++i) {
		if (x.allowed(in))
			x.call(in, 1 + (v++ % 100));
		if (x.allowed(out))
			x.call(out, 0);
	}
	while (x.d->size())
		x.call(out, 0);
}
template <typename T, int N>
void directed(int rounds, int top)
{
	static const char *in[] = {"push_back", "push_front"}, *out[] = {"pop_back", "pop_front"};
	for (int i = 0; i < 2; ++i)
		for (int j = 0; j < 2; ++j)
			for (int fill : {0, N - 1, N})
				rotate<T, N>(in[i], out[j], rounds, fill);
}
template <typename T, int N>
void misuse(int salt)
{
	Rng r(salt);
	Run<T, N> x(++next_id);
	x.misuse();
	for (int k = 0; k < 3; ++k) {
		while (x.d->size() < N) {
			x.call(r.below(2) ? "push_back" : "push_front", r.range(1, 100));
			if (x.d->size() == 1 || x.d->size() == N - 1)
				x.misuse();
		}
		x.misuse();
		if (k == 1)
			x.call("clear", 0);
		while (x.d->size())
			x.call(r.below(2) ? "pop_back" : "pop_front", 0);
		x.misuse();
	}
}
// long queues in bursts of different lengths
template <typename T, int N>
void bursts(int len, int salt)
{
	Rng r(salt);
	Run<T, N> x(++next_id);
	static const char *in[] = {"push_back", "push_front"}, *out[] = {"pop_back", "pop_front"};
	int v = 1;
	x.burst(in[0], N, v);
	x.burst(out[1], N - 1, 0);
	x.burst(in[0], N - 1, v += N);
	x.burst(out[1], N, 0);
	x.burst(in[1], N, v += N);
	x.burst(out[0], N / 2, 0);
	x.call("clear", 0);
	for (int i = 0; i < len; ++i) {
		int size = x.d->size();
		if (r.below(2) ? size < N : !size)
			x.burst(in[r.below(2)], r.range(1, N - size), v = (v + N) % 1000000);
		else
			x.burst(out[r.below(2)], r.range(1, size), 0);
	}
}

// the same calls of containers of any capacity
struct Any
{
	virtual void op(int op, int v) = 0;
	virtual int size() = 0;
	virtual void observe(Ev &e) = 0;
	virtual ~Any() {}
};
template <int N>
struct Sized : public Any
{
	Obj<DSP::Deque<int, N>> d;
	void op(int op, int v) override
	{
		switch (op) {
		case 0: d->push_back(v); break;
		case 1: d->push_front(v); break;
		case 2: d->pop_back(); break;
		case 3: d->pop_front(); break;
		default: d->clear();
		}
	}
	int size() override { return d->size(); }
	void observe(Ev &e) override
	{
		e.i("size", d->size()).b("empty", d->empty()).b("full", d->full()).i("max", d->max_size());
		e.i("front", d->size() > 0 ? d->front() : 0).i("back", d->size() > 0 ? d->back() : 0);
	}
};
void any_capacity(Any &&x, int N, int n, int salt)
{
	static const char *names[] = {"push_back", "push_front", "pop_back", "pop_front"};
	Rng r(salt);
	int o = ++next_id, v = 1;
	{
		Ev e("new");
		e.i("o", o).i("cap", N);
		x.observe(e);
	}
	auto burst = [&](int op, int n, int v) {
		if (n < 1)
			return;
		for (int i = 0; i < n; ++i)
			x.op(op, v + i);
		Ev e("burst");
		e.i("o", o).str("op", names[op]).i("v", v).i("n", n);
		x.observe(e);
	};
	burst(0, N, v);
	burst(3, N - 1, 0);
	burst(0, N - 1, v += N);
	burst(3, N, 0);
	burst(1, N, v += N);
	burst(2, N / 2, 0);
	for (int i = 0; i < n; ++i) {
		int size = x.size();
		if (r.below(2) ? size < N : !size)
			burst(r.below(2), r.range(1, N - size), v = (v + N) % 1000000);
		else
			burst(2 + r.below(2), r.range(1, size), 0);
	}
}

int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("deque")) {
		Run<int, 3> x(++next_id);
		for (auto &c : s)
			x.call(c.first, c.second);
	}
	next_id = 0;
	shard("small");
	random_history<int, 1>(400 * f, 1, 1000);
	random_history<float, 1>(200 * f, 2, 1000);
	random_history<int, 2>(600 * f, 3, 1000);
	random_history<unsigned char, 3>(600 * f, 4, 255);
	random_history<short, 4>(600 * f, 5, 30000);
	random_history<double, 5>(600 * f, 6, 1000);
	random_history<DSP::Complex<float>, 7>(800 * f, 7, 1000);
	random_history<int, 8>(800 * f, 8, 1000000);
	random_history<long long, 13>(1000 * f, 9, 1000);
	random_history<int, 16>(1000 * f, 10, 1000);
	random_history<Owned, 1>(200 * f, 11, 1000);
	random_history<Owned, 6>(600 * f, 12, 1000);
	next_id = 0;
	shard("directed");
	directed<int, 1>(5, 100);
	directed<int, 2>(9, 100);
	directed<int, 5>(20, 100);
	directed<float, 17>(60, 100);
	next_id = 0;
	shard("misuse");
	misuse<int, 1>(20);
	misuse<int, 2>(21);
	misuse<float, 5>(22);
	misuse<int, 16>(23);
	next_id = 0;
	shard("large");
	random_history<int, 130>(2000 * f, 30, 100000);
	random_history<int, 260>(3000 * f, 31, 100000);
	rotate<int, 300>("push_back", "pop_front", 700, 300);
	rotate<int, 300>("push_front", "pop_front", 300, 299);
	next_id = 0;
	shard("lengths");
	lengths([&](auto n) { any_capacity(Sized<decltype(n)::value>(), n, 12 * f, 50); });
	next_id = 0;
	shard("bursts");
	bursts<int, 3>(200 * f, 40);
	bursts<int, 200>(200 * f, 41);
	bursts<int, 40000>(20 * f, 42);
	bursts<float, 70000>(20 * f, 43);
	done();
	return 0;
}
