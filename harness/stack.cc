// Stack: replays scripts generated from StackArray.tla, and random and directed histories
#include "h.hh"
#include "owned.hh"
#include "complex.hh"
#include "stack.hh"
using namespace H;

template <typename T> struct Code { static int code(T v) { return int(v); } static T make(int v) { return T(v); } };
template <typename T> struct Code<DSP::Complex<T>> {
	static int code(DSP::Complex<T> v) { return v.imag() == -v.real() ? int(v.real()) : -99; }
	static DSP::Complex<T> make(int v) { return DSP::Complex<T>(v, -v); }
};

template <typename T, int N>
struct Run
{
	Obj<DSP::Stack<T, N>> d;
	int o;
	typedef Code<T> C;
	Run(int o) : o(o)
	{
		Ev e("new");
		e.i("o", o).i("cap", N);
		observe(e);
	}
	void observe(Ev &e)
	{
		e.i("size", d->size()).b("empty", d->empty()).b("full", d->full()).i("max", d->max_size());
		if (d->size() > 0)
			e.i("top", C::code(d->top())).i("first", C::code(d->first()));
		else
			e.i("top", 0).i("first", 0);
	}
	void raw(const std::string &op, int v)
	{
		if (op == "push") d->push(C::make(v));
		else if (op == "pop") d->pop();
		else if (op == "clear") d->clear();
		else if (op == "top") d->top();
		else if (op == "first") d->first();
	}
	void call(const std::string &op, int v)
	{
		raw(op, v);
		Ev e("call");
		e.i("o", o).str("op", op).i("v", v);
		observe(e);
	}
	void burst(const std::string &op, int n, int v)
	{
		for (int i = 0; i < n; ++i)
			raw(op, v + i);
		Ev e("burst");
		e.i("o", o).str("op", op).i("v", v).i("n", n);
		observe(e);
	}
	void attempt(const std::string &op)
	{
		std::string r = outcome([&]() { raw(op, 1); });
		Ev e("try");
		e.i("o", o).str("op", op).str("outcome", r);
	}
	void misuse()
	{
		for (const char *op : {"push", "pop", "top", "first"})
			attempt(op);
	}
	bool allowed(const std::string &op)
	{
		return op[1] == 'u' ? d->size() < N : op[1] == 'o' ? d->size() > 0 : true;
	}
};

static int next_id = 0;

// a long history: phases of growing, shrinking and shuffling
template <typename T, int N>
void random_history(int len, int salt, int top)
{
	Rng r(salt);
	Run<T, N> a(++next_id), b(++next_id);
	int bias = 50;
	for (int i = 0; i < len; ++i) {
		if (i % (N < 40 ? 2 * N + 3 : 97) == 0)
			bias = r.range(0, 100);
		Run<T, N> &x = r.below(4) ? a : b;
		std::string op = r.below(100) < bias ? "push" : "pop";
		if (r.below(N < 20 ? 40 : 400) == 0)
			op = "clear";
		if (x.allowed(op))
			x.call(op, r.range(1, top));
	}
}
template <typename T, int N>
void misuse(int salt)
{
	Rng r(salt);
	Run<T, N> x(++next_id);
	x.misuse();
	for (int k = 0; k < 3; ++k) {
		while (x.d->size() < N) {
			x.call("push", r.range(1, 100));
			if (x.d->size() == 1 || x.d->size() == N - 1)
				x.misuse();
		}
		x.misuse();
		if (k == 1)
			x.call("clear", 0);
		while (x.d->size())
			x.call("pop", 0);
		x.misuse();
	}
}
// long queues in bursts of different lengths
template <typename T, int N>
void bursts(int len, int salt)
{
	Rng r(salt);
	Run<T, N> x(++next_id);
	int v = 1;
	x.burst("push", N, v);
	x.burst("pop", N - 1, 0);
	x.burst("push", N - 1, v += N);
	x.burst("pop", N, 0);
	x.burst("push", N, v += N);
	x.burst("pop", N / 2, 0);
	x.call("clear", 0);
	for (int i = 0; i < len; ++i) {
		int size = x.d->size();
		if (r.below(2) ? size < N : !size)
			x.burst("push", r.range(1, N - size), v = (v + N) % 1000000);
		else
			x.burst("pop", r.range(1, size), 0);
	}
}

// the same calls of containers of any capacity
struct Any
{
	virtual void op(int op, int v) = 0;
	virtual int size() = 0;
	virtual void observe(Ev &e) = 0;
	virtual ~Any() {}
};
template <int N>
struct Sized : public Any
{
	Obj<DSP::Stack<int, N>> d;
	void op(int op, int v) override
	{
		switch (op) {
		case 0: d->push(v); break;
		case 1: d->pop(); break;
		default: d->clear();
		}
	}
	int size() override { return d->size(); }
	void observe(Ev &e) override
	{
		e.i("size", d->size()).b("empty", d->empty()).b("full", d->full()).i("max", d->max_size());
		e.i("top", d->size() > 0 ? d->top() : 0).i("first", d->size() > 0 ? d->first() : 0);
	}
};
void any_capacity(Any &&x, int N, int n, int salt)
{
	static const char *names[] = {"push", "pop"};
	Rng r(salt);
	int o = ++next_id, v = 1;
	{
		Ev e("new");
		e.i("o", o).i("cap", N);
		x.observe(e);
	}
	auto burst = [&](int op, int n, int v) {
		if (n < 1)
			return;
		for (int i = 0; i < n; ++i)
			x.op(op, v + i);
		Ev e("burst");
		e.i("o", o).str("op", names[op]).i("v", v).i("n", n);
		x.observe(e);
	};
	burst(0, N, v);
	burst(1, N - 1, 0);
	burst(0, N - 1, v += N);
	burst(1, N / 2, 0);
	for (int i = 0; i < n; ++i) {
		int size = x.size();
		if (r.below(2) ? size < N : !size)
			burst(0, r.range(1, N - size), v = (v + N) % 1000000);
		else
			burst(1, r.range(1, size), 0);
	}
}

int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("stack")) {
		Run<int, 3> x(++next_id);
		for (auto &c : s)
			x.call(c.first, c.second);
	}
	next_id = 0;
	shard("small");
	random_history<int, 1>(400 * f, 1, 1000);
	random_history<float, 1>(200 * f, 2, 1000);
	random_history<int, 2>(600 * f, 3, 1000);
	random_history<unsigned char, 3>(600 * f, 4, 255);
	random_history<short, 4>(600 * f, 5, 30000);
	random_history<double, 5>(600 * f, 6, 1000);
	random_history<DSP::Complex<float>, 7>(800 * f, 7, 1000);
	random_history<int, 8>(800 * f, 8, 1000000);
	random_history<long long, 13>(1000 * f, 9, 1000);
	random_history<int, 16>(1000 * f, 10, 1000);
	random_history<Owned, 1>(200 * f, 11, 1000);
	random_history<Owned, 6>(600 * f, 12, 1000);
	next_id = 0;
	shard("misuse");
	misuse<int, 1>(20);
	misuse<int, 2>(21);
	misuse<float, 5>(22);
	misuse<int, 16>(23);
	next_id = 0;
	shard("large");
	random_history<int, 130>(2000 * f, 30, 100000);
	random_history<int, 260>(3000 * f, 31, 100000);
	next_id = 0;
	shard("lengths");
	lengths([&](auto n) { any_capacity(Sized<decltype(n)::value>(), n, 12 * f, 50); });
	next_id = 0;
	shard("bursts");
	bursts<int, 3>(200 * f, 40);
	bursts<int, 200>(200 * f, 41);
	bursts<int, 40000>(20 * f, 42);
	bursts<float, 70000>(20 * f, 43);
	done();
	return 0;
}
