// An element which is more than its bytes: it has memory of its own, and knows where it is
#pragma once
struct Owned
{
	const Owned *self;
	std::unique_ptr<int> v;
	Owned(int x = 0) : self(this), v(new int(x)) {}
	Owned(const Owned &o) : self(this), v(new int(o.value())) {}
	Owned &operator=(const Owned &o)
	{
		int x = o.value();
		if (self != this)
			x = -987656;
		v.reset(new int(x));
		return *this;
	}
	int value() const { return self == this ? *v : -987656; }
	explicit operator int() const { return value(); }
	explicit operator long long() const { return value(); }
};
inline bool operator<(const Owned &a, const Owned &b) { return a.value() < b.value(); }
inline bool operator>(const Owned &a, const Owned &b) { return a.value() > b.value(); }
inline bool operator<=(const Owned &a, const Owned &b) { return a.value() <= b.value(); }
inline bool operator>=(const Owned &a, const Owned &b) { return a.value() >= b.value(); }
inline bool operator==(const Owned &a, const Owned &b) { return a.value() == b.value(); }
inline bool operator!=(const Owned &a, const Owned &b) { return a.value() != b.value(); }
// nobody needs these, but who uses them is to be judged by the result
#define OWNED_OPS(T, V) \
	inline T operator+(const T &a, const T &b) { return T(V(a) + V(b)); } \
	inline T operator-(const T &a, const T &b) { return T(V(a) - V(b)); } \
	inline T operator*(const T &a, const T &b) { return T(V(a) * V(b)); } \
	inline T operator^(const T &a, const T &b) { return T(V(a) ^ V(b)); } \
	inline T operator-(const T &a) { return T(-V(a)); } \
	inline T &operator+=(T &a, const T &b) { return a = a + b; } \
	inline T &operator-=(T &a, const T &b) { return a = a - b; } \
	inline T &operator^=(T &a, const T &b) { return a = a ^ b; }
inline int owned_value(const Owned &a) { return a.value(); }
OWNED_OPS(Owned, owned_value)
