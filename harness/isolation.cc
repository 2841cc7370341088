// Objects of all classes side by side, and each of their histories alone
#include <atomic>
#include <sched.h>
#include <thread>
#include "h.hh"
#include "files.hh"
#include "const.hh"
#include "utils.hh"
#include "amd.hh"
#include "atan2.hh"
#include "bip_buffer.hh"
#include "biquad.hh"
#include "blockdc.hh"
#include "calculus.hh"
#include "cdc.hh"
#include "coeffs.hh"
#include "complex.hh"
#include "cordic.hh"
#include "decibel.hh"
#include "delay.hh"
#include "deque.hh"
#include "ema.hh"
#include "exp.hh"
#include "fdzp.hh"
#include "fft.hh"
#include "filter.hh"
#include "fmd.hh"
#include "hilbert.hh"
#include "kahan.hh"
#include "lms.hh"
#include "movext.hh"
#include "netpbm.hh"
#include "normalize.hh"
#include "phasor.hh"
#include "quick.hh"
#include "regression.hh"
#include "repeated_median.hh"
#include "resampler.hh"
#include "sma.hh"
#include "spline.hh"
#include "stack.hh"
#include "swa.hh"
#include "theil_sen.hh"
#include "trigger.hh"
#include "unit_circle.hh"
#include "wav.hh"
#include "window.hh"
using namespace H;
typedef DSP::Complex<float> cmplx;
typedef DSP::Complex<double> cmplx2;

// What a call returned
struct Sink
{
	uint64_t h = 1469598103934665603ull;
	void bytes(const void *p, size_t n)
	{
		const unsigned char *c = static_cast<const unsigned char *>(p);
		for (size_t i = 0; i < n; ++i)
			h = (h ^ c[i]) * 1099511628211ull;
	}
	template <typename T> void operator()(T v) { bytes(&v, sizeof v); }
	template <typename T> void operator()(const T *v, int n) { bytes(v, n * sizeof(T)); }
	std::string str() const
	{
		char b[20];
		snprintf(b, sizeof b, "%016llx", (unsigned long long)(h));
		return b;
	}
};
static const int INPUTS = 6;
static double val(int x)
{
	static const double v[INPUTS] = {0.25, -1, 0.70703125, 3.3, -0.12345, 1.0 / 3};
	return v[x % INPUTS];
}
static cmplx cval(int x) { return cmplx(val(x), val(x + 2) / 2); }

// Always the same code, whoever calls
#ifdef __clang__
#define ALONE __attribute__((noinline))
#else
#define ALONE __attribute__((noinline, noclone))
#endif

struct Box
{
	virtual ~Box() {}
	virtual void make(int c, int fill) = 0;
	virtual void copy(Box &b, int fill) = 0;
	virtual void assign(Box &b) = 0;
	virtual void step(int x, Sink &s) = 0;
	virtual void drop() = 0;
};
template <typename K, bool C> struct Copier
{
	typedef typename K::T T;
	static ALONE void copy(void *m, T &t) { new (m) T(t); }
	static ALONE void assign(T &a, T &b) { a = b; }
};
template <typename K> struct Copier<K, false>
{
	typedef typename K::T T;
	static void copy(void *, T &) { abort(); }
	static void assign(T &, T &) { abort(); }
};
template <typename K>
struct BoxOf : public Box
{
	typedef typename K::T T;
	void *mem = nullptr;
	T *p = nullptr;
	static const size_t size = (sizeof(T) + 63) / 64 * 64;
	void memory(int fill)
	{
		if (!mem)
			mem = aligned_alloc(64, size);
		if (fill >= 0)
			memset(mem, fill, size);
		asm volatile("" : : "r"(mem) : "memory");
		p = static_cast<T *>(mem);
	}
	void make(int c, int fill) override { memory(fill); K::make(mem, c); }
	void copy(Box &b, int fill) override { memory(fill); Copier<K, K::copies>::copy(mem, *static_cast<BoxOf &>(b).p); }
	void assign(Box &b) override { Copier<K, K::copies>::assign(*p, *static_cast<BoxOf &>(b).p); }
	void step(int x, Sink &s) override { K::step(*p, x, s); }
	void drop() override { p->~T(); p = nullptr; }
	~BoxOf() { if (p) p->~T(); free(mem); }
};
struct Kind
{
	std::string name;
	Box *(*box)();
	bool copies;
};
static std::vector<Kind> kinds;
template <typename K> Box *new_box() { return new BoxOf<K>(); }
template <typename K> struct Register { Register(const char *n) { kinds.push_back({n, new_box<K>, K::copies}); } };

// KIND(name, type, arguments or statements of making, statements of a call)
#define KIND_(N, COPIES, TYPE, MAKE, ...) \
	struct K_##N { typedef TYPE T; static const bool copies = COPIES; \
	static ALONE void make(void *m, int c) { (void)c; MAKE; } \
	static ALONE void step(T &t, int x, Sink &s) { __VA_ARGS__; } }; \
	static Register<K_##N> r_##N(#N);
#define KIND(N, TYPE, MAKE, ...) KIND_(N, true, TYPE, P(MAKE), __VA_ARGS__)
#define P(...) __VA_ARGS__

typedef DSP::Deque<int, 3> deque3;
KIND(deque, deque3, new (m) T(), P(
	if (x == 5) t.clear();
	else if (x == 4) { if (!t.empty()) t.pop_front(); }
	else if (x == 3) { if (!t.empty()) t.pop_back(); }
	else if (!t.full()) { if (x & 1) t.push_back(x); else t.push_front(x); }
	s(t.size()); s(t.empty()); s(t.full());
	if (!t.empty()) { s(t.front()); s(t.back()); }))
typedef DSP::Stack<float, 4> stack4;
KIND(stack, stack4, new (m) T(), P(
	if (x == 5) t.clear();
	else if (x == 4) { if (!t.empty()) t.pop(); }
	else if (!t.full()) t.push(val(x));
	s(t.size());
	if (!t.empty()) { s(t.first()); s(t.top()); }))
typedef DSP::Delay<float, 3> delay3;
KIND(delay, delay3, new (m) T(c), s(t(val(x))))
typedef DSP::BipBuffer<float, 3> bip3;
KIND(bip, bip3, new (m) T(), P(if (x == 5) s(t(), 3); else s(t(val(x)), 3)))
struct Max { int operator()(int a, int b) { return std::max(a, b); } };
typedef DSP::SWA<int, Max, 5> swa5;
KIND(swa, swa5, new (m) T(-c), s(t(int(10 * val(x)))))
typedef DSP::MovMin<float, 3> movmin3;
typedef DSP::MovMax<int, 4> movmax4;
KIND(movmin, movmin3, new (m) T(), s(t(val(x))))
KIND(movmax, movmax4, new (m) T(), s(t(int(10 * val(x)))))
typedef DSP::SMA1<float, float, 3> sma1;
typedef DSP::SMA2<float, float, 3, false> sma2;
typedef DSP::SMA3<cmplx, float, 3> sma3;
typedef DSP::SMA4<double, double, 3> sma4;
KIND(sma1, sma1, new (m) T(), P(s(t(val(x))); s(t.abs_dev())))
KIND(sma2, sma2, new (m) T(), s(t(val(x))))
KIND(sma3, sma3, new (m) T(), s(t(cval(x))))
KIND(sma4, sma4, new (m) T(), s(t(val(x))))
typedef DSP::Kahan<float> kahan;
KIND(kahan, kahan, new (m) T(1e7f * (1 + c)), P(if (x == 5) s(t.same(1e-9f)); for (int i = 0; i < 4; ++i) s(t(0.3f * (x + i)))))
typedef DSP::SchmittTrigger<float> schmitt;
KIND(schmitt, schmitt, P(if (c) new (m) T(float(-0.2 * c), float(0.3 * c)); else new (m) T()), s(t(val(x))))
KIND(falling, DSP::FallingEdgeTrigger, new (m) T(c & 1), s(t(x & 1)))
KIND(rising, DSP::RisingEdgeTrigger, new (m) T(c & 1), s(t(x & 1)))
typedef DSP::Integrator<double> integrator;
typedef DSP::Differentiator<float> differentiator;
KIND(integrator, integrator, new (m) T(c), s(t(val(x))))
KIND(differentiator, differentiator, new (m) T(c), s(t(val(x))))
typedef DSP::Phasor<cmplx> phasor;
KIND(phasor, phasor, P(T *p = new (m) T(); if (c) p->omega(c, 7)), P(
	if (x == 5) t.reset();
	if (x == 4) t.freq(0.123f);
	if (x == 3) t.omega(-1, 5);
	s(t())))
typedef DSP::EMA<float, float> ema;
KIND(ema, ema, P(T *p = new (m) T(c); p->samples(2 + c)), P(
	if (x == 5) t.cutoff(1, 9);
	s(t(val(x)))))
typedef DSP::EMACascade<double, double, 3> emas;
KIND(emas, emas, P(T *p = new (m) T(); p->cutoff(1 + c, 20)), P(
	if (x == 5) t.cutoff(1, 30);
	s(t(val(x)))))
typedef DSP::Biquad<float, float> biquad;
KIND(biquad, biquad, P(T *p = new (m) T(); if (c) p->lowpass(c, 11)), P(
	if (x == 5) t.notch(1, 7, 3);
	if (x == 4) t.highpass(2, 9);
	s(t(val(x)))))
typedef DSP::BiquadCascade<double, double, 3> biquads;
KIND(biquads, biquads, P(T *p = new (m) T(); p->lowpass(1 + c, 13)), P(
	if (x == 5) t.highpass(1, 7);
	s(t(val(x)))))
typedef DSP::BlockDC<float, float> blockdc;
KIND(blockdc, blockdc, P(T *p = new (m) T(); if (c) p->samples(5 * c)), P(
	if (x == 5) t.samples(9);
	s(t(val(x)))))
typedef DSP::NormalizeSine<float> norms;
typedef DSP::NormalizeIQ<cmplx> normiq;
KIND(norms, norms, P(T *p = new (m) T(); p->samples(3 + c)), s(t(val(x))))
KIND(normiq, normiq, P(T *p = new (m) T(); p->samples(3 + c)), s(t(cval(x))))
#define FMD(N) typedef DSP::FMD##N<cmplx> fmd##N; \
KIND(fmd##N, fmd##N, P(T *p = new (m) T(); p->bandwidth(0.3 + 0.1 * c)), P( \
	if (x == 5) t.bandwidth(0.2); \
	s(t(cval(x)))))
FMD(1) FMD(2) FMD(3) FMD(4) FMD(5)
typedef DSP::AMD1<cmplx> amd;
KIND(amd, amd, P(T *p = new (m) T(); p->agc(0.5, 0.1 * (1 + c))), P(
	if (x == 5) t.index(0.5);
	s(t(cval(x)))))
typedef DSP::Hilbert<cmplx, 9> hilbert;
typedef DSP::CDC<cmplx, 9> cdc;
KIND(hilbert, hilbert, new (m) T(1 + c), s(t(val(x))))
KIND(cdc, cdc, new (m) T(1 + c), s(t(val(x), val(x + 1))))
struct Ramp { float a; float operator()(int n, int N) const { return a + n - 0.25f * N; } };
typedef DSP::Coeffs<7, float> coeffs;
KIND(coeffs, coeffs, P(Ramp f{float(1 + c)}; new (m) T(&f)), P(
	if (x == 5) t.normalize(3);
	for (int i = 0; i < 7; ++i) s(t[i])))
typedef DSP::Resampler<float, 5, 4> resampler;
KIND(resampler, resampler, new (m) T(100, 40 + c, 2), P(
	alignas(64) float in[24]; alignas(64) float out[32];
	for (int i = 0; i < 24; ++i) in[i] = val(x + i) + i;
	for (int i = 0; i < 32; ++i) out[i] = -1;
	t(out, in, val(x), 24);
	s(out, 32)))
typedef DSP::Resampler2<float, float, 5, 4> resampler2;
KIND(resampler2, resampler2, new (m) T(10, 4, 2 + c), P(
	alignas(64) float out[8];
	int n = t(out, val(x), val(x + 1));
	s(n);
	if (n > 0 && n <= 8) s(out, n)))
typedef DSP::NLMS<float, 4> nlms;
typedef DSP::NCLMS<cmplx, 3> nclms;
KIND(nlms, nlms, new (m) T(), P(
	s(t(val(x), val(x + 1), 0.5f));
	s(static_cast<const float *>(t), 4)))
KIND(nclms, nclms, new (m) T(), P(
	s(t(cval(x), cval(x + 1), 0.5f));
	s(static_cast<const cmplx *>(t), 3)))
typedef DSP::FastFourierTransform<60, cmplx, -1> fft60;
typedef DSP::FastFourierTransform<34, cmplx, 1> fft34;
typedef DSP::RealToHalfComplexTransform<24, cmplx> rfft24;
typedef DSP::FDZP<24, 10, cmplx> fdzp;
KIND(fft, fft60, new (m) T(), P(
	alignas(64) cmplx in[60]; alignas(64) cmplx out[60];
	for (int i = 0; i < 60; ++i) in[i] = cval(x + i * i);
	t(out, in);
	s(out, 60); s(in, 60)))
KIND(ifft, fft34, new (m) T(), P(
	alignas(64) cmplx in[34]; alignas(64) cmplx out[34];
	for (int i = 0; i < 34; ++i) in[i] = cval(x + i * i);
	t(out, in);
	s(out, 34); s(in, 34)))
struct Ffts
{
	DSP::FastFourierTransform<77, cmplx, -1> a;
	DSP::FastFourierTransform<247, cmplx, 1> b;
	DSP::FastFourierTransform<23, cmplx, -1> c;
	DSP::FastFourierTransform<29, cmplx, 1> d;
	DSP::FastFourierTransform<31, cmplx, -1> e;
	DSP::FastFourierTransform<128, cmplx, 1> f;
	DSP::FastFourierTransform<9, cmplx, 1> g;
	DSP::FastFourierTransform<25, cmplx, -1> h;
	template <int N, int S> static void one(Sink &s, int x, DSP::FastFourierTransform<N, cmplx, S> &f)
	{
		alignas(64) cmplx in[N], out[N];
		for (int i = 0; i < N; ++i)
			in[i] = cval(x + i * i);
		f(out, in);
		s(out, N);
	}
};
KIND(ffts, Ffts, new (m) T(), P(
	if (x < 3) { T::one(s, x, t.a); T::one(s, x, t.b); }
	else { T::one(s, x, t.c); T::one(s, x, t.d); T::one(s, x, t.e); T::one(s, x, t.f); T::one(s, x, t.g); T::one(s, x, t.h); }))
KIND(rfft, rfft24, new (m) T(), P(
	alignas(64) float in[24]; alignas(64) cmplx out[13];
	for (int i = 0; i < 24; ++i) in[i] = val(x + i * i);
	t(out, in);
	s(out, 13); s(in, 24)))
KIND(fdzp, fdzp, new (m) T(), P(
	alignas(64) cmplx in[10]; alignas(64) cmplx out[24];
	for (int i = 0; i < 10; ++i) in[i] = cval(x + i * i);
	t(out, in);
	s(out, 24); s(in, 10)))
#define LINE(N, TYPE) typedef TYPE N; \
KIND(N, N, new (m) T(), P( \
	if (x < 4) { \
		float X[9]; float Y[9]; \
		for (int i = 0; i < 9; ++i) X[i] = i % (4 + x), Y[i] = val(x + i) * (i + 1); \
		t.compute(X, Y, 9 - 2 * x); \
	} \
	s(t.slope()); s(t.yint()); s(t(val(x))); \
	if (t.slope() != 0) s(t.xint())))
LINE(theil, P(DSP::TheilSenEstimator<float, 9>))
LINE(median, P(DSP::RepeatedMedianEstimator<float, 9>))
LINE(median2, P(DSP::RepeatedMedianEstimator2<float, 9>))
typedef DSP::SimpleLinearRegression<float> regression;
static regression regress(int x)
{
	float X[9], Y[9];
	for (int i = 0; i < 9; ++i)
		X[i] = i % (4 + x), Y[i] = val(x + i) * (i + 1);
	return regression(X, Y, 9 - x);
}
KIND(regression, regression, P(if (c) new (m) T(regress(c)); else new (m) T()), P(
	if (x == 5) t = regress(3);
	s(t.slope()); s(t.yint()); s(t(val(x)))))
typedef DSP::UniformNaturalCubicSpline<6, float, float> spline;
KIND(spline, spline, P(float Y[6]; for (int i = 0; i < 6; ++i) Y[i] = val(c + i * i); new (m) T(Y, c, 0.5f + c)), P(
	for (int i = -2; i < 5; ++i) s(t(val(x) + i))))
// functions and function objects without state
#define PURE(N, TYPE, MAKE, ...) KIND(N, TYPE, MAKE, P(__VA_ARGS__))
typedef DSP::Hann<float> hann;
typedef DSP::Hamming<float> hamming;
typedef DSP::Lanczos<float> lanczos;
typedef DSP::Blackman<float> blackman;
typedef DSP::Gauss<float> gauss;
typedef DSP::Kaiser<float> kaiser;
typedef DSP::LowPass<float> lowpass;
typedef DSP::HighPass<float> highpass;
typedef DSP::BandPass<float> bandpass;
typedef DSP::LowPass2<float> lowpass2;
PURE(hann, hann, new (m) T(), s(t(x, 7)); s(t(2, 5 + x)))
PURE(hamming, hamming, new (m) T(), s(t(x, 7)); s(t(2, 5 + x)))
PURE(lanczos, lanczos, new (m) T(), s(t(x, 7)); s(t(2, 5 + x)))
PURE(blackman, blackman, P(if (c == 0) new (m) T(); else if (c == 1) new (m) T(0.16f); else new (m) T(0.4f, 0.5f, 0.1f)), s(t(x, 7)); s(t(2, 5 + x)))
typedef DSP::Rect<float> rect;
PURE(rect, rect, new (m) T(), s(t(x - 1, 4)); s(t(2, x)))
PURE(gauss, gauss, new (m) T(0.2 + 0.1 * c), s(t(x, 7)); s(t(2, 5 + x)))
PURE(kaiser, kaiser, new (m) T(1 + c), s(t(x, 7 + x)))
PURE(lowpass, lowpass, new (m) T(0.1 + 0.07 * c), s(t(x, 9)); s(t(2, 5 + x)))
PURE(highpass, highpass, new (m) T(0.1 + 0.07 * c), s(t(x, 9)); s(t(2, 5 + x)))
PURE(bandpass, bandpass, new (m) T(0.1 + 0.07 * c, 0.3), s(t(x, 9)); s(t(2, 5 + x)))
PURE(lowpass2, lowpass2, new (m) T(1 + c, 20), s(t(x, 9)); s(t(2, 5 + x)))
struct Nothing { int c; };
PURE(scalar, Nothing, new (m) T{c},
	s(DSP::atan2(float(val(x)), float(val(x + t.c)))); s(DSP::exp10(float(val(x + t.c)))); s(DSP::decibel(float(2 + val(x))));
	s(DSP::UnitCircle<float>::cos(x, 7 + t.c)); s(DSP::UnitCircle<double>::sin(-x, 9 + t.c));
	s(DSP::CORDIC<signed char>::atan2(1 + 9 * x, 50 - 20 * x)); s(DSP::sinc(float(val(x)))))
PURE(helpers, Nothing, new (m) T{c},
	s(DSP::lerp(val(x), val(t.c), val(x + 1))); s(DSP::clamp(x - 2, -t.c, t.c)); s(DSP::normal_pdf(float(val(x)), float(t.c), 1.5f));
	s(DSP::delta(float(x - t.c))); s(DSP::signum(val(x))); s(DSP::atan(float(val(x)))); s(DSP::ldexp(float(val(x)), x - t.c)); s(DSP::idecibel(float(val(x))));
	float a[5];
	for (int i = 0; i < 5; ++i) a[i] = val(x + i * i);
	s(DSP::kahan_sum(a, a + 5, float(t.c)));
	s(DSP::CORDIC<signed char>::atan2(5 * x - 20, 9 * t.c - 10)))
PURE(numbers, Nothing, new (m) T{c},
	cmplx z = cval(x); cmplx w = cval(x + t.c) + cmplx(3, 1);
	s(z * w); s(z / w); s(abs(z)); s(arg(w)); s(norm(z)); s(conj(z)); s(z - w);
	w *= z; s(w); w += z; s(w); s(cmplx()))
PURE(sorting, Nothing, new (m) T{c},
	int a[40];
	for (int i = 0; i < 40; ++i) a[i] = (i * i * (3 + x) + t.c) % 23;
	s(DSP::quick_select(a, 5 + 4 * x, 40));
	DSP::quick_sort(a, 40);
	s(a, 40))
PURE(hermite, Nothing, new (m) T{c},
	float X[5]; float Y[5];
	for (int i = 0; i < 5; ++i) X[i] = i * (1 + t.c) + 0.125f * (i & 1), Y[i] = val(x + i);
	typedef DSP::CubicHermiteSpline<float, float> CHS;
	s(CHS::eval(X, Y, float(val(x) + 1), 5)); s(CHS::eval(Y, float(val(x) + 1), 5)))
// files
static std::atomic<int> files{0};
struct WavOut
{
	std::string name;
	std::unique_ptr<DSP::WriteWAV<float>> w;
	WavOut(int c) : name(scratch("iso" + std::to_string(getpid()) + "-" + std::to_string(++files))),
		w(new DSP::WriteWAV<float>(name.c_str(), 8000 + c, c == 0 ? 8 : c == 1 ? 16 : 32, 1 + c % 2)) {}
	~WavOut() { w.reset(); unlink(name.c_str()); }
};
KIND_(wavout, false, WavOut, new (m) T(c), P(
	if (t.w) {
		if (x == 5) {
			t.w.reset();
			Bytes b = load(t.name);
			s(b.data(), b.size());
		} else if (x == 4) {
			t.w->silence(2);
		} else {
			float b[6];
			for (int i = 0; i < 6; ++i) b[i] = val(x + i) / 3;
			t.w->write(b, x, 2);
		}
	}
	s(!t.w || t.w->good())))
struct PnmOut
{
	std::string name;
	std::unique_ptr<DSP::WritePNM<float>> w;
	PnmOut(int c) : name(scratch("iso" + std::to_string(getpid()) + "-" + std::to_string(++files))),
		w(new DSP::WritePNM<float>(name.c_str(), 3 + c, 2, c & 1, 100 + 50 * c)) {}
	~PnmOut() { w.reset(); unlink(name.c_str()); }
};
KIND_(pnmout, false, PnmOut, new (m) T(c), P(
	if (t.w) {
		if (x == 5) {
			t.w.reset();
			Bytes b = load(t.name);
			s(b.data(), b.size());
		} else {
			float b[20];
			for (int i = 0; i < 20; ++i) b[i] = val(x + i) / 3;
			t.w->write(b, x, 3);
		}
	}
	s(!t.w || t.w->good())))
typedef DSP::ReadWAV<float> wavin;
typedef DSP::ReadPNM<float> pnmin;
KIND_(wavin, false, wavin, new (m) T(scratch("in.wav" + std::to_string(c)).c_str()), P(
	if (x == 5) {
		t.skip(1);
	} else {
		float b[12];
		for (int i = 0; i < 12; ++i) b[i] = 0;
		t.read(b, x & 3, 3);
		if (t.good()) s(b, 12);
	}
	s(t.good()); s(t.rate()); s(t.frames())))
KIND_(pnmin, false, pnmin, new (m) T(scratch("in.pnm" + std::to_string(c)).c_str()), P(
	float b[12];
	for (int i = 0; i < 12; ++i) b[i] = 0;
	t.read(b, x & 3, 3);
	if (t.good()) s(b, 12);
	s(t.good()); s(t.width())))
static void input_files()
{
	for (int c = 0; c < 3; ++c) {
		int ch = 1 + c % 2, bits = 8 << c;
		Bytes b = wav_header(bits, 8000 + c, ch, 20);
		for (int i = 0; i < 20 * ch * bits / 8; ++i)
			b.push_back(i * i * (c + 3));
		store(scratch("in.wav" + std::to_string(c)), b);
		Bytes p;
		tag(p, c & 1 ? "P5 7 3 200\n" : "P6 5 4 255\n");
		for (int i = 0; i < 60; ++i)
			p.push_back(i * i % 200);
		store(scratch("in.pnm" + std::to_string(c)), p);
	}
}

// A schedule: what is done to which object
struct Op { char what; int o, p, c, x; };
typedef std::vector<Op> Schedule;
struct History { int kind, c; std::vector<int> x; };
static const int PLACES = 4;

static void call(Box &b, int o, int x)
{
	Sink s;
	b.step(x, s);
	Ev("call").i("o", o).str("x", std::to_string(x)).str("y", s.str());
}
static void made(int o, int kind, int c) { Ev("make").i("o", o).str("k", kinds[kind].name + " " + std::to_string(c)); }
// Its own process, with nothing in it from before
template <typename F>
static void apart(F f)
{
	fflush(out);
	pid_t pid = fork();
	if (pid == 0) {
		f();
		fflush(out);
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st))
		exit(75);
}
static void solo(const History &h, int fill)
{
	std::unique_ptr<Box> b(kinds[h.kind].box());
	b->make(h.c, fill);
	made(9, h.kind, h.c);
	for (int x : h.x)
		call(*b, 9, x);
}
static void together(const Schedule &s, const std::vector<int> &kind)
{
	std::unique_ptr<Box> b[PLACES];
	bool live[PLACES] = {};
	int fill = 0xff;
	for (int i = 0; i < PLACES; ++i)
		b[i].reset(kinds[kind[i]].box());
	for (const Op &op : s)
		switch (op.what) {
		case 'm':
			// at first garbage, later what the last object left there
			b[op.o]->make(op.c, fill);
			made(op.o, kind[op.o], op.c);
			fill = fill == 0xff ? 0x5a : -1;
			live[op.o] = true;
			break;
		case 'c': call(*b[op.o], op.o, op.x); break;
		case 'y':
			if (live[op.p])
				b[op.p]->assign(*b[op.o]);
			else
				b[op.p]->copy(*b[op.o], 0x3c);
			live[op.p] = true;
			Ev("copy").i("o", op.o).i("p", op.p);
			break;
		case 'd': b[op.o]->drop(); live[op.o] = false; break;
		}
}
static void run(const Schedule &s, const std::vector<int> &kind, int n)
{
	// the histories of the schedule
	std::vector<History> all, h(PLACES);
	bool live[PLACES] = {};
	for (const Op &op : s)
		switch (op.what) {
		case 'm': h[op.o] = {kind[op.o], op.c, {}}; live[op.o] = true; break;
		case 'c': h[op.o].x.push_back(op.x); break;
		case 'y': if (live[op.p]) all.push_back(h[op.p]); h[op.p] = h[op.o]; live[op.p] = true; break;
		case 'd': all.push_back(h[op.o]); live[op.o] = false; break;
		}
	for (int i = 0; i < PLACES; ++i)
		if (live[i])
			all.push_back(h[i]);
	Ev("start").i("n", n);
	for (const History &a : all)
		if (a.x.size())
			apart([&]() { solo(a, 0); });
	apart([&]() {
		together(s, kind);
		for (const History &a : all)
			solo(a, 0x77);
	});
}
static Schedule from_script(Rng &r, const std::vector<std::pair<std::string, int>> &script)
{
	Schedule s;
	bool live[PLACES] = {};
	for (auto &w : script) {
		if (w.first == "make")
			s.push_back({'m', w.second, 0, r.below(3), 0}), live[w.second] = true;
		if (w.first == "call")
			s.push_back({'c', w.second, 0, 0, r.below(INPUTS)});
		if (w.first == "copy")
			s.push_back({'y', w.second / 10, w.second % 10, 0, 0}), live[w.second % 10] = true;
		if (w.first == "drop")
			s.push_back({'d', w.second, 0, 0, 0}), live[w.second] = false;
	}
	// and some calls of all that is left
	for (int n = 0; n < 3; ++n)
		for (int i = 0; i < PLACES; ++i)
			if (live[i])
				s.push_back({'c', i, 0, 0, r.below(INPUTS)});
	return s;
}
static Schedule random_schedule(Rng &r, const std::vector<int> &kind, int len)
{
	Schedule s;
	bool live[PLACES] = {};
	while (int(s.size()) < len) {
		int o = r.below(PLACES), p = r.below(PLACES);
		if (!live[o]) {
			s.push_back({'m', o, 0, r.below(3), 0});
			live[o] = true;
		} else if (r.below(12) == 0 && o != p && kind[o] == kind[p] && kinds[kind[o]].copies) {
			s.push_back({'y', o, p, 0, 0});
			live[p] = true;
		} else if (r.below(25) == 0) {
			s.push_back({'d', o, 0, 0, 0});
			live[o] = false;
		} else {
			s.push_back({'c', o, 0, 0, r.below(INPUTS)});
		}
	}
	return s;
}
// Kinds without copies get an object of its own instead
static void uncopied(Rng &r, Schedule &s)
{
	bool live[PLACES] = {};
	Schedule t;
	for (Op op : s) {
		if (op.what == 'y') {
			if (live[op.p])
				t.push_back({'d', op.p, 0, 0, 0});
			op = {'m', op.p, 0, r.below(3), 0};
		}
		live[op.o] = op.what != 'd';
		t.push_back(op);
	}
	s = t;
}
#ifdef THREADS
// Threads which take turns as the schedule says, without anything that would order them for the
// memory: whatever one of them writes and another one uses is reported
static std::atomic<int> races{0};
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, std::memory_order_relaxed); }
extern "C" const char *__tsan_default_options() { return "exitcode=0"; }
// the C library stores a sign nobody asks for
extern "C" const char *__tsan_default_suppressions() { return "race:lgamma\n"; }
static const int THREADS_ = 3;
struct Done { int o, kind, c; std::vector<std::pair<int, std::string>> calls; };
struct Turns
{
	std::vector<int> order;
	std::atomic<int> at{0};
	template <typename F> void take(int t, F f)
	{
		for (;;) {
			int i = at.load(std::memory_order_relaxed);
			if (i >= int(order.size()))
				return;
			if (order[i] != t) {
				sched_yield();
				continue;
			}
			f();
			at.store(i + 1, std::memory_order_relaxed);
		}
	}
};
// shared: one object for all of them, which has nothing that changes
static void threads(Rng &r, const std::vector<int> &order, const std::vector<int> &kind, bool copied, bool shared, int n)
{
	Turns turns;
	turns.order = order;
	std::vector<std::unique_ptr<Box>> b(THREADS_);
	std::unique_ptr<Box> first;
	std::vector<Done> d(THREADS_);
	std::vector<std::vector<int>> in(THREADS_);
	int c = r.below(3);
	if (copied || shared) {
		first.reset(kinds[kind[0]].box());
		first->make(c, 0x11);
	}
	for (int t = 0; t < THREADS_; ++t) {
		for (size_t i = 0; i < order.size(); ++i)
			in[t].push_back(r.below(INPUTS));
		d[t] = {t, kind[t], copied || shared ? c : r.below(3), {}};
		b[t].reset(kinds[kind[t]].box());
		if (copied)
			b[t]->copy(*first, 0x22);
	}
	races = 0;
	std::vector<std::thread> th;
	for (int t = 0; t < THREADS_; ++t)
		th.emplace_back([&, t]() {
			bool made = copied || shared;
			size_t i = 0;
			Box &x = shared ? *first : *b[t];
			turns.take(t, [&]() {
				if (!made)
					x.make(d[t].c, 0x33);
				made = true;
				Sink s;
				x.step(in[t][i], s);
				d[t].calls.push_back({in[t][i], s.str()});
				++i;
			});
			if (made && !copied && !shared)
				x.drop();
		});
	for (auto &x : th)
		x.join();
	Ev("start").i("n", n);
	Ev("threads").str("k", kinds[kind[0]].name).b("copied", copied).b("shared", shared).i("races", races);
	for (Done &x : d) {
		made(x.o, x.kind, x.c);
		for (auto &y : x.calls)
			Ev("call").i("o", x.o).str("x", std::to_string(y.first)).str("y", y.second);
	}
	for (Done &x : d) {
		History h{x.kind, x.c, {}};
		for (auto &y : x.calls)
			h.x.push_back(y.first);
		solo(h, 0x44);
	}
}
int main()
{
	int f = thorough() ? 6 : 1;
	input_files();
	auto sc = scripts("threads");
	Rng r(1);
	auto order = [&]() {
		std::vector<int> o;
		for (auto &w : sc[r.below(sc.size())])
			o.push_back(w.second - 1);
		for (int i = 0; i < 6; ++i)
			o.push_back(r.below(THREADS_));
		return o;
	};
	int n = 0;
	for (size_t k = 0; k < kinds.size(); ++k) {
		if (k % 16 == 0)
			shard("threads" + std::to_string(k / 16));
		std::vector<int> kind(THREADS_, k);
		for (int i = 0; i < 3 * f; ++i)
			threads(r, order(), kind, false, false, ++n);
		if (kinds[k].copies)
			for (int i = 0; i < f; ++i)
				threads(r, order(), kind, true, false, ++n);
		for (const char *s : {"hann", "hamming", "lanczos", "blackman", "rect", "gauss", "kaiser", "lowpass", "highpass", "bandpass", "lowpass2"})
			if (kinds[k].name == s)
				for (int i = 0; i < 2 * f; ++i)
					threads(r, order(), kind, false, true, ++n);
	}
	shard("mixed");
	for (int i = 0; i < 40 * f; ++i) {
		std::vector<int> kind;
		for (int j = 0; j < THREADS_; ++j)
			kind.push_back(r.below(kinds.size()));
		threads(r, order(), kind, false, false, ++n);
	}
	done();
	return 0;
}
#else
int main()
{
	int f = thorough() ? 6 : 1, few = sanitized ? 3 : 1;
	input_files();
	auto sc = scripts("isolation");
	Rng r(1);
	int n = 0;
	for (size_t k = 0; k < kinds.size(); ++k) {
		if (k % 8 == 0)
			shard("kinds" + std::to_string(k / 8));
		std::vector<int> kind(PLACES, k);
		for (int i = 0; i < 8 * f / few; ++i) {
			Schedule s = from_script(r, sc[r.below(sc.size())]);
			if (!kinds[k].copies)
				uncopied(r, s);
			run(s, kind, ++n);
		}
		for (int i = 0; i < 3 * f / few; ++i)
			run(random_schedule(r, kind, 60), kind, ++n);
	}
	shard("mixed");
	for (int i = 0; i < 30 * f / few; ++i) {
		std::vector<int> kind;
		for (int j = 0; j < PLACES; ++j)
			kind.push_back(r.below(kinds.size()));
		run(random_schedule(r, kind, 60), kind, ++n);
	}
	done();
	return 0;
}
#endif
