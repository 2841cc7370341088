// WritePNM and ReadPNM: -DABSTRACT for both through their interfaces
#include "h.hh"
#include "files.hh"
#include "netpbm.hh"
using namespace H;

#ifdef ABSTRACT
template <typename T> using WriteAs = DSP::WritePEL<T>;
template <typename T> using ReadAs = DSP::ReadPEL<T>;
#else
template <typename T> using WriteAs = DSP::WritePNM<T>;
template <typename T> using ReadAs = DSP::ReadPNM<T>;
#endif
static int next_id = 0;
template <typename T> struct Prec { static const int p = sizeof(T) == 4 ? 24 : 53; };

template <typename T>
T sample(Rng &r)
{
	switch (r.below(10)) {
	case 0: return T(0);
	case 1: return T(1);
	case 2: return -T(r.real(0, 2));
	case 3: return T(r.real(1, 3));
	case 4: return T(r.real(0.0025, 0.0038));
	case 5: return T(r.real(0, 0.004));
	case 6: return T(r.real(0, 0.05));
	default: return T(r.real(0, 1));
	}
}
template <typename T>
struct Writer
{
	std::string path;
	int o;
	bool mono;
	std::unique_ptr<WriteAs<T>> w;
	Writer(int width, int height, bool mono, int max, int args = 3, const char *name = "w.pnm") : path(scratch(name)), o(++next_id), mono(mono)
	{
		if (args == 1)
			w.reset(new DSP::WritePNM<T>(path.c_str(), width, height));
		else if (args == 2)
			w.reset(new DSP::WritePNM<T>(path.c_str(), width, height, mono));
		else
			w.reset(new DSP::WritePNM<T>(path.c_str(), width, height, mono, max));
		Ev("writer").i("o", o).b("mono_given", mono).i("width_given", width).i("height_given", height).i("max", max)
			.b("mono", w->mono()).i("width", w->width()).i("height", w->height()).b("good", w->good()).i("p", Prec<T>::p);
	}
	void write(Rng &r, int num, int extra)
	{
		int ch = mono ? 1 : 3, stride = ch + std::max(extra, 0);
		std::vector<T> buf(num ? (num - 1) * stride + ch : 0);
		for (T &x : buf)
			x = sample<T>(r);
		if (extra < 0)
			w->write(buf.data(), num);
		else
			w->write(buf.data(), num, stride);
		Ev("write").i("o", o).i("num", num).i("stride", stride).fs("buf", buf).b("good", w->good());
	}
	void finish()
	{
		w.reset();
		Ev("file").i("o", o).is("bytes", load(path));
	}
};
template <typename T>
struct Reader
{
	std::string path;
	int o;
	bool mono;
	std::unique_ptr<ReadAs<T>> r;
	Reader(const Bytes &b, const char *name = "r.pnm") : path(scratch(name)), o(++next_id)
	{
		store(path, b);
		r.reset(new DSP::ReadPNM<T>(path.c_str()));
		mono = r->mono();
		Ev("reader").i("o", o).is("bytes", b).b("good", r->good()).b("mono", mono).i("width", r->width()).i("height", r->height()).i("p", Prec<T>::p);
	}
	void read(int num, int extra)
	{
		int ch = mono ? 1 : 3, stride = ch + max(extra, 0), len = (num + 1) * stride + 2;
		T mark = T(-12345.678);
		std::unique_ptr<T[]> buf(new T[len]);
		for (int i = 0; i < len; ++i)
			buf[i] = mark;
		if (extra < 0)
			r->read(buf.get(), num);
		else
			r->read(buf.get(), num, stride);
		Ev e("read");
		e.i("o", o).i("num", num).i("stride", stride).b("good", r->good());
		e.key("buf");
		e.s += '[';
		for (int i = 0; i < len; ++i)
			e.s += (i ? ",\"" : "\"") + (buf[i] == mark ? std::string("-") : hex(buf[i])) + '"';
		e.s += ']';
		if (num) {
			std::unique_ptr<ReadAs<T>> again(new DSP::ReadPNM<T>(path.c_str()));
			std::unique_ptr<T[]> tight(new T[(num - 1) * stride + ch]);
			again->read(tight.get(), num, stride);
		}
	}
};
Bytes header(bool mono, int w, int h, int max, const char *a = " ", const char *b = " ", const char *c = " ", const char *d = "\n")
{
	Bytes x;
	tag(x, mono ? "P5" : "P6");
	tag(x, a);
	tag(x, std::to_string(w).c_str());
	tag(x, b);
	tag(x, std::to_string(h).c_str());
	tag(x, c);
	tag(x, std::to_string(max).c_str());
	tag(x, d);
	return x;
}
template <typename T>
void again(int maxval)
{
	Bytes b = header(true, maxval + 1, 1, maxval);
	std::vector<int> in, out;
	for (int i = 0; i <= maxval; ++i) {
		b.push_back(i);
		in.push_back(i);
	}
	store(scratch("in.pnm"), b);
	std::vector<T> buf(maxval + 1);
	{
		DSP::ReadPNM<T> r(scratch("in.pnm").c_str());
		r.read(buf.data(), maxval + 1);
		DSP::WritePNM<T> w(scratch("out.pnm").c_str(), maxval + 1, 1, true, maxval);
		w.write(buf.data(), maxval + 1);
	}
	Bytes c = load(scratch("out.pnm"));
	for (int i = 0; i <= maxval; ++i)
		out.push_back(int(c.size()) > maxval ? c[c.size() - maxval - 1 + i] : -1);
	Ev("again").is("in", in).is("out", out);
}
template <typename T>
void images(int salt, int rounds)
{
	Rng r(salt);
	const char *seps[] = {" ", "\n", "\t", "  ", "\n\n", " \n", "\t \n\t", "\n#\n", "\n# comment 12 34\n", "\n#a\n#b\n", "\n#a\n\n \n#b\n  ", " \n#x\n"};
	for (int i = 0; i < rounds; ++i) {
		int maxs[] = {1, 2, 3, 15, 38, 100, 127, 128, 200, 254, 255};
		int max = r.below(3) ? maxs[r.below(11)] : r.range(1, 255);
		bool mono = r.below(2);
		int w = r.range(1, 6), h = r.range(1, 4);
		if (r.below(5) == 0)
			w = r.range(1, 40000), h = r.range(1, 300);
		Bytes b = header(mono, w, h, max, seps[r.below(12)], seps[r.below(12)], seps[r.below(12)], seps[r.below(3)]);
		int n = r.below(24);
		for (int j = 0; j < n * (mono ? 1 : 3); ++j)
			b.push_back(r.range(0, max));
		Reader<T> x(b);
		for (int j = r.range(1, 4); j > 0; --j)
			x.read(r.below(8), r.range(-1, 3));
		Writer<T> y(w, h, mono, max, max != 255 ? 3 : mono ? r.range(2, 3) : r.range(1, 3));
		for (int j = r.below(4); j > 0; --j)
			y.write(r, r.below(6), r.range(-1, 2));
		y.finish();
	}
}
template <typename T>
void codes(int max)
{
	Bytes b = header(true, max + 1, 1, max);
	for (int i = 0; i <= max; ++i)
		b.push_back(i);
	Reader<T> x(b);
	x.read(max + 1, -1);
	x.read(1, -1);
	// values close to the decision thresholds
	Writer<T> y(max, 2, true, max);
	std::vector<T> buf;
	for (int i = 0; i < max; ++i)
		for (double d : {.47, .53}) {
			double v = (i + d) / max;
			buf.push_back(T(v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4)));
		}
	y.w->write(buf.data(), buf.size());
	Ev("write").i("o", y.o).i("num", buf.size()).i("stride", 1).fs("buf", buf).b("good", y.w->good());
	y.finish();
}
#ifdef ABSTRACT
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	images<float>(11, 30 * f);
	shard("double");
	images<double>(12, 20 * f);
	// nowhere to write to
	float x[3] = {};
	std::string no = scratch("no such directory/x.pnm"), dir = outdir();
	for (const char *name : {no.c_str(), dir.c_str()})
		for (bool mono : {false, true}) {
			std::unique_ptr<DSP::WritePEL<float>> w(new DSP::WritePNM<float>(name, 1, 1, mono));
			bool g = w->good();
			w->write(x, 1);
			Ev("nowhere").b("good", g).b("later", w->good());
		}
	done();
	return 0;
}
#else
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("pnm")) {
		Bytes b;
		for (auto &c : s)
			b.push_back(c.second);
		b.push_back(0);
		Reader<float> x(b);
		x.read(1, -1);
		x.read(1, -1);
	}
	shard("float");
	images<float>(1, 60 * f);
	shard("double");
	images<double>(2, 60 * f);
	shard("codes");
	codes<float>(255);
	shard("codes2");
	codes<double>(255);
	{
		Rng r(3);
		for (int max : {1, 2, 38, 62, 100, 128})
			codes<float>(max);
		for (int i = 0; i < 3 * f; ++i)
			codes<double>(r.range(1, 254));
	}
	shard("again");
	for (int max = 1; max < 256; ++max) {
		again<float>(max);
		again<double>(max);
	}
	done();
	return 0;
}
#endif
