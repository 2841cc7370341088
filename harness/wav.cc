// WriteWAV and ReadWAV: -DREADER for the reader, -DABSTRACT for both through their interfaces
#include "h.hh"
#include "files.hh"
#include "wav.hh"
using namespace H;

#ifdef ABSTRACT
template <typename T> using WriteAs = DSP::WritePCM<T>;
template <typename T> using ReadAs = DSP::ReadPCM<T>;
#else
template <typename T> using WriteAs = DSP::WriteWAV<T>;
template <typename T> using ReadAs = DSP::ReadWAV<T>;
#endif
static int next_id = 0;
template <typename T> struct Prec { static const int p = sizeof(T) == 4 ? 24 : 53; };

template <typename T>
T sample(Rng &r, int bits)
{
	int full = bits == 8 ? 127 : 32767;
	switch (r.below(12)) {
	case 0: return T(r.range(-full - 1, full + 1)) / full;              // a level
	case 1: return (T(r.range(-full, full)) + T(0.49)) / full;          // nearly between two
	case 2: return (T(r.range(-full, full)) - T(0.49)) / full;
	case 3: return T(1);
	case 4: return T(-1);
	case 5: return T(r.real(1, 1.1));                                    // beyond full scale
	case 6: return T(-r.real(1, 1.1));
	case 7: return r.below(2) ? T(-1e6) : T(3e8);
	case 8: return T(0);
	case 9: return T(r.real(-0.001, 0.001));
	default: return T(r.real(-1, 1));
	}
}
template <typename T>
struct Writer
{
	std::string path;
	int o, channels, bits;
	std::unique_ptr<WriteAs<T>> w;
	Writer(int rate, int bits, int channels, const char *name = "w.wav") :
		path(scratch(name)), o(++next_id), channels(channels), bits(bits),
		w(new DSP::WriteWAV<T>(path.c_str(), rate, bits, channels))
	{
		Ev("writer").i("o", o).i("bits", bits).i("rate_given", rate).i("channels_given", channels)
			.i("rate", w->rate()).i("channels", w->channels()).b("good", w->good()).i("p", Prec<T>::p);
	}
	void write(Rng &r, int num, int extra)
	{
		int stride = channels + max(extra, 0);
		std::vector<T> buf(num ? (num - 1) * stride + channels : 0);
		for (T &x : buf)
			x = sample<T>(r, bits);
		if (extra < 0)
			w->write(buf.data(), num);
		else
			w->write(buf.data(), num, stride);
		Ev("write").i("o", o).i("num", num).i("stride", stride).fs("buf", buf).b("good", w->good());
	}
	void silence(int num)
	{
		w->silence(num);
		Ev("silence").i("o", o).i("num", num).b("good", w->good());
	}
	void bulk(Rng &r, int num, int times)
	{
		std::vector<T> buf(num * channels);
		for (T &x : buf)
			x = sample<T>(r, bits);
		for (int i = 0; i < times; ++i)
			if (i % 2)
				w->silence(num);
			else
				w->write(buf.data(), num);
		Ev("writes").i("o", o).i("num", num).i("times", times).b("good", w->good());
	}
	Bytes head()
	{
		Bytes b = load(path);
		b.resize(min(int(b.size()), bits == 32 ? 58 : 44));
		return b;
	}
	void finish()
	{
		w.reset();
		Ev("file").i("o", o).is("bytes", load(path));
	}
	void finish_long()
	{
		Ev("openfile").i("o", o).is("head", head());
		w.reset();
		Ev("longfile").i("o", o).is("head", head()).i("length", load(path).size());
	}
};
template <typename T>
struct Reader
{
	std::string path;
	int o, channels;
	std::unique_ptr<ReadAs<T>> r;
	Reader(const Bytes &b, const char *name = "r.wav") : path(scratch(name)), o(++next_id)
	{
		store(path, b);
		DSP::ReadWAV<T> *own = new DSP::ReadWAV<T>(path.c_str());
		r.reset(own);
		channels = r->channels();
		Ev("reader").i("o", o).is("bytes", b).b("good", r->good()).i("rate", r->rate()).i("channels", channels)
			.i("bits", own->bits()).i("frames", r->frames()).i("p", Prec<T>::p);
	}
	void read(int num, int extra)
	{
		int stride = channels + max(extra, 0);
		int len = (num + 1) * stride + 2;
		T mark = T(-12345.678);
		// a buffer that ends where the last element belongs
		std::unique_ptr<T[]> buf(new T[len]);
		for (int i = 0; i < len; ++i)
			buf[i] = mark;
		if (extra < 0)
			r->read(buf.get(), num);
		else
			r->read(buf.get(), num, stride);
		std::string s;
		Ev e("read");
		e.i("o", o).i("num", num).i("stride", stride).b("good", r->good());
		e.key("buf");
		e.s += '[';
		for (int i = 0; i < len; ++i)
			e.s += (i ? ",\"" : "\"") + (buf[i] == mark ? std::string("-") : hex(buf[i])) + '"';
		e.s += ']';
		if (num) {
			// and once more with a buffer of exactly the needed size
			std::unique_ptr<ReadAs<T>> again(new DSP::ReadWAV<T>(path.c_str()));
			std::unique_ptr<T[]> tight(new T[(num - 1) * stride + channels]);
			again->read(tight.get(), num, stride);
		}
	}
	void skip(int num)
	{
		r->skip(num);
		Ev("skip").i("o", o).i("num", num).b("good", r->good());
	}
};
Bytes random_file(Rng &r, int bits, int channels, int frames, bool unknown, bool ext)
{
	int rates[] = {1, 8000, 11025, 44100, 48000, 96000, 192000};
	Bytes b = wav_header(bits, rates[r.below(7)], channels, frames, unknown, ext);
	for (int i = 0; i < frames * channels; ++i)
		if (bits == 32) {
			float f;
			switch (r.below(6)) {
			case 0: f = 0; break;
			case 1: f = std::ldexp(float(r.real(-1, 1)), r.range(-100, 100)); break;
			case 2: f = r.below(2) ? 1 : -1; break;
			case 3: f = std::ldexp(1.f, r.range(-120, 120)); break;
			default: f = r.real(-1.5, 1.5);
			}
			int v;
			memcpy(&v, &f, 4);
			le(b, v, 4);
		} else if (bits == 16) {
			int special[] = {0, 1, -1, 127, 128, 255, 256, -128, -129, -256, 32767, -32768, -32767, 32766};
			le(b, r.below(3) ? r.range(-32768, 32767) : special[r.below(14)], 2);
		} else {
			b.push_back(r.below(256));
		}
	return b;
}
template <typename T>
void writers(int salt, int rounds)
{
	Rng r(salt);
	int rates[] = {1, 255, 256, 8000, 44100, 48000, 65535, 65536, 96000, 192000, 1000000};
	for (int i = 0; i < rounds; ++i)
		for (int bits : {8, 16, 32})
			for (int channels : {1, 2, 3, 6}) {
				Writer<T> w(rates[r.below(11)], bits, channels);
				for (int n = r.below(7); n > 0; --n)
					switch (r.below(4)) {
					case 0: w.silence(r.below(4)); break;
					case 1: w.write(r, r.below(12), -1); break;
					default: w.write(r, r.below(12), r.below(3));
					}
				w.finish();
			}
}
template <typename T>
void readers(int salt, int rounds)
{
	Rng r(salt);
	for (int i = 0; i < rounds; ++i)
		for (int bits : {8, 16, 32})
			for (int channels : {1, 2, 3, 7}) {
				int frames = r.below(20);
				Reader<T> x(random_file(r, bits, channels, frames, r.below(4) == 0, r.below(3) == 0));
				for (int n = r.range(1, 6); n > 0; --n)
					if (r.below(4) == 0)
						x.skip(r.below(6));
					else
						x.read(r.below(8), r.range(-1, 3));
			}
}
template <typename T>
void back(int salt, int rounds)
{
	Rng r(salt);
	for (int i = 0; i < rounds; ++i)
		for (int bits : {8, 16, 32})
			for (int channels : {1, 2}) {
				Writer<T> w(8000, bits, channels);
				int n = 0;
				for (int k = r.range(1, 4); k > 0; --k) {
					int m = r.below(10);
					w.write(r, m, r.below(2));
					n += m;
				}
				int z = r.below(3);
				w.silence(z);
				n += z;
				w.finish();
				std::unique_ptr<ReadAs<T>> x(new DSP::ReadWAV<T>(w.path.c_str()));
				std::vector<T> got(n * channels);
				x->read(got.data(), n);
				Ev("back").i("o", w.o).fs("got", got);
			}
}
#if defined ABSTRACT
// A source of samples that does not know how many there are
template <typename T>
struct Source : public DSP::ReadPCM<T>
{
	void read(T *buf, int num, int stride) override
	{
		for (int i = 0; i < num; ++i)
			buf[stride < 0 ? i : i * stride] = T(stride);
	}
	bool good() override { return true; }
	void skip(int) override {}
	int rate() override { return 8000; }
	int channels() override { return 1; }
};
int main()
{
	int f = thorough() ? 10 : 1;
	shard("write");
	writers<float>(11, 3 * f);
	writers<double>(12, 2 * f);
	shard("read");
	readers<float>(13, 4 * f);
	readers<double>(14, 3 * f);
	back<float>(15, 2 * f);
	shard("plain");
	{
		std::unique_ptr<DSP::ReadPCM<float>> s(new Source<float>());
		float x = 0;
		s->read(&x, 1);
		Ev("source").i("frames", s->frames()).b("packed", x < 0);
		// nowhere to write to
		std::string no = scratch("no such directory/x.wav"), dir = outdir();
		for (const char *name : {no.c_str(), dir.c_str()})
			for (int bits : {8, 16, 32}) {
				std::unique_ptr<DSP::WritePCM<float>> w(new DSP::WriteWAV<float>(name, 8000, bits, 1));
				bool g = w->good();
				w->write(&x, 1);
				Ev("nowhere").b("good", g).b("later", w->good());
			}
	}
	done();
	return 0;
}
#elif !defined READER
template <typename T>
void sweep(int bits)
{
	// every level, and values close to the decision thresholds
	int full = bits == 8 ? 127 : 32767;
	for (int start = -full - 3; start <= full + 3; start += bits == 8 ? 64 : 64 * 16) {
		Writer<T> w(8000, bits, 1);
		std::vector<T> buf;
		for (int i = start; i < start + 64; ++i)
			for (double d : {0., .45, -.45})
				buf.push_back(T((i + d) / full));
		w.w->write(buf.data(), buf.size());
		Ev("write").i("o", w.o).i("num", buf.size()).i("stride", 1).fs("buf", buf).b("good", w.w->good());
		w.finish();
	}
}
int main()
{
	int f = thorough() ? 10 : 1;
	shard("float");
	writers<float>(1, 6 * f);
	shard("double");
	writers<double>(2, 6 * f);
	shard("sweep");
	sweep<float>(8);
	sweep<double>(16);
	sweep<float>(16);
	shard("long");
	{
		Rng r(3);
		for (int bits : {8, 16, 32})
			for (int channels : {1, 2, 5}) {
				// far beyond the buffer of the stream, and sizes of more than two and three bytes
				Writer<float> w(48000, bits, channels);
				w.bulk(r, 100, 300 + r.below(500));
				w.finish_long();
			}
		Writer<float> w(8000, 16, 2);
		w.bulk(r, 10000, 450);
		w.finish_long();
		Writer<float> u(8000, 8, 300);
		u.bulk(r, 10, 10);
		u.finish_long();
		// many frames at once
		Writer<double> v(8000, 8, 1);
		v.bulk(r, 40000, 2);
		v.bulk(r, 70001, 4);
		v.finish_long();
		Writer<float> x(8000, 16, 3);
		x.bulk(r, 33000, 2);
		x.finish_long();
	}
	shard("pairs");
	{
		// two writers at once
		Rng r(4);
		for (int i = 0; i < 5 * f; ++i) {
			Writer<float> a(8000, 16, 2, "a.wav"), b(44100, 8, 1, "b.wav");
			for (int j = 0; j < 6; ++j) {
				a.write(r, r.below(4), r.below(2));
				b.write(r, r.below(4), -1);
			}
			b.finish();
			a.write(r, 2, -1);
			a.finish();
		}
		// formats that are none give float files
		for (int bits : {0, 24, 64, 12}) {
			Writer<float> w(8000, 32, 1);
			w.finish();
			std::string p = scratch("odd.wav");
			{
				DSP::WriteWAV<float> x(p.c_str(), 8000, bits, 1);
				float v = 0.25f;
				x.write(&v, 1);
			}
			Bytes b = load(p);
			int o = ++next_id;
			Ev("writer").i("o", o).i("bits", 32).i("rate_given", 8000).i("channels_given", 1).i("rate", 8000).i("channels", 1)
				.b("good", true).i("p", 24);
			Ev("write").i("o", o).i("num", 1).i("stride", 1).fs("buf", std::vector<float>{0.25f}).b("good", true);
			Ev("file").i("o", o).is("bytes", b);
		}
	}
	done();
	return 0;
}
#else
int main()
{
	int f = thorough() ? 10 : 1;
	shard("script");
	for (auto &s : scripts("wav"))
		for (int bits : {8, 16, 32}) {
			Rng r(bits);
			Reader<float> x(random_file(r, bits, 2, 3, false, false));
			for (auto &c : s)
				if (c.first == "read")
					x.read(c.second, -1);
				else
					x.skip(c.second);
		}
	shard("float");
	readers<float>(1, 8 * f);
	shard("double");
	readers<double>(2, 8 * f);
	shard("codes");
	{
		// every 8-bit code, many 16-bit codes
		Bytes b = wav_header(8, 8000, 1, 256);
		for (int i = 0; i < 256; ++i)
			b.push_back(i);
		Reader<float> x(b);
		x.read(256, -1);
		x.read(1, -1);
		Reader<double> y(b);
		y.read(256, 1);
		for (int part = 0; part < 4; ++part) {
			Bytes c = wav_header(16, 8000, 2, 512);
			for (int i = 0; i < 1024; ++i)
				le(c, part % 2 ? i * 64 - 32768 + part : i - 512 + (part ? 0 : 32768), 2);
			Reader<float> z(c);
			z.read(500, -1);
			z.read(12, 1);
			z.read(1, 1);
		}
	}
	shard("back");
	back<float>(3, 5 * f);
	back<double>(4, 5 * f);
	shard("long");
	{
		Rng r(5);
		Bytes b = random_file(r, 16, 2, 3000, false, false);
		Reader<float> x(b);
		x.skip(1000);
		x.read(5, -1);
		x.skip(1990);
		x.read(5, 1);
		x.read(1, 0);
		// unfinished while being written
		Writer<float> w(8000, 16, 1);
		std::vector<float> buf(70000, 0.5f);
		w.w->write(buf.data(), 70000);
		Bytes h = load(w.path);
		h.resize(100);
		Reader<float> y(h);
		y.read(28, -1);
		y.read(1, -1);
	}
	shard("far");
	{
		// many frames at once, and distances of more than two bytes
		Rng r(6);
		for (int bits : {8, 16, 32}) {
			int channels = bits == 16 ? 2 : 1, frames = 70000 * 8 / bits / channels + r.below(50), part = frames / 7;
			Bytes b = random_file(r, bits, channels, frames, bits == 16, bits == 32);
			Reader<float> x(b);
			x.skip(frames - 10);
			x.read(4, -1);
			x.skip(3);
			x.read(3, 0);
			x.read(1, 0);
			Reader<double> y(b);
			y.read(1, -1);
			y.skip(3 * part);
			y.read(2, -1);
			y.skip(3 * part);
			y.read(2, 2);
		}
		Bytes b = random_file(r, 8, 1, 70000, false, false);
		Reader<float> z(b);
		z.read(66000, -1);
		z.read(3, -1);
	}
	done();
	return 0;
}
#endif
