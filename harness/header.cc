// Readers on malformed headers
#include "h.hh"
#include "files.hh"
#include "wav.hh"
#include "netpbm.hh"
using namespace H;

void wav(const Bytes &b, bool record = true)
{
	std::string p = scratch("x.wav");
	store(p, b);
	bool good, later;
	{
		Obj<DSP::ReadWAV<float>> r(p.c_str());
		good = r->good();
		int ch = r->channels();
		if (ch > 0 && ch < 1000) {
			std::vector<float> buf(2 * ch);
			r->read(buf.data(), 1);
			r->skip(1);
			r->read(buf.data(), 2);
		}
		r->frames();
		r->rate();
		r->bits();
		later = r->good();
	}
	Ev("wav").is("bytes", b).b("good", good).b("later", later);
}
void pnm(const Bytes &b)
{
	std::string p = scratch("x.pnm");
	store(p, b);
	bool good, later;
	{
		Obj<DSP::ReadPNM<float>> r(p.c_str());
		good = r->good();
		float buf[30];
		r->read(buf, 1);
		r->read(buf, 2);
		r->mono();
		r->width();
		r->height();
		later = r->good();
	}
	Ev("pnm").is("bytes", b).b("good", good).b("later", later);
}
template <typename F>
void changes(const Bytes &b, int head, F check, Rng &r)
{
	for (int n = 0; n <= int(b.size()); ++n)
		check(Bytes(b.begin(), b.begin() + n));
	for (int i = 0; i < head; ++i) {
		if (thorough()) {
			for (int v = 0; v < 256; ++v) {
				Bytes c(b);
				c[i] = v;
				check(c);
			}
			continue;
		}
		for (int v : {0, 255, b[i] + 1, b[i] - 1, b[i] ^ 128, b[i] ^ 32, b[i] ^ 2, b[i] ^ 16, b[i] ^ (1 << r.below(8)), r.below(256), r.below(256)}) {
			Bytes c(b);
			c[i] = v & 255;
			check(c);
		}
	}
	for (int i = 0; i < head; ++i) { // insertions and deletions
		Bytes c(b), d(b);
		c.erase(c.begin() + i);
		check(c);
		d.insert(d.begin() + i, r.below(256));
		check(d);
		std::swap(d[i], d[i + 1]);
		check(d);
	}
}
Bytes text(const std::string &s) { return Bytes(s.begin(), s.end()); }
int main()
{
	shard("wav");
	Rng r(1);
	{
		struct { int bits, ch, frames; bool unknown, ext; } t[] = {
			{8, 1, 3, false, false}, {16, 2, 2, false, false}, {32, 1, 2, false, true}, {16, 1, 2, false, true}, {8, 2, 1, true, false}, {32, 2, 1, true, true},
			{16, 2, 0, false, false}, {32, 2, 0, false, true},
		};
		int k = 0;
		for (auto &x : t) {
			if (++k == 4)
				shard("wav2");
			Bytes b = wav_header(x.bits, 44100, x.ch, x.frames, x.unknown, x.ext);
			int head = b.size();
			for (int i = 0; i < x.frames * x.ch * x.bits / 8; ++i)
				b.push_back(r.below(256));
			changes(b, head, [](const Bytes &c) { wav(c); }, r);
		}
		// two fields changed together: consistent and inconsistent headers
		for (int bits : {0, 1, 4, 8, 12, 16, 24, 32, 64})
			for (int ch : {0, 1, 2, 7})
				for (int rate : {0, 1, 8000, 192000})
					for (int ext = 0; ext < 2; ++ext)
						wav(wav_header(bits, rate, ch, 5, false, ext));
		// sizes of data that do not fit the format, the other fields consistent with them
		for (int bits : {0, 1, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 64, 128, 256, 264, 65535})
			for (int format : {0, 1, 2, 3, 4, 257, 65534})
				for (int ch : {0, 1, 3, 256})
					for (int ext = 0; ext < 2; ++ext)
						for (int size : {1, 10, 768}) {
							if (!thorough() && r.below(8))
								continue;
							int align = bits / 8 * ch;
							Bytes b = wav_fields(format, ch, 8000, 8000 * align, align & 65535, bits, ext, 0, 4, 5, size);
							b.push_back(0);
							wav(b);
						}
		// lengths of the optional parts
		for (int ext : {0, 1, 2, 22, 256})
			for (int fact : {0, 1, 3, 4, 5, 8, 260})
				for (int frames : {-1, 0, 5, 2000000000}) {
					Bytes b = wav_fields(1, 1, 8000, 16000, 2, 16, true, ext, fact, frames, 10);
					for (int i = 0; i < 10; ++i)
						b.push_back(i);
					wav(b);
				}
		for (int n : {0, 1, 2, 3, 4, 5, 8, 40, 43, 44, 45, 57, 58, 59, 100})
			for (int i = 0; i < (thorough() ? 100 : 5); ++i) {
				Bytes b;
				for (int j = 0; j < n; ++j)
					b.push_back(r.below(256));
				wav(b);
				// the right tags and random bytes
				Bytes c = wav_header(16, 8000, 1, 1);
				for (int j = 0; j < 3; ++j)
					c[r.below(44)] = r.below(256);
				wav(c);
			}
	}
	shard("pnm");
	for (const char *s : {"P5 3 2 255\n", "P6\n# x\n3 2\n255\n", "P5\n12 34\n15\n", "P6 1\t1 1 ", "P5\n#1 2 3\n#\n1 1 255\n"}) {
		Bytes b = text(s);
		int head = b.size();
		for (int i = 0; i < 6; ++i)
			b.push_back(i);
		changes(b, head, [](const Bytes &c) { pnm(c); }, r);
	}
	for (const char *s : {"P5 3 2 255", "P5  3  2  255 ", "P53 2 255\n", "P5 3 2\n", "P5\n\n\n", "P5 # 3 2 255\n", "P5 3#\n2 255\n", "P7 3 2 255\n", "P4 3 2\n", "P 5 3 2 255\n",
			"P5 -3 2 255\n", "P5 3 2 2x5\n", "P5 0x3 2 255\n", "P5 3,2 255\n", "P5 3 2 255x", "P5\n#", "P5\n#\n", "P5\n#\n#\n1 1 1\n", "P5 1 1 1\n", "P5\r\n1 1 1\n", "p5 1 1 1\n", "P5 1 1 1#\n",
			"P5 99999999999999999999 1 1\n", "P5 1 1 99999999999 ", "P5 1 1 256\n", "P5 0 1 255\n", "P5 1 1 0\n", "", "P", "P5", "P5 ", "P5 1 ", "P5 1 1 ", "P5 1 1 1"})
		pnm(text(s));
	shard("pnm-strings");
	{
		// every string of up to some length behind P5, and with a good start
		const char *alphabet = " \n#1x";
		for (const char *start : {"P5", "P6 1\n", "P5 11\n#1\n1 "})
			for (int n = 0; n <= (thorough() ? 6 : 4); ++n) {
				int m = 1;
				for (int i = 0; i < n; ++i)
					m *= 5;
				for (int w = 0; w < m; ++w) {
					std::string s(start);
					for (int i = 0, x = w; i < n; ++i, x /= 5)
						s += alphabet[x % 5];
					pnm(text(s));
				}
			}
		for (int i = 0; i < 300; ++i) {
			Bytes b;
			for (int j = r.below(30); j > 0; --j)
				b.push_back(r.below(256));
			pnm(b);
		}
	}
	shard("missing");
	{
		std::string p = scratch("no-such-file");
		float buf[8] = {0};
		DSP::ReadWAV<float> a(p.c_str());
		bool g = a.good();
		a.read(buf, 1);
		a.skip(1);
		Ev("missing").b("good", g).b("later", a.good());
		DSP::ReadPNM<float> b(p.c_str());
		g = b.good();
		b.read(buf, 1);
		Ev("missing").b("good", g).b("later", b.good());
		DSP::ReadWAV<double> c(outdir().c_str()); // a directory
		Ev("missing").b("good", c.good()).b("later", c.good());
		DSP::ReadPNM<double> d(outdir().c_str());
		Ev("missing").b("good", d.good()).b("later", d.good());
	}
	done();
	return 0;
}
