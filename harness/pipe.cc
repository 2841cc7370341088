// Readers and writers at the ends of pipes: -DWAV for recordings, otherwise images
#include "h.hh"
#include "files.hh"
#include "wav.hh"
#include "netpbm.hh"
#include <fcntl.h>
#include <sys/stat.h>
using namespace H;
static int next_id = 0;
template <typename T> struct Prec { static const int p = sizeof(T) == 4 ? 24 : 53; };

// A named pipe whose other end is held by this program, so that opening it does not wait
struct Pipe
{
	std::string path;
	int fd;
	Pipe() : path(scratch("pipe"))
	{
		unlink(path.c_str());
		if (mkfifo(path.c_str(), 0600))
			exit(79);
		fd = open(path.c_str(), O_RDWR | O_NONBLOCK);
		if (fd < 0)
			exit(79);
		// more than that is not sent at once
		fcntl(fd, F_SETPIPE_SZ, 1 << 20);
		alarm(30);
	}
	~Pipe()
	{
		shut();
		unlink(path.c_str());
		alarm(0);
	}
	void shut()
	{
		if (fd >= 0)
			close(fd);
		fd = -1;
	}
	void send(const Bytes &b, size_t from, size_t to)
	{
		while (from < to) {
			ssize_t n = ::write(fd, b.data() + from, to - from);
			if (n <= 0)
				exit(79);
			from += n;
		}
	}
	void drain(Bytes &b)
	{
		unsigned char x[4096];
		for (ssize_t n; (n = ::read(fd, x, sizeof x)) > 0;)
			b.insert(b.end(), x, x + n);
	}
};

template <typename T, typename R>
void reads(R &in, int o, int num, int ch, int extra)
{
	int stride = ch + max(extra, 0), len = (num + 1) * stride + 2;
	T mark = T(-12345.678);
	std::unique_ptr<T[]> buf(new T[len]);
	for (int i = 0; i < len; ++i)
		buf[i] = mark;
	if (extra < 0)
		in.read(buf.get(), num);
	else
		in.read(buf.get(), num, stride);
	Ev e("read");
	e.i("o", o).i("num", num).i("stride", stride).b("good", in.good());
	e.key("buf");
	e.s += '[';
	for (int i = 0; i < len; ++i)
		e.s += (i ? ",\"" : "\"") + (buf[i] == mark ? std::string("-") : hex(buf[i])) + '"';
	e.s += ']';
}
typedef std::vector<std::pair<std::string, int>> Script;
#ifdef WAV
template <typename T>
struct Format
{
	typedef DSP::ReadWAV<T> Reader;
	int overhead, ch, unit;
	Bytes make(Rng &r, int frames, bool unknown)
	{
		int bits = 8 << r.below(3);
		ch = r.range(1, 3);
		bool ext = bits == 32 || r.below(3) == 0;
		unit = ch * bits / 8;
		Bytes b = wav_header(bits, r.range(1, 200000), ch, frames, unknown, ext);
		overhead = b.size();
		for (int i = 0; i < frames * ch; ++i)
			if (bits == 32) {
				float f = r.real(-1, 1);
				int v;
				memcpy(&v, &f, 4);
				le(b, v, 4);
			} else {
				le(b, r.below(bits == 8 ? 256 : 65536), bits / 8);
			}
		return b;
	}
	void tell(Reader &in, int o, const Bytes &b)
	{
		Ev("reader").i("o", o).is("bytes", b).b("good", in.good()).i("rate", in.rate()).i("channels", in.channels())
			.i("bits", in.bits()).i("frames", in.frames()).i("p", Prec<T>::p);
	}
};
#else
template <typename T>
struct Format
{
	typedef DSP::ReadPNM<T> Reader;
	int overhead, ch, unit;
	Bytes make(Rng &r, int pixels, bool)
	{
		bool mono = r.below(2);
		unit = ch = mono ? 1 : 3;
		static const char *const gaps[] = {" ", "\n", "  ", "\t", "\n# a comment\n"};
		Bytes b;
		tag(b, mono ? "P5" : "P6");
		int num[] = {max(pixels, 1), 1, r.range(1, 255)};
		if (num[0] % 2 == 0)
			num[0] /= 2, num[1] = 2;
		for (int i = 0; i < 3; ++i) {
			tag(b, gaps[r.below(5)]);
			tag(b, std::to_string(num[i]).c_str());
		}
		tag(b, r.below(2) ? "\n" : " ");
		overhead = b.size();
		for (int i = 0; i < pixels * ch; ++i)
			b.push_back(r.below(num[2] + 1));
		return b;
	}
	void tell(Reader &in, int o, const Bytes &b)
	{
		Ev("reader").i("o", o).is("bytes", b).b("good", in.good()).b("mono", in.mono()).i("width", in.width()).i("height", in.height()).i("p", Prec<T>::p);
	}
};
#endif
// The schedule counts the header as two bytes, and a frame, or as many as times, as two
template <typename T>
void play(Rng &r, const Script &s, int times)
{
	int total = 0;
	for (auto &op : s)
		if (op.first == "send")
			total += op.second;
	int frames = (total - 2 + 1) / 2 * times, sent = 0, o = ++next_id;
	Format<T> f;
	Bytes b = f.make(r, frames, r.below(2));
	auto at = [&](int bytes) { return bytes <= 2 ? f.overhead * bytes / 2 : f.overhead + (bytes - 2) * times * f.unit / 2; };
	b.resize(at(total));
	Pipe p;
	std::unique_ptr<typename Format<T>::Reader> in;
	for (auto &op : s)
		if (op.first == "send") {
			p.send(b, at(sent), at(sent + op.second));
			sent += op.second;
		} else if (op.first == "make") {
			in.reset(new typename Format<T>::Reader(p.path.c_str()));
			f.tell(*in, o, b);
		} else if (op.first == "read") {
			for (int n = op.second * times; n > 0;) {
				int m = r.below(3) ? n : r.range(1, n);
				reads<T>(*in, o, m, f.ch, r.range(-1, 2));
				n -= m;
			}
		} else {
			p.shut();
			// the rest and what is not there
			reads<T>(*in, o, r.range(0, frames + 2), f.ch, -1);
			reads<T>(*in, o, r.range(1, frames + 2), f.ch, 0);
		}
}
#ifdef WAV
template <typename T>
void writes(Rng &r, int most)
{
	int bits = 8 << r.below(3), ch = r.range(1, 3), rate = r.range(1, 200000), o = ++next_id;
	Pipe p;
	Bytes got;
	{
		DSP::WriteWAV<T> w(p.path.c_str(), rate, bits, ch);
		Ev("writer").i("o", o).i("bits", bits).i("rate_given", rate).i("channels_given", ch)
			.i("rate", w.rate()).i("channels", w.channels()).b("good", w.good()).i("p", Prec<T>::p);
		for (int i = r.below(6); i > 0; --i) {
			int num = r.below(most);
			if (r.below(4) == 0) {
				w.silence(num);
				Ev("silence").i("o", o).i("num", num).b("good", w.good());
			} else {
				std::vector<T> buf(num * ch);
				for (T &x : buf)
					x = r.real(-1.1, 1.1);
				w.write(buf.data(), num);
				Ev("write").i("o", o).i("num", num).i("stride", ch).fs("buf", buf).b("good", w.good());
			}
			p.drain(got);
			if (r.below(3) == 0)
				Ev("stream").i("o", o).is("bytes", got).b("ended", false);
		}
	}
	p.drain(got);
	Ev("stream").i("o", o).is("bytes", got).b("ended", true);
}
#else
template <typename T>
void writes(Rng &r, int most)
{
	bool mono = r.below(2);
	int ch = mono ? 1 : 3, width = r.range(1, most), height = r.range(1, 4), maxval = r.below(2) ? 255 : r.range(1, 255), o = ++next_id;
	Pipe p;
	Bytes got;
	{
		DSP::WritePNM<T> w(p.path.c_str(), width, height, mono, maxval);
		Ev("writer").i("o", o).b("mono_given", mono).i("width_given", width).i("height_given", height).i("max", maxval)
			.b("mono", w.mono()).i("width", w.width()).i("height", w.height()).b("good", w.good()).i("p", Prec<T>::p);
		for (int i = 0; i < height; ++i) {
			std::vector<T> buf(width * ch);
			for (T &x : buf)
				x = r.real(-0.1, 1.1);
			w.write(buf.data(), width);
			Ev("write").i("o", o).i("num", width).i("stride", ch).fs("buf", buf).b("good", w.good());
			p.drain(got);
		}
	}
	p.drain(got);
	Ev("stream").i("o", o).is("bytes", got);
}
#endif

int main()
{
	signal(SIGPIPE, SIG_IGN);
	Rng r(45);
	shard("schedules");
	for (auto &s : scripts("pipe")) {
		if (!thorough() && r.below(sanitized ? 12 : 6))
			continue;
		if (r.below(2))
			play<float>(r, s, r.below(3) ? 2 : 2 * r.range(1, 6));
		else
			play<double>(r, s, r.below(3) ? 2 : 2 * r.range(1, 6));
	}
	shard("long");
	{
		// beyond the buffer of a stream
		auto all = scripts("pipe");
		for (int i = 0; i < (thorough() ? 20 : 2); ++i)
			play<float>(r, all[r.below(all.size())], 2 * r.range(500, 900));
	}
	shard("writers");
	for (int i = 0; i < (thorough() ? 300 : 30); ++i) {
		writes<float>(r, i % 10 ? 20 : 300);
		writes<double>(r, i % 10 ? 20 : 300);
	}
	shard("longer");
	for (int i = 0; i < (thorough() ? 10 : 1); ++i)
		writes<float>(r, 2000);
	done();
	return 0;
}
