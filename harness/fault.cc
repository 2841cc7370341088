// Writers of files on a device that takes no more, or in a program that ends too early
#include "h.hh"
#include "files.hh"
#include "wav.hh"
#include "netpbm.hh"
#include <cerrno>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace H;

// What the child tells, before it possibly ends at any point
struct Told
{
	int n, goods[64], fails[64], handed[64], finishing, failed, calls;
};
static Told *told;
// Writes to the device in the child: the program ends instead of the one with number crash,
// those from number full on fail, number once fails, none takes more than most bytes
static bool armed = false;
static int crash = -1, full = -1, once = -1, most = -1, seen = 0;
static ssize_t through(int fd, const struct iovec *v, int n)
{
	if (!armed)
		return syscall(SYS_writev, fd, v, n);
	int k = seen++;
	++told->calls;
	if (k == crash)
		_exit(9);
	if (k == once || (full >= 0 && k >= full)) {
		++told->failed;
		errno = ENOSPC;
		return -1;
	}
	ssize_t r;
	if (most > 0) {
		while (n > 1 && !v->iov_len)
			++v, --n;
		r = syscall(SYS_write, fd, v->iov_base, v->iov_len < size_t(most) ? v->iov_len : size_t(most));
	} else {
		r = syscall(SYS_writev, fd, v, n);
	}
	if (r < 0)
		++told->failed;
	return r;
}
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
	struct iovec v = {const_cast<void *>(b), n};
	return through(fd, &v, 1);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n)
{
	return through(fd, v, n);
}

struct Fault
{
	const char *kind;
	int value;
};
struct Call
{
	bool silence;
	int num;
};
struct Sink
{
	virtual void call(const Call &c) = 0;
	virtual bool good() = 0;
	virtual ~Sink() {}
};
static const int BLOCK = 1000;
template <typename T>
struct Wave : public Sink
{
	std::vector<T> buf;
	DSP::WriteWAV<T> w;
	int channels;
	Wave(const std::string &path, int rate, int bits, int channels, int key) : w(path.c_str(), rate, bits, channels), channels(channels)
	{
		for (int i = 0; i < BLOCK * channels; ++i)
			buf.push_back(T((i * 37 + key * 11) % 201 - 100) / 100);
	}
	void call(const Call &c) override
	{
		if (c.silence)
			return w.silence(c.num);
		for (int n = c.num; n > 0; n -= BLOCK)
			w.write(buf.data(), n < BLOCK ? n : BLOCK);
	}
	bool good() override { return w.good(); }
};
template <typename T>
struct Image : public Sink
{
	std::vector<T> buf;
	DSP::WritePNM<T> w;
	Image(const std::string &path, int width, int height, bool mono, int key) : w(path.c_str(), width, height, mono)
	{
		for (int i = 0; i < BLOCK * (mono ? 1 : 3); ++i)
			buf.push_back(T((i * 37 + key * 11) % 101) / 100);
	}
	void call(const Call &c) override
	{
		for (int n = c.num; n > 0; n -= BLOCK)
			w.write(buf.data(), n < BLOCK ? n : BLOCK);
	}
	bool good() override { return w.good(); }
};

// overhead and unit: bytes of header and frame
template <typename M>
void run(Ev &ev, M make, const std::vector<Call> &calls, Fault f, int overhead, int unit, Bytes &got, Bytes &whole)
{
	std::string path = scratch("fault.bin"), ref = scratch("whole.bin");
	{
		std::unique_ptr<Sink> s(make(ref));
		for (const Call &c : calls)
			s->call(c);
	}
	whole = load(ref);
	unlink(path.c_str());
	std::string kind(f.kind);
	*told = Told();
	fflush(out);
	pid_t pid = fork();
	if (pid == 0) {
		signal(SIGXFSZ, SIG_IGN);
		if (kind == "limit") {
			struct rlimit l;
			getrlimit(RLIMIT_FSIZE, &l);
			l.rlim_cur = f.value;
			setrlimit(RLIMIT_FSIZE, &l);
		}
		crash = kind == "crash" ? f.value : -1;
		full = kind == "full" ? f.value : -1;
		once = kind == "once" ? f.value : -1;
		most = kind == "most" ? f.value : -1;
		seen = 0;
		armed = true;
		Sink *s = make(path);
		long long handed = overhead;
		for (int i = 0;; ++i) {
			told->goods[told->n] = s->good();
			told->fails[told->n] = told->failed;
			told->handed[told->n] = clampi(handed);
			++told->n;
			if (i == int(calls.size()))
				break;
			s->call(calls[i]);
			handed += (long long)calls[i].num * unit;
		}
		if (kind == "exit")
			_exit(9);
		told->finishing = 1;
		delete s;
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9))
		exit(79);
	got = load(path);
	int same = 0;
	while (overhead + same < int(got.size()) && overhead + same < int(whole.size()) && got[overhead + same] == whole[overhead + same])
		++same;
	ev.str("kind", kind).i("value", f.value).b("ended", WEXITSTATUS(st) == 9).b("finishing", told->finishing)
		.is("goods", std::vector<int>(told->goods, told->goods + told->n))
		.is("fails", std::vector<int>(told->fails, told->fails + told->n))
		.is("handed", std::vector<int>(told->handed, told->handed + told->n))
		.i("failed", told->failed).i("length", got.size()).i("whole", whole.size()).i("same", same);
}
template <typename T>
void wave(Rng &r, const std::vector<Call> &calls, Fault f, int bits, int channels)
{
	int rate = r.range(1, 100000), key = r.below(100), overhead = bits == 32 ? 58 : 44;
	Ev ev("wave");
	Bytes got, whole;
	run(ev, [=](const std::string &p) { return new Wave<T>(p, rate, bits, channels, key); }, calls, f, overhead, channels * (bits / 8), got, whole);
	DSP::ReadWAV<T> in(scratch("fault.bin").c_str());
	ev.i("overhead", overhead).i("bits", bits).i("channels", channels).i("rate", rate)
		.is("head", Bytes(got.begin(), got.begin() + min(int(got.size()), overhead)))
		.is("intended", Bytes(whole.begin(), whole.begin() + min(int(whole.size()), overhead)))
		.b("rgood", in.good()).i("rframes", in.frames());
}
template <typename T>
void image(Rng &r, const std::vector<Call> &calls, Fault f, bool mono)
{
	int num = 0, key = r.below(100);
	for (const Call &c : calls)
		num += c.num;
	int height = num % 4 ? 1 : 4, width = num / height;
	Ev ev("image");
	char head[64];
	int overhead = snprintf(head, sizeof head, "P%d %d %d 255\n", mono ? 5 : 6, width, height);
	Bytes got, whole;
	run(ev, [=](const std::string &p) { return new Image<T>(p, width, height, mono, key); }, calls, f, overhead, mono ? 1 : 3, got, whole);
	ev.i("overhead", overhead)
		.is("head", Bytes(got.begin(), got.begin() + min(int(got.size()), overhead)))
		.is("intended", Bytes(whole.begin(), whole.begin() + min(int(whole.size()), overhead)));
}
// The calls and the fault, in units of about half of a buffer, or less
void both(Rng &r, std::vector<Call> calls, Fault f, int bytes)
{
	static const int formats[][2] = {{8, 1}, {8, 2}, {16, 1}, {16, 2}, {16, 3}, {32, 1}, {32, 2}, {16, 6}};
	int k = r.below(8), bits = formats[k][0], channels = formats[k][1], overhead = bits == 32 ? 58 : 44;
	bool limit = !strcmp(f.kind, "limit");
	int frame = channels * (bits / 8);
	std::vector<Call> c(calls);
	for (Call &x : c)
		x.num = x.num * bytes / frame;
	Fault g(f);
	if (limit)
		g.value = f.value < 2 ? f.value * 20 : overhead + (f.value - 2) * (bytes / frame * frame) + r.range(-2, 2);
	if (r.below(2))
		wave<float>(r, c, g, bits, channels);
	else
		wave<double>(r, c, g, bits, channels);
	bool mono = r.below(2);
	for (Call &x : calls)
		x.num = x.num * bytes / (mono ? 1 : 3);
	if (limit)
		f.value = f.value < 2 ? f.value * 7 : 15 + (f.value - 2) * bytes + r.range(-8, 8);
	if (r.below(2))
		image<float>(r, calls, f, mono);
	else
		image<double>(r, calls, f, mono);
}

int main()
{
	Rng r(44);
	told = static_cast<Told *>(mmap(nullptr, sizeof(Told), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	shard("model");
	for (const auto &s : scripts("fault")) {
		if (sanitized && !thorough() && r.below(4))
			continue;
		std::vector<Call> c;
		for (size_t i = 0; i + 1 < s.size(); ++i)
			c.push_back({s[i].first == "silence", s[i].second});
		bool ends = s.back().first == "crash";
		both(r, c, {ends ? "crash" : "limit", s.back().second}, 4096);
		if (ends)
			both(r, c, {r.below(2) ? "full" : "once", s.back().second}, 4096);
	}
	shard("points");
	for (int i = 0; i < (thorough() ? 1500 : sanitized ? 40 : 160); ++i) {
		// all numbers of writes to the device, and the program that ends without the destructor
		std::vector<Call> c;
		for (int j = r.below(5); j > 0; --j)
			c.push_back({r.below(3) == 0, r.below(4) ? r.range(0, 3) : r.range(0, 30)});
		static const char *const kinds[] = {"crash", "full", "once", "exit"};
		both(r, c, {kinds[i % 4], r.below(4) ? r.below(5) : r.below(20)}, r.below(2) ? 4096 : r.range(1, 9000));
	}
	shard("limits");
	for (int limit = 0; limit < (thorough() ? 140 : 75); limit += sanitized ? 3 : 1) {
		// any number of bytes around the header
		int n = r.below(40);
		std::vector<Call> c = {{false, n}, {true, r.below(3)}};
		wave<float>(r, c, {"limit", limit}, 8, 1);
		wave<double>(r, c, {"limit", limit}, 16, 2);
		wave<float>(r, c, {"limit", limit}, 32, 1);
		image<float>(r, c, {"limit", limit}, limit % 2);
	}
	for (int i = 0; i < (thorough() ? 400 : sanitized ? 10 : 40); ++i) {
		// exactly as much as it takes, or one byte less, and far more than it takes
		int n = r.range(1, 9000), bits = 8 << r.below(3), channels = r.range(1, 3);
		int total = (bits == 32 ? 58 : 44) + n * channels * (bits / 8);
		wave<float>(r, {{false, n / 2}, {false, n - n / 2}}, {"limit", total - i % 2}, bits, channels);
		wave<float>(r, {{false, n}, {true, 70000}, {false, 100}, {true, 100}}, {"limit", r.below(total)}, bits, channels);
		image<double>(r, {{false, n}, {false, 70000}, {false, 100}}, {"limit", r.below(n)}, i % 2);
	}
	shard("short");
	for (int i = 0; i < (thorough() ? 150 : sanitized ? 5 : 20); ++i) {
		// a device that takes a few bytes at a time
		std::vector<Call> c = {{false, r.range(0, 20000)}, {true, r.below(3000)}, {false, r.below(100)}};
		both(r, c, {"most", r.below(2) ? r.range(1, 100) : r.range(100, 10000)}, 1);
	}
	done();
	return 0;
}
