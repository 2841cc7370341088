// Files in the scratch directory given by the check
#pragma once
#include "h.hh"
namespace H {
typedef std::vector<unsigned char> Bytes;
inline std::string scratch(const std::string &name)
{
	const char *t = getenv("TMPDIR");
	if (!t)
		exit(76);
	return outdir() + "/" + name;
}
inline Bytes load(const std::string &path)
{
	std::ifstream f(path, std::ios::binary);
	return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline void store(const std::string &path, const Bytes &b)
{
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f.write(reinterpret_cast<const char *>(b.data()), b.size());
}
inline void le(Bytes &b, long long v, int n)
{
	for (int i = 0; i < n; ++i)
		b.push_back(255 & (v >> (8 * i)));
}
inline void tag(Bytes &b, const char *s)
{
	for (; *s; ++s)
		b.push_back(*s);
}
// A WAV header of any fields
inline Bytes wav_fields(int format, int channels, int rate, int byterate, int align, int bits, bool ext, int extsize, int factsize, int frames, int size)
{
	Bytes b;
	tag(b, "RIFF");
	le(b, size + (ext ? 50 : 36), 4);
	tag(b, "WAVE");
	tag(b, "fmt ");
	le(b, ext ? 18 : 16, 4);
	le(b, format, 2);
	le(b, channels, 2);
	le(b, rate, 4);
	le(b, byterate, 4);
	le(b, align, 2);
	le(b, bits, 2);
	if (ext) {
		le(b, extsize, 2);
		tag(b, "fact");
		le(b, factsize, 4);
		le(b, frames, 4);
	}
	tag(b, "data");
	le(b, size, 4);
	return b;
}
// A WAV header written independently; unknown: as left by a writer which did not finish
inline Bytes wav_header(int bits, int rate, int channels, int frames, bool unknown = false, bool ext = false)
{
	Bytes b;
	int bytes = bits / 8, size = frames * channels * bytes;
	ext = ext || bits == 32;
	int overhead = ext ? 58 : 44;
	tag(b, "RIFF");
	le(b, unknown ? overhead - 8 : size + overhead - 8, 4);
	tag(b, "WAVE");
	tag(b, "fmt ");
	le(b, ext ? 18 : 16, 4);
	le(b, bits == 32 ? 3 : 1, 2);
	le(b, channels, 2);
	le(b, rate, 4);
	le(b, (long long)rate * channels * bytes, 4);
	le(b, channels * bytes, 2);
	le(b, bits, 2);
	if (ext) {
		le(b, 0, 2);
		tag(b, "fact");
		le(b, 4, 4);
		le(b, unknown ? 0 : frames, 4);
	}
	tag(b, "data");
	le(b, unknown ? -1 : size, 4);
	return b;
}
}
