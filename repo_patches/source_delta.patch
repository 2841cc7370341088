From dfc37c6760b05669b9154430f67cc09b1df76d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:35 +0000
Subject: [PATCH 01/11] fix: start MovMax from the lowest value of the type

numeric_limits<TYPE>::min() is the smallest positive value when TYPE is a
floating-point type. A sample equal to it was taken for one of the initial
values of the window and dropped from the maximum too early.
---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From 5e2f20d97d8b5eaa8b3b4d993f57ba008a01091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:01 +0000
Subject: [PATCH 02/11] fix: keep every bin when zero padding in the frequency
 domain

With an odd INPUT the highest negative frequency stayed at its old place.
With OUTPUT smaller than one and a half times INPUT the moved bins overwrote
bins that were still to be moved. Move them from the top down and clear
everything between the two halves of the spectrum.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..decc984 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i < OUTPUT-(INPUT-1)/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From 3e77199395556e3e4cab6bf1305a685b9b4cb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 03/11] fix: scale by any power of two that a double can hold

The shift by an eighth of the exponent overflowed int for exponents of 248
and more, so that exp10() and idecibel() were wrong for double results above
1e74 or below 1e-74.
---
 exp.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..3ac0a1b 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,16 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
+	int a64 = a / 64;
+	int ar = a - a64 * 64;
+	TYPE t = 1 << a64;
 	t *= t;
 	t *= t;
 	t *= t;
-	t *= 1 << ar;
+	t *= t;
+	t *= t;
+	t *= t;
+	t *= 1ULL << ar;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0


From 28ebc341acd26b6bfe9f8ec73662caac51de1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 04/11] fix: do not report a rejected WAV or PNM header as good

The readers stopped at the first header field they do not support, but left
the stream in a good state and their members uninitialized. The caller could
not tell a rejected file from a supported one.
---
 netpbm.hh | 8 +++++---
 wav.hh    | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..eef7025 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -16,7 +16,7 @@ class ReadPNM : public ReadPEL<TYPE>
 {
 	std::ifstream is;
 	int width_, height_, maxval_;
-	bool mono_;
+	bool mono_, valid;
 
 	TYPE linear(int val)
 	{
@@ -41,7 +41,8 @@ class ReadPNM : public ReadPEL<TYPE>
 		return c - '0';
 	}
 public:
-	ReadPNM(const char *name) : is(name, std::ios::binary)
+	ReadPNM(const char *name) : is(name, std::ios::binary),
+		width_(0), height_(0), maxval_(255), mono_(false), valid(false)
 	{
 		if (is.get() != 'P')
 			return;
@@ -73,6 +74,7 @@ public:
 		width_ = num[0];
 		height_ = num[1];
 		maxval_ = num[2];
+		valid = true;
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
@@ -98,7 +100,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return valid && is.good();
 	}
 	bool mono()
 	{
diff --git a/wav.hh b/wav.hh
index 94c8e95..5635047 100644
--- a/wav.hh
+++ b/wav.hh
@@ -17,6 +17,7 @@ class ReadWAV : public ReadPCM<TYPE>
 	std::ifstream is;
 	int bits_, bytes, rate_, channels_, frames_;
 	int offset, factor;
+	bool valid;
 	int readLE(int b)
 	{
 		int v = 0;
@@ -45,7 +46,9 @@ class ReadWAV : public ReadPCM<TYPE>
 		return u.f;
 	}
 public:
-	ReadWAV(const char *name) : is(name, std::ios::binary)
+	ReadWAV(const char *name) : is(name, std::ios::binary),
+		bits_(0), bytes(0), rate_(0), channels_(0), frames_(-1),
+		offset(0), factor(1), valid(false)
 	{
 		char ChunkID[4];
 		is.read(ChunkID, 4);
@@ -125,6 +128,7 @@ public:
 			default:
 				return;
 		}
+		valid = true;
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
@@ -141,7 +145,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return valid && is.good();
 	}
 	void skip(int num)
 	{
-- 
2.43.0


From 3543eda6a8477a83dcbc59185f0ffb6d21252c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 05/11] fix: derive the WAV header length from the chunks that
 were read

The reader took the length from the sample format. It rejected 32-bit float
files with a 16 byte format chunk and 8 or 16 bit files with an 18 byte
format chunk and a fact chunk, although it parses both.
---
 wav.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav.hh b/wav.hh
index 5635047..da25877 100644
--- a/wav.hh
+++ b/wav.hh
@@ -103,7 +103,7 @@ public:
 		if (cmp4("data", Subchunk2ID))
 			return;
 		int Subchunk2Size = readLE(4);
-		int overhead = bits_ == 32 ? 58 : 44;
+		int overhead = Subchunk1Size == 18 ? 58 : 44;
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-- 
2.43.0


From 1e01ebef82a1f470894839ddb68fa92dd99432e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 06/11] fix: reject WAV headers without channels

A header with zero channels, block align and byte rate passed every check
and then divided by zero when the number of frames was computed.
---
 wav.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wav.hh b/wav.hh
index da25877..25ab6ba 100644
--- a/wav.hh
+++ b/wav.hh
@@ -70,6 +70,8 @@ public:
 		if (AudioFormat != 1 && AudioFormat != 3)
 			return;
 		channels_ = readLE(2);
+		if (channels_ < 1)
+			return;
 		rate_ = readLE(4);
 		int ByteRate = readLE(4);
 		int BlockAlign = readLE(2);
-- 
2.43.0


From e3ac9aa1350b31a164a264ccc1db365afa405911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:28 +0000
Subject: [PATCH 07/11] fix: accept comment lines after blank lines in Netpbm
 headers

Comments were only skipped directly after the newline which ends a field, so
a header with blanks or an empty line before a comment line was rejected.
---
 netpbm.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index eef7025..6c2c393 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -61,11 +61,13 @@ public:
 			return;
 		int num[3];
 		for (int i = 0; i < 3; ++i) {
-			if (newline(c))
-				for (c = is.get(); c == '#'; c = is.get())
-					while (is.good() && !newline(is.get()));
-			while (space(c))
-				c = is.get();
+			while (space(c)) {
+				if (newline(c))
+					for (c = is.get(); c == '#'; c = is.get())
+						while (is.good() && !newline(is.get()));
+				else
+					c = is.get();
+			}
 			for (num[i] = 0; digit(c); c = is.get())
 				num[i] = 10 * num[i] + value(c);
 		}
-- 
2.43.0


From a6cd54077e178f0a1785ddef35dbf31e0d05edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:28 +0000
Subject: [PATCH 08/11] fix: do not round the sRGB threshold when reading
 Netpbm files

With some maximum values, 38 for example, the threshold was rounded up to a
code above it, and that code was decoded with the wrong branch.
---
 netpbm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6c2c393..8341de3 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -20,7 +20,7 @@ class ReadPNM : public ReadPEL<TYPE>
 
 	TYPE linear(int val)
 	{
-		int K0 = std::nearbyint(0.04045 * maxval_);
+		TYPE K0(0.04045 * maxval_);
 		TYPE phi(12.92 * maxval_), a(0.055 * maxval_), gamma(2.4);
 		return val <= K0 ? val / phi : std::pow((val + a) / (maxval_ + a), gamma);
 	}
-- 
2.43.0


From 78c2338130243452c0c1009b787d9c8f6abee944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:48 +0000
Subject: [PATCH 09/11] fix: take the absolute value of deviations in their own
 type

---
 sma.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sma.hh b/sma.hh
index dd2039a..52887e1 100644
--- a/sma.hh
+++ b/sma.hh
@@ -6,6 +6,8 @@ Copyright 2019 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <cmath>
+#include <cstdlib>
 #include "kahan.hh"
 #include "delay.hh"
 #include "swa.hh"
@@ -26,6 +28,7 @@ public:
 	}
 	VALUE abs_dev()
 	{
+		using std::abs;
 		VALUE sum(abs(hist_inp[0] - hist_avg));
 		for (int i = 1; i < NUM; ++i)
 			sum += abs(hist_inp[i] - hist_avg);
-- 
2.43.0


From 50d1b78d7d8f2ed07397003713b18e39e999bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:48 +0000
Subject: [PATCH 10/11] fix: normalize coefficients by the absolute value in
 their own type

---
 coeffs.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coeffs.hh b/coeffs.hh
index a9bccd6..a9e123f 100644
--- a/coeffs.hh
+++ b/coeffs.hh
@@ -6,6 +6,8 @@ Copyright 2018 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <cmath>
+
 namespace DSP {
 
 template <int TAPS, typename TYPE, bool NORMALIZE = false>
@@ -31,6 +33,7 @@ public:
 	}
 	void normalize(TYPE divisor = 1)
 	{
+		using std::abs;
 		TYPE sum(0);
 		for (int n = 0; n < TAPS; ++n)
 			sum += w[n];
-- 
2.43.0


From 2bf9100837522adcc35b209583fa2e66a5ad40fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:30:28 +0000
Subject: [PATCH 11/11] fix: atan2 takes the half plane from the ordinate

For points to the left whose ordinate is so much smaller that the quotient
underflows to zero, the sign of the quotient is lost and points below the
negative axis got plus pi.
---
 atan2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atan2.hh b/atan2.hh
index a4d1ee1..df070a9 100644
--- a/atan2.hh
+++ b/atan2.hh
@@ -64,7 +64,7 @@ TYPE atan2(TYPE y, TYPE x)
 		return copysign(Const<TYPE>::HalfPi(), y);
 	TYPE phase = atan(y / x);
 	if (x < TYPE(0))
-		return phase > TYPE(0) ?
+		return y < TYPE(0) ?
 			phase - Const<TYPE>::Pi() :
 			phase + Const<TYPE>::Pi();
 	return phase;
-- 
2.43.0

