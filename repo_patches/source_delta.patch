From ece6010414d6e8c2b9bc5b6f952d6c148700b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:35 +0000
Subject: [PATCH 01/94] fix: compare UTC minutes on both sides in
 LocalTime::operator<

---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From c6b6f9ac5aabec6fb77d582e6b053d4bba4badbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:35 +0000
Subject: [PATCH 02/94] fix: print the sign of UTC offsets between -00:59 and
 -00:01

---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..b65f8fd 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -200,7 +200,7 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	if (with_timezone) {
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", (_offset.hour() < 0 || _offset.minute() < 0) ? "-" : "+", abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From 8cd64a00027f729a939ba5722b1c5ef2cac9e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:35 +0000
Subject: [PATCH 03/94] fix: allow UTC offsets from -14 to +14 hours, as
 xs:dateTime does

---
 src/utc_offset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utc_offset.cc b/src/utc_offset.cc
index 8d4870d..f86058f 100644
--- a/src/utc_offset.cc
+++ b/src/utc_offset.cc
@@ -42,7 +42,7 @@ using namespace dcp;
 void
 UTCOffset::set_hour(int hour)
 {
-	DCP_ASSERT(hour >= -11 && hour <= 12);
+	DCP_ASSERT(hour >= -14 && hour <= 14);
 	_hour = hour;
 }
 
-- 
2.43.0


From a29ed38cdfa63f94f27b344c35ba2345e481207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:35 +0000
Subject: [PATCH 04/94] fix: read short fractional seconds correctly and reject
 malformed times in LocalTime

---
 src/local_time.cc | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index b65f8fd..252bf27 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -139,42 +139,50 @@ LocalTime::LocalTime (string s)
 		throw TimeFormatError(s);
 	}
 
-	_year = lexical_cast<int>(s.substr(0, 4));
-	_month = lexical_cast<int>(s.substr(5, 2));
-	_day = lexical_cast<int>(s.substr(8, 2));
-	_hour = lexical_cast<int>(s.substr(11, 2));
-	_minute = lexical_cast<int>(s.substr(14, 2));
-	_second = lexical_cast<int>(s.substr(17, 2));
+	auto digits = [&s](size_t start, size_t length) {
+		auto const part = s.substr(start, length);
+		if (part.empty() || part.find_first_not_of("0123456789") != string::npos) {
+			throw TimeFormatError(s);
+		}
+		return lexical_cast<int>(part);
+	};
+
+	_year = digits(0, 4);
+	_month = digits(5, 2);
+	_day = digits(8, 2);
+	_hour = digits(11, 2);
+	_minute = digits(14, 2);
+	_second = digits(17, 2);
 
 	size_t pos = 19;
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
+		auto end = s.find_first_not_of("0123456789", pos + 1);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
-		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
+		auto const length = std::min(static_cast<size_t>(3), end - pos - 1);
+		_millisecond = digits(pos + 1, length);
+		for (auto i = length; i < 3; ++i) {
+			_millisecond *= 10;
+		}
 		pos = end;
 	} else {
 		_millisecond = 0;
 	}
 
 	/* Timezone */
-	if (pos != s.length() && s[pos] != 'Z') {
+	if (pos != s.length() && s.substr(pos) != "Z") {
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
-		if ((s.length() - pos) != 6) {
+		if ((s.length() - pos) != 6 || s[pos + 3] != ':') {
 			throw TimeFormatError(s);
 		}
 
-		_offset.set_hour(lexical_cast<int>(s.substr(pos + 1, 2)));
-		_offset.set_minute(lexical_cast<int>(s.substr(pos + 4, 2)));
+		_offset.set_hour(digits(pos + 1, 2));
+		_offset.set_minute(digits(pos + 4, 2));
 
 		if (s[pos] == '-') {
 			_offset.set_hour(-_offset.hour());
-- 
2.43.0


From a82f912d76cd431ba2e6fd151d5706e2d380a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:27 +0000
Subject: [PATCH 05/94] fix: use the input value and the right threshold in
 S-Log3 tables

The inverse table switched to its logarithmic part at 0.01125/1023 instead
of 0.01125.  The forward table ignored the requested range in its power
part.
---
 src/s_gamut3_transfer_function.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..bbe4e57 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -57,7 +57,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 		for (int i = 0; i < bit_length; ++i) {
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
-			if (q >= (0.01125 / 1023)) {
+			if (q >= 0.01125) {
 				lut[i] = (420 + log10((q + 0.01) / (0.18 + 0.01)) * 261.5) / 1023;
 			} else {
 				lut[i] = (q * (171.2102946929 - 95) / 0.01125000 + 95) / 1023;
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From ece5a731b4d9af18cade29c5b377e8510ab42360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:53 +0000
Subject: [PATCH 06/94] fix: keep a ScopeGuard cancelled when it is moved

A guard which had been cancelled ran its function after being moved.
---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From ebc3de488e635e1756436e17084a0d28de917b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:53 +0000
Subject: [PATCH 07/94] fix: make File move assignment work when both files are
 open

Files were compared by whether they are open, so assigning one open file
to another did nothing.  The path was not taken over either.
---
 src/file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index cb7088b..27b0a7b 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,8 +82,9 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From 4869c722321bb9c91e5b77c7a43ac7b8517681ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:23 +0000
Subject: [PATCH 08/94] fix: report errors which only appear when a file is
 closed

Data, KDMs, Interop subtitles and strings written to files could be
truncated without any error if the last buffered part could not be
stored.
---
 src/data.cc               | 1 +
 src/encrypted_kdm.cc      | 1 +
 src/file.cc               | 9 +++++++++
 src/file.h                | 5 +++++
 src/interop_text_asset.cc | 3 ++-
 src/util.cc               | 3 ++-
 6 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/data.cc b/src/data.cc
index a26d4d1..894555d 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -57,6 +57,7 @@ Data::write (boost::filesystem::path file) const
 	if (f.write(data(), 1, size()) != size_t(size())) {
 		throw FileError ("could not write to file", file, errno);
 	}
+	f.checked_close();
 }
 
 
diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 23cbb0b..78820ed 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -748,6 +748,7 @@ EncryptedKDM::as_xml (boost::filesystem::path path) const
 	if (f.write(x.c_str(), 1, x.length()) != x.length()) {
 		throw FileError ("Could not write to KDM file", path, errno);
 	}
+	f.checked_close();
 }
 
 
diff --git a/src/file.cc b/src/file.cc
index 27b0a7b..7109e58 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -103,6 +103,15 @@ File::close()
 }
 
 
+void
+File::checked_close()
+{
+	if (_file && fclose(take()) != 0) {
+		throw FileError("fclose error", _path, errno);
+	}
+}
+
+
 size_t
 File::write(const void *ptr, size_t size, size_t nmemb)
 {
diff --git a/src/file.h b/src/file.h
index c530c26..e46c481 100644
--- a/src/file.h
+++ b/src/file.h
@@ -88,6 +88,11 @@ public:
 	 */
 	void close();
 
+	/** Close the file, throwing FileError if some of what was written
+	 *  could not be stored.
+	 */
+	void checked_close();
+
 	boost::filesystem::path path() const {
 		return _path;
 	}
diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index d789194..1bbac46 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -202,7 +202,8 @@ InteropTextAsset::write(boost::filesystem::path p) const
 
 	_raw_xml = xml_as_string ();
 	/* length() here gives bytes not characters */
-	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
+	f.checked_write(_raw_xml->c_str(), _raw_xml->length());
+	f.checked_close();
 
 	_file = p;
 
diff --git a/src/util.cc b/src/util.cc
index 61b9ba6..44d6956 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -288,7 +288,8 @@ dcp::write_string_to_file(string const& string, boost::filesystem::path const& p
 		throw FileError("could not open file", path, errno);
 	}
 
-	file.write(string.c_str(), string.length(), 1);
+	file.checked_write(string.c_str(), string.length());
+	file.checked_close();
 }
 
 
-- 
2.43.0


From 582128efcea4fc9995dba1f3af0ca9f360237461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:53 +0000
Subject: [PATCH 09/94] fix: keep paths absolute in weakly_canonical when .. is
 used at the root

The parent of the root directory came out as an empty path, so that the
rest of the path became relative.
---
 src/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 4cbbc3d..e987b37 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -160,7 +160,7 @@ dcp::filesystem::weakly_canonical(boost::filesystem::path const& path)
 			boost::system::error_code ec;
 			if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {
 				result /= part;
-			} else {
+			} else if (result.has_relative_path()) {
 				result = result.parent_path();
 			}
 		} else if (part != ".") {
-- 
2.43.0


From 783cb76c39653413f569c2d35054c22aeb82b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:42 +0000
Subject: [PATCH 10/94] fix: carry into seconds when rounding a time up to a
 whole second

Constructing a Time from a number of seconds just below a whole second
gave an editable unit count equal to the timecode rate, e.g. 0.9999 s at
24 units per second became 00:00:00:24 rather than 00:00:01:00.
---
 src/dcp_time.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 75986ae..3048759 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -82,6 +82,11 @@ Time::set (double seconds, int tcr_)
 	tcr = tcr_;
 
 	e = int (round ((seconds - s) * tcr));
+	if (e >= tcr) {
+		/* We rounded up to a whole second */
+		e -= tcr;
+		++s;
+	}
 
 	if (s >= 60) {
 		m = s / 60;
-- 
2.43.0


From a5405c94ef7c97dfdb03f6c34e8ef84c06c59eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:42 +0000
Subject: [PATCH 11/94] fix: calculate the ratio of two times correctly

The seconds were multiplied by the fraction of a second, rather than
added to it, and the result was then truncated to a whole number.
---
 src/dcp_time.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 3048759..61d1474 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -327,9 +327,7 @@ dcp::operator- (Time a, Time b)
 float
 dcp::operator/ (Time a, Time const & b)
 {
-	int64_t const at = a.h * 3600 + a.m * 60 + a.s * float (a.e) / a.tcr;
-	int64_t const bt = b.h * 3600 + b.m * 60 + b.s * float (b.e) / b.tcr;
-	return float (at) / bt;
+	return a.as_seconds() / b.as_seconds();
 }
 
 
-- 
2.43.0


From 8268d1f9c821d0e52eca26458d1a361bed3e23c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:42 +0000
Subject: [PATCH 12/94] fix: avoid integer overflow when comparing times with
 large rates

The sum of two times with different rates has the product of those rates,
so comparing it with another such time could overflow an int.
---
 src/dcp_time.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 61d1474..b25e827 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -177,7 +177,7 @@ Time::Time (string time, optional<int> tcr_)
 bool
 dcp::operator== (Time const & a, Time const & b)
 {
-	return (a.h == b.h && a.m == b.m && a.s == b.s && (a.e * b.tcr) == (b.e * a.tcr));
+	return (a.h == b.h && a.m == b.m && a.s == b.s && (int64_t(a.e) * b.tcr) == (int64_t(b.e) * a.tcr));
 }
 
 
@@ -217,7 +217,7 @@ dcp::operator< (Time const & a, Time const & b)
 		return a.s < b.s;
 	}
 
-	return (a.e * b.tcr) < (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) < (int64_t(b.e) * a.tcr);
 }
 
 
@@ -236,7 +236,7 @@ dcp::operator> (Time const & a, Time const & b)
 		return a.s > b.s;
 	}
 
-	return (a.e * b.tcr) > (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) > (int64_t(b.e) * a.tcr);
 }
 
 
-- 
2.43.0


From d48236a9efa88bfa66d8a9e7a7c7e1a954f7793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:43 +0000
Subject: [PATCH 13/94] fix: allocate space when assigning a key of a different
 length

Assigning a long key to a short one wrote past the end of the short
key's buffer.
---
 src/key.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index f11f632..56d416f 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -99,8 +99,11 @@ Key::operator= (Key const & other)
 		return *this;
 	}
 
+	auto value = new uint8_t[other._length];
+	memcpy (value, other._value, other._length);
+	delete[] _value;
+	_value = value;
 	_length = other._length;
-	memcpy (_value, other._value, _length);
 	return *this;
 }
 
-- 
2.43.0


From c5fd9ffb07a331ac2dc17a198a584dc59a027fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:58 +0000
Subject: [PATCH 14/94] fix: refuse to make a key from malformed hexadecimal

Text with an odd number of digits, or with characters which are not
hexadecimal digits, gave a key with some uninitialised bytes.
---
 src/key.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 56d416f..16cf127 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -39,6 +39,7 @@
 
 #include "key.h"
 #include "dcp_assert.h"
+#include "exceptions.h"
 #include <asdcp/AS_DCP.h>
 #include <asdcp/KM_prng.h>
 #include <asdcp/KM_util.h>
@@ -73,8 +74,11 @@ Key::Key (string value)
 	: _value (new uint8_t[value.length() / 2])
 	, _length (value.length() / 2)
 {
-	unsigned int length_done;
-	Kumu::hex2bin (value.c_str(), _value, _length, &length_done);
+	unsigned int length_done = 0;
+	if (value.length() % 2 || Kumu::hex2bin(value.c_str(), _value, _length, &length_done) || length_done != static_cast<unsigned int>(_length)) {
+		delete[] _value;
+		throw MiscError ("Malformed key");
+	}
 }
 
 
-- 
2.43.0


From 3f74406caac42d4abec1ef1c5169011535396083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:58 +0000
Subject: [PATCH 15/94] fix: avoid integer overflow when comparing fractions

---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index 3b79be2..7902917 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -115,7 +115,7 @@ dcp::operator< (Fraction const& a, Fraction const& b)
 {
 	DCP_ASSERT(a.denominator > 0);
 	DCP_ASSERT(b.denominator > 0);
-	return a.numerator * b.denominator < b.numerator * a.denominator;
+	return int64_t(a.numerator) * b.denominator < int64_t(b.numerator) * a.denominator;
 }
 
 
-- 
2.43.0


From 68faa77eb3f4df1311bd80c9c99a8e3e7d06afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:58 +0000
Subject: [PATCH 16/94] fix: count the block just read when reporting digest
 progress

Progress was reported as it was before each block, so that it never
reached the total, and a file of one block only ever reported 0.
---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 44d6956..f35a0f0 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -148,8 +148,8 @@ dcp::make_digest(boost::filesystem::path filename, function<void (int64_t, int64
 		SHA1_Update (&sha, read_buffer.Data(), read);
 
 		if (progress) {
-			progress(done, size);
 			done += read;
+			progress(done, size);
 		}
 	}
 
-- 
2.43.0


From 0e27d2cb8e3e526dc827b0fe5f8645e075606c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:58 +0000
Subject: [PATCH 17/94] fix: reject language tags with duplicate subtags when
 parsing

The setters refuse a variant or extended language subtag which is already
present, but a tag with such duplicates was accepted as a string.
---
 src/language_tag.cc | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/language_tag.cc b/src/language_tag.cc
index 227620b..4c34e03 100644
--- a/src/language_tag.cc
+++ b/src/language_tag.cc
@@ -88,6 +88,22 @@ LanguageTag::Subtag::Subtag (string subtag, SubtagType type)
 }
 
 
+template <class T>
+void
+check_for_duplicates (vector<T> const& subtags, dcp::LanguageTag::SubtagType type)
+{
+	vector<T> sorted = subtags;
+	sort (sorted.begin(), sorted.end());
+	optional<T> last;
+	for (auto const& i: sorted) {
+		if (last && i == *last) {
+			throw LanguageTagError (String::compose("Duplicate %1 subtag %2", dcp::LanguageTag::subtag_type_name(type), i.subtag()));
+		}
+		last = i;
+	}
+}
+
+
 LanguageTag::LanguageTag (string tag)
 {
 	vector<string> parts;
@@ -123,28 +139,25 @@ LanguageTag::LanguageTag (string tag)
 	}
 
 	try {
-		while (true) {
+		while (p < parts.size()) {
 			_variants.push_back (VariantSubtag(parts[p]));
 			++p;
-			if (p == parts.size()) {
-				return;
-			}
 		}
 	} catch (...) {}
 
 	try {
-		while (true) {
+		while (p < parts.size()) {
 			_extlangs.push_back (ExtlangSubtag(parts[p]));
 			++p;
-			if (p == parts.size()) {
-				return;
-			}
 		}
 	} catch (...) {}
 
 	if (p < parts.size()) {
 		throw LanguageTagError (String::compose("Unrecognised subtag %1", parts[p]));
 	}
+
+	check_for_duplicates (_variants, SubtagType::VARIANT);
+	check_for_duplicates (_extlangs, SubtagType::EXTLANG);
 }
 
 
@@ -209,22 +222,6 @@ LanguageTag::add_variant (VariantSubtag variant)
 }
 
 
-template <class T>
-void
-check_for_duplicates (vector<T> const& subtags, dcp::LanguageTag::SubtagType type)
-{
-	vector<T> sorted = subtags;
-	sort (sorted.begin(), sorted.end());
-	optional<T> last;
-	for (auto const& i: sorted) {
-		if (last && i == *last) {
-			throw LanguageTagError (String::compose("Duplicate %1 subtag %2", dcp::LanguageTag::subtag_type_name(type), i.subtag()));
-		}
-		last = i;
-	}
-}
-
-
 void
 LanguageTag::set_variants (vector<VariantSubtag> variants)
 {
-- 
2.43.0


From d3e79ef224c2bfd26b4fd6851fd058dc1f94ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:26 +0000
Subject: [PATCH 18/94] fix: build the default issuer and creator of a CPL from
 the right strings

The string constructor that takes two pointers was used, which reads the
memory between two unrelated string literals.
---
 src/cpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cac3c2e..fa4e885 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -94,8 +94,8 @@ auto constexpr profile_tag = "DCP Constraints Profile";
 
 CPL::CPL(string annotation_text, ContentKind content_kind, Standard standard, Profile profile)
 	/* default _content_title_text to annotation_text */
-	: _issuer("libdcp", dcp::version)
-	, _creator("libdcp", dcp::version)
+	: _issuer(String::compose("libdcp %1", dcp::version))
+	, _creator(String::compose("libdcp %1", dcp::version))
 	, _issue_date(LocalTime().as_string())
 	, _annotation_text(annotation_text)
 	, _content_title_text(annotation_text)
-- 
2.43.0


From 9f2fa0d842f5167a389aa98c231f1b9e2d4d1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:26 +0000
Subject: [PATCH 19/94] fix: keep the scope of a CPL's release territory when
 writing it

---
 src/cpl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index fa4e885..906a3cc 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -507,7 +507,11 @@ CPL::maybe_write_composition_metadata_asset(xmlpp::Element* node) const
 	}
 
 	if (_release_territory) {
-		cxml::add_child(meta, "ReleaseTerritory", string("meta"))->add_child_text(*_release_territory);
+		auto territory = cxml::add_child(meta, "ReleaseTerritory", string("meta"));
+		if (_release_territory_scope) {
+			territory->set_attribute("scope", *_release_territory_scope);
+		}
+		territory->add_child_text(*_release_territory);
 	}
 
 	if (_version_number) {
-- 
2.43.0


From 70246142b8fbfcc91e68759dbadaa1cdad9ff1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:26 +0000
Subject: [PATCH 20/94] fix: write luminance values without rounding them to
 three figures

A value such as 1000.25 was written as 1e+03.
---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index 7902917..b2e559a 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -365,7 +365,7 @@ Luminance::as_xml (xmlpp::Element* parent, string ns) const
 {
 	auto lum = cxml::add_child(parent, "Luminance", ns);
 	lum->set_attribute("units", unit_to_string(_unit));
-	lum->add_child_text(fmt::format("{:.3}", _value));
+	lum->add_child_text(fmt::to_string(_value));
 }
 
 
-- 
2.43.0


From dfc50b3c340828f333627477b09fe4f7a337dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:40 +0000
Subject: [PATCH 21/94] fix: recognise the first subtitle language of a CPL
 whichever reel it is in

The writer takes the language from the first reel that has one, but the
reader only looked at the first reel, so the language came back as an
additional one.
---
 src/cpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index 906a3cc..0448dc0 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -354,13 +354,13 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 
 		/* If the first language on SubtitleLanguageList is the same as the language of the first subtitle we'll ignore it */
 		size_t first = 0;
-		if (!_reels.empty()) {
-			auto sub = _reels.front()->main_subtitle();
-			if (sub) {
-				auto lang = sub->language();
-				if (lang && lang == sll_split[0]) {
+		for (auto reel: _reels) {
+			auto sub = reel->main_subtitle();
+			if (sub && sub->language()) {
+				if (sub->language() == sll_split[0]) {
 					first = 1;
 				}
+				break;
 			}
 		}
 
-- 
2.43.0


From 88fcee9ce28710a85e022416fdc60384fabc016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:43 +0000
Subject: [PATCH 22/94] fix: accept Space nodes in a Font inside a Text

We write them there ourselves when a string with space before it has a
different font to its neighbours.
---
 src/text_asset.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d690a27..c15ddc6 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -387,7 +387,8 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		auto const e = dynamic_cast<xmlpp::Element const *>(i);
 		if (e) {
 			if (e->get_name() == "Space") {
-				if (node->get_name() != "Text") {
+				auto in_text = [](ParseState const& ps) { return ps.type && ps.type.get() == ParseState::Type::TEXT; };
+				if (std::none_of(state.begin(), state.end(), in_text)) {
 					throw XMLError ("Space node found outside Text");
 				}
 				auto size = optional_string_attribute(e, "Size").get_value_or("0.5");
-- 
2.43.0


From 83de796f9dbdc5e5c8643bfb37a7376988672e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:14 +0000
Subject: [PATCH 23/94] fix: inherit bold from outer Font nodes when reading
 subtitles

A Font node with no Weight made its text normal, even inside another one
with Weight="bold".
---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index c15ddc6..821a505 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -146,7 +146,9 @@ TextAsset::font_node_state(xmlpp::Element const * node, Standard standard) const
 	ps.size = optional_number_attribute<int64_t> (node, "Size");
 	ps.aspect_adjust = optional_number_attribute<float> (node, "AspectAdjust");
 	ps.italic = optional_bool_attribute (node, "Italic");
-	ps.bold = optional_string_attribute(node, "Weight").get_value_or("normal") == "bold";
+	if (auto weight = optional_string_attribute(node, "Weight")) {
+		ps.bold = *weight == "bold";
+	}
 	if (standard == Standard::INTEROP) {
 		ps.underline = optional_bool_attribute (node, "Underlined");
 	} else {
-- 
2.43.0


From c1e623f9477249deb4d9135b93335f52dcda7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:14 +0000
Subject: [PATCH 24/94] fix: do not show XML comments as subtitles

---
 src/text_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 821a505..d497ccd 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -380,7 +380,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 
 		/* Handle actual content e.g. text */
 		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
-		if (v) {
+		if (v && !dynamic_cast<xmlpp::CommentNode const *>(i)) {
 			maybe_add_text(v->get_content(), state, space_before, standard, rubies);
 			space_before = 0;
 		}
-- 
2.43.0


From c0f4fa9359721a51eeb28e145d30c75d80a8b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:14 +0000
Subject: [PATCH 25/94] fix: do not round the size of subtitle spaces to two
 figures

---
 src/text_asset_internal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text_asset_internal.cc b/src/text_asset_internal.cc
index 4ae5dbf..89210f4 100644
--- a/src/text_asset_internal.cc
+++ b/src/text_asset_internal.cc
@@ -142,7 +142,7 @@ order::String::as_xml (xmlpp::Element* parent, Context& context) const
 {
 	if (fabs(_space_before) > SPACE_BEFORE_EPSILON) {
 		auto space = cxml::add_child(parent, "Space");
-		auto size = fmt::format("{:.2}", _space_before);
+		auto size = fmt::to_string(_space_before);
 		if (context.standard == Standard::INTEROP) {
 			size += "em";
 		}
-- 
2.43.0


From 8fc34eecfbddbdb08c8010394a207cedb5a1bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:14 +0000
Subject: [PATCH 26/94] fix: escape attribute values in subtitle XML

A font ID with a quote or an ampersand in it gave a file that could not
be read.
---
 src/text_asset.cc | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d497ccd..648ee6e 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -954,16 +954,33 @@ struct State
 }
 
 
+static
+string
+escape_xml(string content)
+{
+	boost::replace_all(content, "&", "&amp;");
+	boost::replace_all(content, "<", "&lt;");
+	boost::replace_all(content, ">", "&gt;");
+	return content;
+}
+
+
+static
+string
+escape_xml_attribute(string content)
+{
+	content = escape_xml(content);
+	boost::replace_all(content, "\"", "&quot;");
+	return content;
+}
+
+
 static
 void
 format_xml_node (xmlpp::Node const* node, State& state)
 {
 	if (auto text_node = dynamic_cast<const xmlpp::TextNode*>(node)) {
-		string content = text_node->get_content();
-		boost::replace_all(content, "&", "&amp;");
-		boost::replace_all(content, "<", "&lt;");
-		boost::replace_all(content, ">", "&gt;");
-		state.xml += content;
+		state.xml += escape_xml(text_node->get_content());
 	} else if (auto element = dynamic_cast<const xmlpp::Element*>(node)) {
 		++state.indent;
 
@@ -981,7 +998,7 @@ format_xml_node (xmlpp::Node const* node, State& state)
 		state.xml += "<" + element->get_name();
 
 		for (auto attribute: element->get_attributes()) {
-			state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+			state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), escape_xml_attribute(attribute->get_value()));
 		}
 
 		if (children.empty()) {
@@ -1038,7 +1055,7 @@ TextAsset::format_xml(xmlpp::Document const& document, optional<pair<string, str
 	}
 
 	for (auto attribute: root->get_attributes()) {
-		state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+		state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), escape_xml_attribute(attribute->get_value()));
 	}
 
 	state.xml += ">";
-- 
2.43.0


From cfc5eca35ba44388a3782c419452e43f2bff180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:31 +0000
Subject: [PATCH 27/94] fix: sort subtitles consistently when vertical
 alignments are mixed

The comparison could say that each of two texts should come before the
other, so the parts of one line could be written in the wrong order.
---
 src/text_asset.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 648ee6e..d2b671c 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -698,6 +698,9 @@ struct TextSorter
 		if (a->in() != b->in()) {
 			return a->in() < b->in();
 		}
+		if (a->v_align() != b->v_align()) {
+			return a->v_align() < b->v_align();
+		}
 		if (a->v_align() == VAlign::BOTTOM) {
 			return a->v_position() > b->v_position();
 		}
-- 
2.43.0


From 24d68729034143cd270704cb72a56352d756019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:31 +0000
Subject: [PATCH 28/94] fix: carry fade times given as ticks into seconds

Otherwise they compared wrongly with other times, and fades longer than 8
seconds were not limited.
---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d2b671c..7e53272 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -277,7 +277,9 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 	} else if (u.find (":") != string::npos) {
 		t = Time (u, tcr);
 	} else {
-		t = Time (0, 0, 0, lexical_cast<int> (u), tcr.get_value_or(250));
+		auto const ticks = lexical_cast<int>(u);
+		auto const rate = tcr.get_value_or(250);
+		t = Time(0, 0, ticks / rate, ticks % rate, rate);
 	}
 
 	if (t > Time (0, 0, 8, 0, 250)) {
-- 
2.43.0


From 47e60bceb9d33c0c5c042fbaf47d289d9d2b9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:39:34 +0000
Subject: [PATCH 29/94] fix: keep variable Z positions and rubies of texts in
 the same place apart

Texts with the same position were written as one Text node even if these
differed, so all but the first text's were lost.
---
 src/text_asset.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 7e53272..3b461ac 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -798,7 +798,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 	VAlign last_v_align;
 	float last_v_position;
 	float last_z_position;
+	vector<dcp::Text::VariableZPosition> last_variable_z_positions;
 	Direction last_direction;
+	vector<Ruby> last_rubies;
 	int load_variable_z_index = 1;
 
 	for (auto i: sorted) {
@@ -827,7 +829,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 			    last_v_align != is->v_align() ||
 			    fabs(last_v_position - is->v_position()) > ALIGN_EPSILON ||
 			    fabs(last_z_position - is->z_position()) > ALIGN_EPSILON ||
-			    last_direction != is->direction()
+			    last_variable_z_positions != is->variable_z_positions() ||
+			    last_direction != is->direction() ||
+			    last_rubies != is->rubies()
 				) {
 				text = make_shared<order::Text>(
 					subtitle,
@@ -847,7 +851,9 @@ TextAsset::texts_as_xml(xmlpp::Element* xml_root, int time_code_rate, Standard s
 				last_v_align = is->v_align ();
 				last_v_position = is->v_position ();
 				last_z_position = is->z_position();
+				last_variable_z_positions = is->variable_z_positions();
 				last_direction = is->direction ();
+				last_rubies = is->rubies();
 			}
 
 			text->children.push_back (make_shared<order::String>(text, order::Font (is, standard), is->text(), is->space_before()));
-- 
2.43.0


From f32e81fa1a40a08f74e52d368ad1d4b0d533c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:33 +0000
Subject: [PATCH 30/94] fix: put the right part of the asset ID in each sync
 packet

At frame rates above 30 there are fewer than four sync packets in each frame,
so the packet number within the frame is not the number of the part.
---
 src/sound_asset_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 0c04e77..4834d54 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -357,10 +357,10 @@ SoundAssetWriter::create_sync_packets ()
 		bs.write_from_byte (edit_rate_code, 4);
 		bs.write_from_byte (0, 2);
 		bs.write_from_byte (_sync_packet, 2);
-		bs.write_from_byte (id.Value()[i * 4 + 0]);
-		bs.write_from_byte (id.Value()[i * 4 + 1]);
-		bs.write_from_byte (id.Value()[i * 4 + 2]);
-		bs.write_from_byte (id.Value()[i * 4 + 3]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 0]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 1]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 2]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 3]);
 		bs.write_from_word (_frames_written, 24);
 		bs.write_crc ();
 		bs.write_from_byte (0, 4);
-- 
2.43.0


From afb8f22efe2677ee4add60b62069cd0c2abadf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:33 +0000
Subject: [PATCH 31/94] fix: clip integer samples to the largest positive
 24-bit value

1 << 23 does not fit in 24 bits and was read back as a full-scale negative sample.
---
 src/sound_asset_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_asset_writer.h b/src/sound_asset_writer.h
index ee3c932..4b3df10 100644
--- a/src/sound_asset_writer.h
+++ b/src/sound_asset_writer.h
@@ -62,7 +62,7 @@ template <>
 inline int32_t convert(int32_t x)
 {
 	int constexpr clip = (1 << 23);
-	return std::max(-clip, std::min(clip, x));
+	return std::max(-clip, std::min(clip - 1, x));
 }
 
 template<>
-- 
2.43.0


From da0c2756fac53f1281ddb95cbf8c909132b989b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:33 +0000
Subject: [PATCH 32/94] fix: keep the sign of 16-bit sound samples

---
 src/sound_frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_frame.cc b/src/sound_frame.cc
index 4d90c9c..6260351 100644
--- a/src/sound_frame.cc
+++ b/src/sound_frame.cc
@@ -70,7 +70,7 @@ SoundFrame::get (int channel, int frame) const
 	case 16:
 	{
 		uint8_t const * d = data() + (frame * _channels * 2) + (channel * 2);
-		return d[0] | (d[1] << 8);
+		return static_cast<int16_t>(d[0] | (d[1] << 8));
 	}
 	default:
 		DCP_ASSERT(false);
-- 
2.43.0


From f7ecdb1381c3a1297426282ea917e9bf0fd27887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:33 +0000
Subject: [PATCH 33/94] fix: give IDs and names to the left and right centre
 channels

These channels are accepted when reading a sound configuration, but changing
any mapping in such a configuration threw an exception.
---
 src/main_sound_configuration.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main_sound_configuration.cc b/src/main_sound_configuration.cc
index 0d93311..6c036d4 100644
--- a/src/main_sound_configuration.cc
+++ b/src/main_sound_configuration.cc
@@ -216,6 +216,10 @@ dcp::channel_to_mca_id(Channel c, MCASoundField field)
 		return "HI";
 	case Channel::VI:
 		return "VIN";
+	case Channel::LC:
+		return "Lc";
+	case Channel::RC:
+		return "Rc";
 	case Channel::BSL:
 		return "Lrs";
 	case Channel::BSR:
@@ -254,6 +258,10 @@ dcp::channel_to_mca_name(Channel c, MCASoundField field)
 		return "Hearing Impaired";
 	case Channel::VI:
 		return "Visually Impaired-Narrative";
+	case Channel::LC:
+		return "Left Center";
+	case Channel::RC:
+		return "Right Center";
 	case Channel::BSL:
 		return "Left Rear Surround";
 	case Channel::BSR:
-- 
2.43.0


From 1442a5f75a02656f64c874b4b829b989f118db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:56 +0000
Subject: [PATCH 34/94] fix: find the CPLs of Interop DCPs in cpl_summaries()

The type in an Interop PKL has a parameter, which was not removed before it
was compared.
---
 src/dcp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dcp.cc b/src/dcp.cc
index 23b4ad4..eecee51 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -666,6 +666,8 @@ DCP::cpl_summaries() const
 			continue;
 		}
 
+		pkl_type = remove_parameters(*pkl_type);
+
 		if (
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::INTEROP)) ||
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::SMPTE))) {
-- 
2.43.0


From a3e2a601efa2b9b1995a25572ec77c53af86dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:56 +0000
Subject: [PATCH 35/94] fix: consider open captions and closed subtitles when
 asking if a reel is encrypted

---
 src/reel.cc | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index 95ed58f..9bfa672 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -295,40 +295,16 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 bool
 Reel::any_encrypted () const
 {
-	auto ecc = false;
-	for (auto i: _closed_captions) {
-		if (i->encrypted()) {
-			ecc = true;
-		}
-	}
-
-	return (
-		(_main_picture && _main_picture->encrypted()) ||
-		(_main_sound && _main_sound->encrypted()) ||
-		(_main_subtitle && _main_subtitle->encrypted()) ||
-		ecc ||
-		(_atmos && _atmos->encrypted())
-		);
+	auto const assets = file_assets();
+	return std::any_of(assets.begin(), assets.end(), [](shared_ptr<const ReelFileAsset> asset) { return asset->encrypted(); });
 }
 
 
 bool
 Reel::all_encrypted () const
 {
-	auto ecc = true;
-	for (auto i: _closed_captions) {
-		if (!i->encrypted()) {
-			ecc = false;
-		}
-	}
-
-	return (
-		(!_main_picture || _main_picture->encrypted()) &&
-		(!_main_sound || _main_sound->encrypted()) &&
-		(!_main_subtitle || _main_subtitle->encrypted()) &&
-		ecc &&
-		(!_atmos || _atmos->encrypted())
-	       );
+	auto const assets = file_assets();
+	return std::all_of(assets.begin(), assets.end(), [](shared_ptr<const ReelFileAsset> asset) { return asset->encrypted(); });
 }
 
 
-- 
2.43.0


From 0af21387c388eb0a1417301da09e9f6f95b515e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:56 +0000
Subject: [PATCH 36/94] fix: give KDM keys to open captions and closed
 subtitles

---
 src/reel.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index 9bfa672..6ba5a58 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -330,17 +330,19 @@ Reel::give_kdm_to_assets (DecryptedKDM const & kdm)
 		if (_main_sound && i.id() == _main_sound->key_id() && _main_sound->asset_ref().resolved()) {
 			_main_sound->asset()->set_key (i.key());
 		}
-		if (_main_subtitle) {
-			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(_main_subtitle);
+		auto give_to_text = [&i](shared_ptr<ReelTextAsset> text) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(text);
 			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
 				smpte->smpte_asset()->set_key(i.key());
 			}
+		};
+		give_to_text(_main_subtitle);
+		give_to_text(_main_caption);
+		for (auto j: _closed_subtitles) {
+			give_to_text(j);
 		}
 		for (auto j: _closed_captions) {
-			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
-			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
-				smpte->smpte_asset()->set_key(i.key());
-			}
+			give_to_text(j);
 		}
 		if (_atmos && i.id() == _atmos->key_id() && _atmos->asset_ref().resolved()) {
 			_atmos->asset()->set_key (i.key());
-- 
2.43.0


From 5d6d08b05f68b2275d327c94af385cec0f1c070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:56 +0000
Subject: [PATCH 37/94] fix: write the filename of Interop subtitle images to
 the PKL

The name of the DCP's directory was written as the original file name.
---
 src/interop_text_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 1bbac46..98efdbd 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -304,7 +304,7 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 		auto im = dynamic_pointer_cast<dcp::TextImage>(i);
 		if (im) {
 			auto png_image = im->png_image ();
-			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
+			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", im->file() ? im->file()->filename().string() : im->id() + ".png");
 		}
 	}
 }
-- 
2.43.0


From e351a92356dc5abd0807af1d883de5acced4053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 38/94] fix: Comparing a 3D picture or a sound with another
 kind of asset threw an exception

---
 src/sound_asset.cc              | 8 ++++++--
 src/stereo_j2k_picture_asset.cc | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sound_asset.cc b/src/sound_asset.cc
index 614f616..2d5fb00 100644
--- a/src/sound_asset.cc
+++ b/src/sound_asset.cc
@@ -136,6 +136,12 @@ SoundAsset::SoundAsset (Fraction edit_rate, int sampling_rate, int channels, Lan
 bool
 SoundAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandler note) const
 {
+	auto other_sound = dynamic_pointer_cast<const SoundAsset>(other);
+	if (!other_sound) {
+		note(NoteType::ERROR, "Asset types differ: only one is a sound asset");
+		return false;
+	}
+
 	if (opt.sound_assets_can_differ) {
 		return true;
 	}
@@ -207,8 +213,6 @@ SoundAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, No
 		/* XXX */
 	}
 
-	auto other_sound = dynamic_pointer_cast<const SoundAsset> (other);
-
 	auto reader = start_read ();
 	auto other_reader = other_sound->start_read ();
 
diff --git a/src/stereo_j2k_picture_asset.cc b/src/stereo_j2k_picture_asset.cc
index d403ed4..3d3f4f1 100644
--- a/src/stereo_j2k_picture_asset.cc
+++ b/src/stereo_j2k_picture_asset.cc
@@ -106,6 +106,12 @@ StereoJ2KPictureAsset::start_read () const
 bool
 StereoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandler note) const
 {
+	auto other_picture = dynamic_pointer_cast<const StereoJ2KPictureAsset>(other);
+	if (!other_picture) {
+		note(NoteType::ERROR, "Picture asset types differ");
+		return false;
+	}
+
 	Kumu::FileReaderFactory factory;
 	ASDCP::JP2K::MXFSReader reader_A(factory);
 	DCP_ASSERT (file());
@@ -134,9 +140,6 @@ StereoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions con
 		return false;
 	}
 
-	auto other_picture = dynamic_pointer_cast<const StereoJ2KPictureAsset> (other);
-	DCP_ASSERT (other_picture);
-
 	auto reader = start_read ();
 	auto other_reader = other_picture->start_read ();
 
-- 
2.43.0


From 083e1fd365ff61124ac86201ed927d74dd3d2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 39/94] fix: Pictures of different lengths were reported as
 equal

---
 src/j2k_picture_asset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index 9879225..4134c90 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -121,6 +121,7 @@ J2KPictureAsset::descriptor_equals (
 
 	if (a.ContainerDuration != b.ContainerDuration) {
 		note (NoteType::ERROR, "video container durations differ");
+		return false;
 	}
 
 //		for (unsigned int j = 0; j < ASDCP::JP2K::MaxComponents; ++j) {
-- 
2.43.0


From b4b3da2ff423a321ce58f575d6213ed575447f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 40/94] fix: Comparing reels ignored open captions and closed
 subtitles

---
 src/reel.cc | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index 6ba5a58..865948e 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -252,6 +252,7 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 	}
 
 	if ((_main_subtitle || other->_main_subtitle) && !same_type) {
+		note(NoteType::ERROR, "Reel: subtitle asset types differ");
 		return false;
 	}
 
@@ -265,18 +266,32 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
-	if (_closed_captions.size() != other->_closed_captions.size()) {
+	if ((_main_caption && !other->_main_caption) || (!_main_caption && other->_main_caption)) {
+		note(NoteType::ERROR, "Reel: open caption assets differ");
 		return false;
 	}
 
-	auto i = _closed_captions.begin();
-	auto j = other->_closed_captions.begin();
-	while (i != _closed_captions.end()) {
-		if (!(*i)->equals(*j, opt, note)) {
+	if (_main_caption && !_main_caption->equals(other->_main_caption, opt, note)) {
+		return false;
+	}
+
+	auto closed_equal = [&opt, &note](vector<shared_ptr<ReelTextAsset>> const& a, vector<shared_ptr<ReelTextAsset>> const& b) {
+		if (a.size() != b.size()) {
+			note(NoteType::ERROR, "Reel: numbers of closed subtitles or captions differ");
 			return false;
 		}
-		++i;
-		++j;
+
+		for (size_t i = 0; i < a.size(); ++i) {
+			if (!a[i]->equals(b[i], opt, note)) {
+				return false;
+			}
+		}
+
+		return true;
+	};
+
+	if (!closed_equal(_closed_subtitles, other->_closed_subtitles) || !closed_equal(_closed_captions, other->_closed_captions)) {
+		return false;
 	}
 
 	if ((_atmos && !other->_atmos) || (!_atmos && other->_atmos)) {
-- 
2.43.0


From e905c42ef537079f9b44f474499acbfcd1c93f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 41/94] fix: Comparing subtitles missed extra fonts and ignored
 load_font_nodes_can_differ

---
 src/interop_text_asset.cc | 12 ++++++------
 src/smpte_text_asset.cc   | 22 ++++++++++++----------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 98efdbd..05db35a 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -158,12 +158,7 @@ InteropTextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions co
 		auto i = _load_font_nodes.begin();
 		auto j = other->_load_font_nodes.begin();
 
-		while (i != _load_font_nodes.end ()) {
-			if (j == other->_load_font_nodes.end ()) {
-				note (NoteType::ERROR, "<LoadFont> nodes differ");
-				return false;
-			}
-
+		while (i != _load_font_nodes.end() && j != other->_load_font_nodes.end()) {
 			if (**i != **j) {
 				note (NoteType::ERROR, "<LoadFont> nodes differ");
 				return false;
@@ -172,6 +167,11 @@ InteropTextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions co
 			++i;
 			++j;
 		}
+
+		if (i != _load_font_nodes.end() || j != other->_load_font_nodes.end()) {
+			note (NoteType::ERROR, "<LoadFont> nodes differ");
+			return false;
+		}
 	}
 
 	if (_movie_title != other->_movie_title) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 36fe544..017f21b 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -516,22 +516,24 @@ SMPTETextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions cons
 		return false;
 	}
 
-	auto i = _load_font_nodes.begin();
-	auto j = other->_load_font_nodes.begin();
+	if (!options.load_font_nodes_can_differ) {
+		auto i = _load_font_nodes.begin();
+		auto j = other->_load_font_nodes.begin();
+
+		while (i != _load_font_nodes.end() && j != other->_load_font_nodes.end()) {
+			if ((*i)->id != (*j)->id) {
+				note (NoteType::ERROR, "<LoadFont> nodes differ");
+				return false;
+			}
 
-	while (i != _load_font_nodes.end ()) {
-		if (j == other->_load_font_nodes.end ()) {
-			note (NoteType::ERROR, "<LoadFont> nodes differ");
-			return false;
+			++i;
+			++j;
 		}
 
-		if ((*i)->id != (*j)->id) {
+		if (i != _load_font_nodes.end() || j != other->_load_font_nodes.end()) {
 			note (NoteType::ERROR, "<LoadFont> nodes differ");
 			return false;
 		}
-
-		++i;
-		++j;
 	}
 
 	if (_content_title_text != other->_content_title_text) {
-- 
2.43.0


From 9d39d22abe00c7564f0a70eb9d7f31b3cbaa5bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 42/94] fix: Image subtitles with different variable Z
 positions compared equal

---
 src/text_image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text_image.cc b/src/text_image.cc
index 119a630..26c96a6 100644
--- a/src/text_image.cc
+++ b/src/text_image.cc
@@ -124,6 +124,7 @@ dcp::operator==(TextImage const & a, TextImage const & b)
 		a.v_position() == b.v_position() &&
 		a.v_align() == b.v_align() &&
 		a.z_position() == b.z_position() &&
+		a.variable_z_positions() == b.variable_z_positions() &&
 		a.fade_up_time() == b.fade_up_time() &&
 		a.fade_down_time() == b.fade_down_time()
 		);
-- 
2.43.0


From e780987735da179e11e895d0cd8a9e2c33cad77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 43/94] fix: Comparing DCPs could match one CPL with several

---
 src/dcp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dcp.cc b/src/dcp.cc
index eecee51..47853d0 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -372,6 +372,8 @@ DCP::equals(DCP const & other, EqualityOptions const& opt, NoteHandler note) con
 
 		if (j == b.end ()) {
 			r = false;
+		} else {
+			b.erase(j);
 		}
 	}
 
-- 
2.43.0


From 2aeda9eb62c72eb84bd2148c00fca9112478049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 44/94] fix: Comparing assets of different kinds gave no error
 note

---
 src/cpl.cc                    | 1 +
 src/interop_text_asset.cc     | 1 +
 src/mono_j2k_picture_asset.cc | 1 +
 src/text_asset.cc             | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/cpl.cc b/src/cpl.cc
index 0448dc0..3343ec5 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -666,6 +666,7 @@ CPL::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandl
 {
 	auto other_cpl = dynamic_pointer_cast<const CPL>(other);
 	if (!other_cpl) {
+		note(NoteType::ERROR, "Asset types differ: only one is a CPL");
 		return false;
 	}
 
diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 05db35a..aa6f4c2 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -151,6 +151,7 @@ InteropTextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions co
 
 	auto other = dynamic_pointer_cast<const InteropTextAsset> (other_asset);
 	if (!other) {
+		note(NoteType::ERROR, "Subtitles/captions are in different standards");
 		return false;
 	}
 
diff --git a/src/mono_j2k_picture_asset.cc b/src/mono_j2k_picture_asset.cc
index 4a8a321..7143969 100644
--- a/src/mono_j2k_picture_asset.cc
+++ b/src/mono_j2k_picture_asset.cc
@@ -108,6 +108,7 @@ bool
 MonoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandler note) const
 {
 	if (!dynamic_pointer_cast<const MonoJ2KPictureAsset>(other)) {
+		note(NoteType::ERROR, "Picture asset types differ");
 		return false;
 	}
 
diff --git a/src/text_asset.cc b/src/text_asset.cc
index 3b461ac..e0b34a2 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -656,6 +656,7 @@ TextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions const& op
 
 	auto other = dynamic_pointer_cast<const TextAsset> (other_asset);
 	if (!other) {
+		note(NoteType::ERROR, "Asset types differ: only one is a subtitle or caption");
 		return false;
 	}
 
-- 
2.43.0


From b5f22b22bc07ad888b2440bd8ed4e665d064ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:20 +0000
Subject: [PATCH 45/94] fix: Assets of different kinds compared equal if
 differing hashes were permitted

---
 src/asset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asset.cc b/src/asset.cc
index ef06ea8..b6079e5 100644
--- a/src/asset.cc
+++ b/src/asset.cc
@@ -146,6 +146,12 @@ Asset::hash(function<void (int64_t, int64_t)> progress) const
 bool
 Asset::equals(std::shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandler note) const
 {
+	auto const& other_asset = *other;
+	if (typeid(*this) != typeid(other_asset)) {
+		note(NoteType::ERROR, "Asset: types differ");
+		return false;
+	}
+
 	if (_hash != other->_hash) {
 		if (!opt.asset_hashes_can_differ) {
 			note(NoteType::ERROR, "Asset: hashes differ");
-- 
2.43.0


From 766f0931bb33ac591d7381e0fdbf632404a22154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:20 +0000
Subject: [PATCH 46/94] fix: Rewritten subtitles kept the hash of their old
 file

---
 src/asset.cc              | 1 +
 src/interop_text_asset.cc | 2 +-
 src/smpte_text_asset.cc   | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asset.cc b/src/asset.cc
index b6079e5..51f5134 100644
--- a/src/asset.cc
+++ b/src/asset.cc
@@ -52,6 +52,7 @@ LIBDCP_DISABLE_WARNINGS
 #include <libxml++/libxml++.h>
 LIBDCP_ENABLE_WARNINGS
 #include <boost/algorithm/string.hpp>
+#include <typeinfo>
 
 
 using std::string;
diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index aa6f4c2..216c3da 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -206,7 +206,7 @@ InteropTextAsset::write(boost::filesystem::path p) const
 	f.checked_write(_raw_xml->c_str(), _raw_xml->length());
 	f.checked_close();
 
-	_file = p;
+	set_file(p);
 
 	/* Image subtitles */
 	for (auto i: _texts) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 017f21b..cd21713 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -500,7 +500,7 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 
 	writer.Finalize ();
 
-	_file = p;
+	set_file(p);
 }
 
 bool
-- 
2.43.0


From 1e5a8872091e5600b6039cdf0af636634f6d327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:38 +0000
Subject: [PATCH 47/94] fix: Combining Interop DCPs left old subtitle hashes in
 the CPLs

---
 src/combine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/combine.cc b/src/combine.cc
index e84b59a..75af97d 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -46,6 +46,7 @@
 #include "filesystem.h"
 #include "font_asset.h"
 #include "interop_text_asset.h"
+#include "reel_file_asset.h"
 #include "raw_convert.h"
 #include <fmt/format.h>
 #include <boost/filesystem.hpp>
@@ -173,6 +174,15 @@ dcp::combine(
 
 	output_dcp.resolve_refs(assets);
 
+	/* Interop subtitles have been re-written, so the hashes in the CPLs may be wrong */
+	for (auto cpl: output_dcp.cpls()) {
+		for (auto asset: cpl->reel_file_assets()) {
+			if (asset->hash() && asset->asset_ref().resolved() && already_written.find(asset->asset_ref().id()) != already_written.end()) {
+				asset->set_hash(asset->asset_ref()->hash());
+			}
+		}
+	}
+
 	for (auto i: output_dcp.assets()) {
 		if (!dynamic_pointer_cast<dcp::FontAsset>(i) && !dynamic_pointer_cast<dcp::CPL>(i)) {
 			if (already_written.find(i->id()) == already_written.end()) {
-- 
2.43.0


From 6ea1e326c9350d96f318ee5db3b2fbfc2d3ee53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:38 +0000
Subject: [PATCH 48/94] fix: Combining DCPs lost fonts with the same filename
 in different directories

---
 src/combine.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/combine.cc b/src/combine.cc
index 75af97d..c1a54f1 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -66,15 +66,19 @@ using boost::optional;
 
 
 boost::filesystem::path
-make_unique(boost::filesystem::path path)
+make_unique(boost::filesystem::path path, set<boost::filesystem::path> const& taken = {})
 {
-	if (!dcp::filesystem::exists(path)) {
+	auto available = [&taken](boost::filesystem::path const& p) {
+		return !dcp::filesystem::exists(p) && taken.find(p) == taken.end();
+	};
+
+	if (available(path)) {
 		return path;
 	}
 
 	for (int i = 0; i < 10000; ++i) {
 		boost::filesystem::path p = path.parent_path() / (path.stem().string() + fmt::to_string(i) + path.extension().string());
-		if (!dcp::filesystem::exists(p)) {
+		if (available(p)) {
 			return p;
 		}
 	}
@@ -157,8 +161,12 @@ dcp::combine(
 				 */
 				boost::filesystem::create_directories(output / sub->id());
 				auto fonts = sub->font_filenames();
+				/* These files won't exist until sub->write() */
+				set<boost::filesystem::path> font_files;
 				for (auto const& k: fonts) {
-					sub->set_font_file(k.first, make_unique(output / sub->id() / k.second.filename()));
+					auto const font_file = make_unique(output / sub->id() / k.second.filename(), font_files);
+					font_files.insert(font_file);
+					sub->set_font_file(k.first, font_file);
 				}
 				auto const file = sub->file();
 				DCP_ASSERT(file);
-- 
2.43.0


From 4efec162a468a012b9bd9eff53ac15a5e81d05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:49 +0000
Subject: [PATCH 49/94] fix: Combining DCPs duplicated CPLs and subtitles that
 were in more than one of them

---
 src/combine.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/combine.cc b/src/combine.cc
index c1a54f1..42842a2 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -139,13 +139,16 @@ dcp::combine(
 	vector<boost::filesystem::path> paths;
 	vector<shared_ptr<dcp::Asset>> assets;
 	set<string> already_written;
+	set<string> cpls;
 
 	for (auto i: inputs) {
 		DCP dcp(i);
 		dcp.read();
 
 		for (auto j: dcp.cpls()) {
-			output_dcp.add(j);
+			if (cpls.insert(j->id()).second) {
+				output_dcp.add(j);
+			}
 		}
 
 		for (auto j: dcp.assets(true)) {
@@ -153,6 +156,10 @@ dcp::combine(
 				continue;
 			}
 
+			if (already_written.find(j->id()) != already_written.end()) {
+				continue;
+			}
+
 			if (auto sub = dynamic_pointer_cast<dcp::InteropTextAsset>(j)) {
 				/* Interop font files are assets (in the ASSETMAP) and also linked from
 				 * the subtitle XML by filename.  We have to fix both these things, and
-- 
2.43.0


From 80d0dcb3b4e106941410e16e04e681908cd946f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:08 +0000
Subject: [PATCH 50/94] fix: Encrypted subtitles could not be read with the
 right key after a wrong one

---
 src/smpte_text_asset.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index cd21713..242faf7 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -306,9 +306,8 @@ SMPTETextAsset::set_key(Key key)
 	auto const had_key = static_cast<bool>(_key);
 	auto const had_key_id = static_cast<bool>(_key_id);
 
-	MXF::set_key (key);
-
 	if (!had_key_id || !_file || had_key) {
+		MXF::set_key(key);
 		/* Either we don't have any data to read, it wasn't
 		   encrypted, or we've already read it, so we don't
 		   need to do anything else.
@@ -338,6 +337,9 @@ SMPTETextAsset::set_key(Key key)
 	parse_xml (xml);
 	read_mxf_descriptor(reader);
 	read_mxf_resources (reader, dec);
+
+	/* Do this last so that we can try again if this key was not the right one */
+	MXF::set_key(key);
 }
 
 
-- 
2.43.0


From 902f40a4916dcb832dfe6fe8b72ea66b19cee4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:41 +0000
Subject: [PATCH 51/94] fix: Thumbprints of large certificates were written
 past the end of a buffer

---
 src/certificate.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/certificate.cc b/src/certificate.cc
index a11e85b..66905df 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -430,17 +430,16 @@ Certificate::thumbprint () const
 {
 	DCP_ASSERT (_certificate);
 
-	uint8_t buffer[8192];
-	uint8_t* p = buffer;
+	/* OpenSSL will allocate this for us */
+	uint8_t* buffer = nullptr;
 
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
-	i2d_re_X509_tbs(_certificate, &p);
+	int const length = i2d_re_X509_tbs(_certificate, &buffer);
 #else
-	i2d_X509_CINF (_certificate->cert_info, &p);
+	int const length = i2d_X509_CINF(_certificate->cert_info, &buffer);
 #endif
-	unsigned int const length = p - buffer;
-	if (length > sizeof (buffer)) {
-		throw MiscError ("buffer too small to generate thumbprint");
+	if (length < 0) {
+		throw MiscError("could not generate thumbprint");
 	}
 
 	SHA_CTX sha;
@@ -448,6 +447,7 @@ Certificate::thumbprint () const
 	SHA1_Update (&sha, buffer, length);
 	uint8_t digest[20];
 	SHA1_Final (digest, &sha);
+	OPENSSL_free(buffer);
 
 	char digest_base64[64];
 	return Kumu::base64encode (digest, 20, digest_base64, 64);
-- 
2.43.0


From 836572485cd2f263e2fcaba5b6ccae3d87a54671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:41 +0000
Subject: [PATCH 52/94] fix: Digests of 4096-bit public keys were written past
 the end of a buffer

---
 src/certificate_chain.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index d54d8fb..006601f 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -127,12 +127,12 @@ string
 dcp::public_key_digest(RSA* public_key)
 {
 	/* Convert public key to DER (binary) format */
-	unsigned char buffer[512];
-	unsigned char* buffer_ptr = buffer;
-	auto length = i2d_RSA_PUBKEY(public_key, &buffer_ptr);
+	unsigned char* buffer = nullptr;
+	auto length = i2d_RSA_PUBKEY(public_key, &buffer);
 	if (length < 0) {
 		throw MiscError("Could not convert public key to DER");
 	}
+	dcp::ScopeGuard sg_buffer([buffer]() { OPENSSL_free(buffer); });
 
 	/* Hash it with SHA1 (without the first 24 bytes, for reasons that are not entirely clear) */
 
-- 
2.43.0


From b94ef35aece7bb6f39af0944a0a91fedbcc7315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:41 +0000
Subject: [PATCH 53/94] fix: KDMs for keys of more than 2048 bits could not be
 decrypted

---
 src/decrypted_kdm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c8daeba..7a18414 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -160,12 +160,12 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 
 	for (auto const& i: kdm.keys()) {
 		/* Decode the base-64-encoded cipher value from the KDM */
-		unsigned char cipher_value[256];
-		int const cipher_value_len = base64_decode (i, cipher_value, sizeof (cipher_value));
+		std::vector<unsigned char> cipher_value(RSA_size(rsa));
+		int const cipher_value_len = base64_decode(i, cipher_value.data(), cipher_value.size());
 
 		/* Decrypt it */
 		auto decrypted = new unsigned char[RSA_size(rsa)];
-		int const decrypted_len = RSA_private_decrypt (cipher_value_len, cipher_value, decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
+		int const decrypted_len = RSA_private_decrypt(cipher_value_len, cipher_value.data(), decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
 		if (decrypted_len == -1) {
 			delete[] decrypted;
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
-- 
2.43.0


From 300df0feff6021c5b8275086a97755d92d33a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:41 +0000
Subject: [PATCH 54/94] fix: ContentAuthenticator was lost when reading a KDM,
 which broke its signature

---
 src/encrypted_kdm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 78820ed..5dea831 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -398,6 +398,7 @@ public:
 	explicit KDMRequiredExtensions (shared_ptr<const cxml::Node> node)
 		: recipient (node->node_child ("Recipient"))
 		, composition_playlist_id (remove_urn_uuid (node->string_child ("CompositionPlaylistId")))
+		, content_authenticator(node->optional_string_child("ContentAuthenticator"))
 		, content_title_text (node->string_child ("ContentTitleText"))
 		, not_valid_before (node->string_child ("ContentKeysNotValidBefore"))
 		, not_valid_after (node->string_child ("ContentKeysNotValidAfter"))
-- 
2.43.0


From 3e4e0756bdb61adbc803e9c597f88f76f8801aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:41 +0000
Subject: [PATCH 55/94] fix: Making a KDM for a partly-encrypted CPL used unset
 key IDs

---
 src/decrypted_kdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index 7a18414..c913ba2 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -307,7 +307,7 @@ DecryptedKDM::DecryptedKDM (
 	/* Create DecryptedKDMKey objects for each encryptable asset */
 	bool did_one = false;
 	for (auto i: cpl->reel_file_assets()) {
-		if (i->encryptable()) {
+		if (i->encryptable() && i->key_id()) {
 			add_key (i->key_type().get(), i->key_id().get(), key, cpl->id(), Standard::SMPTE);
 			did_one = true;
 		}
-- 
2.43.0


From f57cf62722413343af53cb89ea8b4b35356c7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:53 +0000
Subject: [PATCH 56/94] fix: Documents were signed with private keys that did
 not match the signer's certificate

---
 src/certificate_chain.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 006601f..5a79c79 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -662,6 +662,11 @@ CertificateChain::sign (xmlpp::Element* parent, Standard standard) const
 void
 CertificateChain::add_signature_value (xmlpp::Element* parent, string ns, bool add_indentation) const
 {
+	string reason;
+	if (!valid(&reason)) {
+		throw CertificateChainError(reason);
+	}
+
 	auto children = parent->get_children();
 	auto key_info = std::find_if(children.begin(), children.end(), [](xmlpp::Node* node) {
 		return node->get_name() == "KeyInfo";
-- 
2.43.0


From 301d1ebca73340bfd6e6a6933fc89abeedfa4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:08:59 +0000
Subject: [PATCH 57/94] fix: Names with / or + in them were cut short in
 certificates that we made

---
 src/certificate_chain.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 5a79c79..97b95be 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -240,9 +240,9 @@ CertificateChain::CertificateChain (
 		  << "CN = Entity and dnQualifier\n";
 	}
 
-	string const ca_subject = "/O=" + organisation +
-		"/OU=" + organisational_unit +
-		"/CN=" + root_common_name +
+	string const ca_subject = "/O=" + escape_digest(organisation) +
+		"/OU=" + escape_digest(organisational_unit) +
+		"/CN=" + escape_digest(root_common_name) +
 		"/dnQualifier=" + public_key_digest ("ca.key");
 
 	{
@@ -274,9 +274,9 @@ CertificateChain::CertificateChain (
 		  << "CN = Entity and dnQualifier\n";
 	}
 
-	string const inter_subject = "/O=" + organisation +
-		"/OU=" + organisational_unit +
-		"/CN=" + intermediate_common_name +
+	string const inter_subject = "/O=" + escape_digest(organisation) +
+		"/OU=" + escape_digest(organisational_unit) +
+		"/CN=" + escape_digest(intermediate_common_name) +
 		"/dnQualifier="	+ public_key_digest ("intermediate.key");
 
 	{
@@ -315,9 +315,9 @@ CertificateChain::CertificateChain (
 		  << "CN = Entity and dnQualifier\n";
 	}
 
-	string const leaf_subject = "/O=" + organisation +
-		"/OU=" + organisational_unit +
-		"/CN=" + leaf_common_name +
+	string const leaf_subject = "/O=" + escape_digest(organisation) +
+		"/OU=" + escape_digest(organisational_unit) +
+		"/CN=" + escape_digest(leaf_common_name) +
 		"/dnQualifier="	+ public_key_digest ("leaf.key");
 
 	{
-- 
2.43.0


From 5f3e1f01742423868d950a8ec7963f67f48a0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:54 +0000
Subject: [PATCH 58/94] fix: Reduced or offset JPEG2000 images were given a
 size that their data did not have

---
 src/j2k_transcode.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 664d18a..160ce1e 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -179,9 +179,20 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	opj_destroy_codec (decoder);
 	opj_stream_destroy (stream);
 
-	image->x1 = rint (float(image->x1) / pow (2.0f, reduce));
-	image->y1 = rint (float(image->y1) / pow (2.0f, reduce));
-	return std::make_shared<OpenJPEGImage>(image);
+	auto decompressed = std::make_shared<OpenJPEGImage>(image);
+
+	/* Use the size that we really got, which will be reduced (rounding up) according to `reduce' */
+	for (int i = 0; i < 3; ++i) {
+		if (!image->comps[i].data || image->comps[i].w != image->comps[0].w || image->comps[i].h != image->comps[0].h) {
+			boost::throw_exception(ReadError("JPEG2000 image has missing or differently-sized components"));
+		}
+	}
+
+	image->x0 = 0;
+	image->y0 = 0;
+	image->x1 = image->comps[0].w;
+	image->y1 = image->comps[0].h;
+	return decompressed;
 }
 
 
-- 
2.43.0


From 0dbacea72d55c2b6ece07d5cd111e3135269feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:46 +0000
Subject: [PATCH 59/94] fix: Truncated JPEG2000 data could make the decoder
 loop without end

---
 src/j2k_transcode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 160ce1e..ad32fe3 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -82,6 +82,10 @@ public:
 	OPJ_SIZE_T read (void* buffer, OPJ_SIZE_T nb_bytes)
 	{
 		int64_t N = min (nb_bytes, _size - _offset);
+		if (N == 0) {
+			/* This is how OpenJPEG must be told that there is no more data */
+			return static_cast<OPJ_SIZE_T>(-1);
+		}
 		memcpy (buffer, _data + _offset, N);
 		_offset += N;
 		return N;
-- 
2.43.0


From b3834202e771a838225ad2a063ba8002a2359d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 60/94] fix: SMPTE timed text with a rate of zero caused a
 division by zero

---
 src/smpte_text_asset.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 242faf7..4da9773 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -198,7 +198,14 @@ SMPTETextAsset::parse_xml(shared_ptr<cxml::Document> xml)
 		throw XMLError ("malformed EditRate " + er);
 	}
 
+	if (_edit_rate.denominator < 1) {
+		throw XMLError ("malformed EditRate " + er);
+	}
+
 	_time_code_rate = xml->number_child<int> ("TimeCodeRate");
+	if (_time_code_rate < 1) {
+		throw XMLError ("malformed TimeCodeRate " + xml->string_child("TimeCodeRate"));
+	}
 	if (xml->optional_string_child ("StartTime")) {
 		_start_time = Time (xml->string_child("StartTime"), _time_code_rate);
 	}
-- 
2.43.0


From 184e1a2ab5ade701b09f614ef6be7c037db3186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 61/94] fix: Failure to finish a timed text MXF was not
 reported

---
 src/smpte_text_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 4da9773..84e89bf 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -507,7 +507,10 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 		}
 	}
 
-	writer.Finalize ();
+	r = writer.Finalize();
+	if (ASDCP_FAILURE(r)) {
+		throw_from_asdcplib(r, p, MXFFileError("could not finalise timed text MXF", p.string(), r));
+	}
 
 	set_file(p);
 }
-- 
2.43.0


From 61508df6eaa1bf8f3caaacc29384e21d176b4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 62/94] fix: Markers with a zero or fractional edit rate caused
 a division by zero

---
 src/reel_markers_asset.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reel_markers_asset.cc b/src/reel_markers_asset.cc
index 57fa22c..3b56a7d 100644
--- a/src/reel_markers_asset.cc
+++ b/src/reel_markers_asset.cc
@@ -38,6 +38,7 @@
 
 
 #include "dcp_assert.h"
+#include "exceptions.h"
 #include "reel_markers_asset.h"
 #include "warnings.h"
 LIBDCP_DISABLE_WARNINGS
@@ -62,6 +63,10 @@ ReelMarkersAsset::ReelMarkersAsset (Fraction edit_rate, int64_t intrinsic_durati
 ReelMarkersAsset::ReelMarkersAsset (cxml::ConstNodePtr node)
 	: ReelAsset (node)
 {
+	if (edit_rate().denominator < 1 || edit_rate().numerator < edit_rate().denominator) {
+		throw XMLError("malformed EditRate " + edit_rate().as_string());
+	}
+
 	auto list = node->node_child ("MarkerList");
 	DCP_ASSERT (list);
 	for (auto i: list->node_children("Marker")) {
-- 
2.43.0


From 791d321cf953bb95972f921c82550e2e9ac22397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 63/94] fix: Huge screen aspect ratios in CPLs overflowed an
 integer

---
 src/reel_picture_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reel_picture_asset.cc b/src/reel_picture_asset.cc
index 9104e34..dab112e 100644
--- a/src/reel_picture_asset.cc
+++ b/src/reel_picture_asset.cc
@@ -79,7 +79,9 @@ ReelPictureAsset::ReelPictureAsset (shared_ptr<const cxml::Node> node)
 		/* It's not a fraction */
 		try {
 			float f = node->number_child<float> ("ScreenAspectRatio");
-			_screen_aspect_ratio = Fraction (f * 1000, 1000);
+			if (f >= 0 && f < 1000000) {
+				_screen_aspect_ratio = Fraction (f * 1000, 1000);
+			}
 		} catch (bad_cast& e) {
 
 		}
-- 
2.43.0


From 28cc714e0cd02985acb1fd24c352d35518e2d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 64/94] fix: Invalid JPEG2000 code block sizes caused undefined
 shifts in the verifier

---
 src/verify_j2k.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index f7f9117..203eb97 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -246,12 +246,18 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				require_8(1, "invalid multi-component transform flag %1");
 				require_8(fourk ? 6 : 5, "invalid number of transform levels %1");
 				auto log_code_block_width = get_8();
+				if (log_code_block_width > 8) {
+					throw InvalidCodestream(fmt::format("invalid code block width exponent {}", log_code_block_width));
+				}
 				if (log_code_block_width != 3) {
 					notes.push_back(
 						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 * (2 << log_code_block_width))
 					);
 				}
 				auto log_code_block_height = get_8();
+				if (log_code_block_height > 8) {
+					throw InvalidCodestream(fmt::format("invalid code block height exponent {}", log_code_block_height));
+				}
 				if (log_code_block_height != 3) {
 					notes.push_back(
 						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 * (2 << log_code_block_height))
-- 
2.43.0


From b027ff00134ca99b9edae5723e6ba524c2e89c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 65/94] fix: Verifier read past the closed captions of reels
 which have fewer than the first

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 1ead5c0..f31b8f4 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1300,7 +1300,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 	for (auto i = 0U; i < reels[0]->closed_captions().size(); ++i) {
 		verify_text_details(context, reels, reels[0]->closed_captions()[i]->edit_rate().numerator,
 			[i](shared_ptr<Reel> reel) {
-				return reel->closed_captions()[i]->id();
+				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
 				return i < reel->closed_captions().size();
-- 
2.43.0


From 4be49ce16c93d5dd4025fec1b183b8eb816ceb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 66/94] fix: Failure to write a text or HTML verification
 report was not reported

---
 src/stream_formatter.h |  8 ++++++++
 src/verify_report.cc   | 16 +++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/stream_formatter.h b/src/stream_formatter.h
index acdcbb4..90dd8e9 100644
--- a/src/stream_formatter.h
+++ b/src/stream_formatter.h
@@ -23,6 +23,7 @@
 #define LIBDCP_STREAM_FORMATTER_H
 
 
+#include "exceptions.h"
 #include "file.h"
 #include "verify_report.h"
 
@@ -76,6 +77,13 @@ public:
 		std::function<void ()> _closer = nullptr;
 	};
 
+	/** Check that everything written so far has been stored */
+	void finish() override {
+		if (fflush(_file.get()) != 0 || _file.error()) {
+			throw FileError("could not write report", _file.path(), errno);
+		}
+	}
+
 	dcp::File& file() {
 		return _file;
 	}
diff --git a/src/verify_report.cc b/src/verify_report.cc
index 87f7621..891490a 100644
--- a/src/verify_report.cc
+++ b/src/verify_report.cc
@@ -146,21 +146,23 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 		formatter.subheading("Report");
 		write_notes(result, {});
 	}
-
-	formatter.finish();
 }
 
 
 void
 dcp::verify_report(vector<dcp::VerificationResult> const& results, Formatter& formatter)
 {
-	auto document = formatter.document();
-	auto body = formatter.body();
+	{
+		auto document = formatter.document();
+		auto body = formatter.body();
 
-	formatter.heading("DCP verification report");
+		formatter.heading("DCP verification report");
 
-	for (auto result: results) {
-		::verify_report(result, formatter);
+		for (auto result: results) {
+			::verify_report(result, formatter);
+		}
 	}
+
+	formatter.finish();
 }
 
-- 
2.43.0


From f1c510eb800b8cb8dbd465dd17f0089e41b6c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:45 +0000
Subject: [PATCH 67/94] fix: Failure to store the end of a PDF verification
 report was not reported

---
 src/pdf_formatter.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdf_formatter.cc b/src/pdf_formatter.cc
index 0ec77c4..0a24b33 100644
--- a/src/pdf_formatter.cc
+++ b/src/pdf_formatter.cc
@@ -19,6 +19,7 @@
 */
 
 
+#include "array_data.h"
 #include "exceptions.h"
 #include "pdf_formatter.h"
 #include <fmt/format.h>
@@ -277,7 +278,13 @@ PDFFormatter::fixed_width()
 void
 PDFFormatter::finish()
 {
-	HPDF_SaveToFile(_pdf, _file.string().c_str());
+	/* HPDF_SaveToFile() does not notice if some of the data cannot be stored when the file is closed */
+	HPDF_SaveToStream(_pdf);
+	HPDF_UINT32 size = HPDF_GetStreamSize(_pdf);
+	ArrayData data(size);
+	HPDF_ResetStream(_pdf);
+	HPDF_ReadFromStream(_pdf, data.data(), &size);
+	data.write(_file);
 }
 
 
-- 
2.43.0


From 6de22c63d0c0a09f9eb8f485282355fc6d1d9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:53:41 +0000
Subject: [PATCH 68/94] fix: Huge durations in CPLs overflowed when added
 together

---
 src/reel_asset.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/reel_asset.cc b/src/reel_asset.cc
index 1b346da..d616fbb 100644
--- a/src/reel_asset.cc
+++ b/src/reel_asset.cc
@@ -41,6 +41,7 @@
 #include "compose.hpp"
 #include "dcp_assert.h"
 #include "equality_options.h"
+#include "exceptions.h"
 #include "raw_convert.h"
 #include "reel_asset.h"
 #include "warnings.h"
@@ -81,7 +82,17 @@ ReelAsset::ReelAsset (shared_ptr<const cxml::Node> node)
 	, _edit_rate (Fraction (node->string_child ("EditRate")))
 	, _entry_point (node->optional_number_child<int64_t>("EntryPoint"))
 {
+	/* Avoid overflow when these are added together */
+	auto check = [](char const* name, int64_t value) {
+		int64_t constexpr limit = int64_t(1) << 48;
+		if (value < -limit || value > limit) {
+			throw XMLError(fmt::format("{} {} is out of range", name, value));
+		}
+	};
 
+	check("IntrinsicDuration", _intrinsic_duration);
+	check("Duration", _duration.get_value_or(0));
+	check("EntryPoint", _entry_point.get_value_or(0));
 }
 
 
-- 
2.43.0


From dd396aad6f08b8869b7e5977638b3a0793ddac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:03 +0000
Subject: [PATCH 69/94] fix: Verifier counted texts which were no longer on
 screen as extra lines and characters

---
 src/verify.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index f31b8f4..a854e5b 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1210,7 +1210,8 @@ dcp::verify_text_lines_and_characters(
 
 	/* Make a list of "subtitle starts" and "subtitle ends" events */
 	for (auto j: asset->texts()) {
-		if (auto text = dynamic_pointer_cast<const TextString>(j)) {
+		auto text = dynamic_pointer_cast<const TextString>(j);
+		if (text && text->in() < text->out()) {
 			auto in = make_shared<Event>(text->in(), position(text), utf8_strlen(text->text()));
 			events.push_back(in);
 			events.push_back(make_shared<Event>(text->out(), in));
@@ -1218,7 +1219,11 @@ dcp::verify_text_lines_and_characters(
 	}
 
 	std::sort(events.begin(), events.end(), [](shared_ptr<Event> const& a, shared_ptr<Event> const& b) {
-		return a->time < b->time;
+		if (a->time != b->time) {
+			return a->time < b->time;
+		}
+		/* Things that end at a given time are not on screen with those that start then */
+		return a->start && !b->start;
 	});
 
 	/* The number of characters currently displayed at different vertical positions, i.e. on
@@ -1248,7 +1253,7 @@ dcp::verify_text_lines_and_characters(
 			 */
 			if (iter != current.end()) {
 				DCP_ASSERT (current.find(i->start->position) != current.end());
-				auto current_position = current[i->start->position];
+				auto& current_position = current[i->start->position];
 				auto iter = std::find(current_position.begin(), current_position.end(), i->start);
 				if (iter != current_position.end()) {
 					current_position.erase(iter);
-- 
2.43.0


From 8af969d888a6e0bbe72b33d9af9c35888989ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:03 +0000
Subject: [PATCH 70/94] fix: Verification stopped with an exception if a
 subtitle or closed caption file was missing

---
 src/verify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index a854e5b..9eeddb9 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1129,6 +1129,9 @@ verify_closed_caption_details(Context& context, vector<shared_ptr<Reel>> reels)
 		context.reel_index = reel_index;
 		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 		for (auto ccap: reel->closed_captions()) {
+			if (!ccap->asset_ref().resolved()) {
+				continue;
+			}
 			auto reel_xml = ccap->asset()->raw_xml();
 			if (!reel_xml) {
 				context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
@@ -1288,7 +1291,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return reel->main_subtitle() ? reel->main_subtitle()->id() : string{};
 			},
 			[](shared_ptr<Reel> reel) {
-				return static_cast<bool>(reel->main_subtitle());
+				return reel->main_subtitle() && reel->main_subtitle()->asset_ref().resolved();
 			},
 			[](shared_ptr<Reel> reel) {
 				return reel->main_subtitle()->asset()->raw_xml();
@@ -1308,7 +1311,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
-				return i < reel->closed_captions().size();
+				return i < reel->closed_captions().size() && reel->closed_captions()[i]->asset_ref().resolved();
 			},
 			[i](shared_ptr<Reel> reel) {
 				return reel->closed_captions()[i]->asset()->raw_xml();
@@ -1775,7 +1778,7 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 			context.reel_index = reel_index;
 			dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 			for (auto i: reel->closed_captions()) {
-				if (i->asset()) {
+				if (i->asset_ref().resolved()) {
 					verify_text_lines_and_characters(i->asset(), 32, 32, &result);
 				}
 			}
-- 
2.43.0


From f1f7c344c5800306b11ac503d1a9fc9ab8f0c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:03 +0000
Subject: [PATCH 71/94] fix: Verifier ignored reels without readable subtitles
 when checking their spacing

---
 src/verify.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 9eeddb9..4fad321 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -982,12 +982,14 @@ verify_text_details (
 		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; context.asset_id = boost::none; };
 
 		if (!check(reels[i])) {
+			reel_offset += reels[i]->duration();
 			continue;
 		}
 
 		auto reel_xml = xml(reels[i]);
 		if (!reel_xml) {
 			context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
+			reel_offset += duration(reels[i]);
 			continue;
 		}
 
-- 
2.43.0


From 298ef5adbb17598f0737c0f0847f83d5c8c65394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:04 +0000
Subject: [PATCH 72/94] fix: Verifier did not notice SMPTE subtitles using
 fonts which were not loaded

---
 src/verify.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 4fad321..49ef4ae 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -961,7 +961,11 @@ verify_text_details (
 				font_ids.push_back(*id);
 			}
 		} else if (node->name() == "Font") {
-			if (auto const font_id = node->optional_string_attribute("Id")) {
+			auto font_id = node->optional_string_attribute("Id");
+			if (!font_id) {
+				font_id = node->optional_string_attribute("ID");
+			}
+			if (font_id) {
 				if (std::find_if(font_ids.begin(), font_ids.end(), [font_id](string const& id) { return id == font_id; }) == font_ids.end()) {
 					errors.missing_load_font_id = font_id;
 				}
-- 
2.43.0


From 2eed4ac3177852a38f6c5a126e557922ad1cd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:04 +0000
Subject: [PATCH 73/94] fix: Verification stopped with an exception if an asset
 did not have the ID given in the PKL

---
 src/verify.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 49ef4ae..29f8e26 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -422,10 +422,10 @@ verify_asset(
 		}
 	}
 
-	DCP_ASSERT(maybe_pkl_hash);
-	*reference_hash = *maybe_pkl_hash;
-
 	auto cpl_hash = reel_file_asset->hash();
+	/* There may be no PKL hash if the asset's ID is not the one that the PKL gives */
+	*reference_hash = maybe_pkl_hash.get_value_or(cpl_hash.get_value_or(*calculated_hash));
+
 	if (cpl_hash && *cpl_hash != *reference_hash) {
 		return VerifyAssetResult::CPL_PKL_DIFFER;
 	}
-- 
2.43.0


From 3ce59af0373744a3d5ad49b70aaaf6b19e6d391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:04 +0000
Subject: [PATCH 74/94] fix: Verifier reported twice the true size of JPEG2000
 code blocks

---
 src/verify_j2k.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 203eb97..1decb1a 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -251,7 +251,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 				if (log_code_block_width != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 * (2 << log_code_block_width))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 << log_code_block_width)
 					);
 				}
 				auto log_code_block_height = get_8();
@@ -260,7 +260,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 				if (log_code_block_height != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 * (2 << log_code_block_height))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 << log_code_block_height)
 					);
 				}
 				require_8(0, "invalid mode variations");
-- 
2.43.0


From a78d6b623614252082ed43260b8c4778c6c92b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:04 +0000
Subject: [PATCH 75/94] fix: Verifier gave the wrong frame for large JPEG2000
 tile parts in reels after the first

---
 src/verify_j2k.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 1decb1a..49bca86 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -224,7 +224,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 				if (tile_part_length > max_tile_part_size) {
 					VerificationNote note{VerificationNote::Code::INVALID_JPEG2000_TILE_PART_SIZE};
-					note.set_frame(frame_index);
+					note.set_frame(start_index + frame_index);
 					note.set_frame_rate(dcp::Fraction(frame_rate, 1));
 					note.set_component(tile_part_index);
 					note.set_size_in_bytes(tile_part_length);
-- 
2.43.0


From 0782fa71da0913ba61dd07d70df328554332fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:04 +0000
Subject: [PATCH 76/94] fix: Verifier required a title in the annotation text
 of PKLs with three CPLs

---
 src/verify.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 29f8e26..e4986bc 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1629,23 +1629,20 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 		}
 
 		/* Check that any PKL with a single CPL has its AnnotationText the same as the CPL's ContentTitleText */
-		optional<string> required_annotation_text;
+		string required_annotation_text;
+		int cpls_in_pkl = 0;
 		for (auto j: i->assets()) {
 			/* See if this is a CPL */
 			for (auto k: context.dcp->cpls()) {
 				if (j->id() == k->id()) {
-					if (!required_annotation_text) {
-						/* First CPL we have found; this is the required AnnotationText unless we find another */
-						required_annotation_text = cpl->content_title_text();
-					} else {
-						/* There's more than one CPL so we don't care what the PKL's AnnotationText is */
-						required_annotation_text = boost::none;
-					}
+					required_annotation_text = k->content_title_text();
+					++cpls_in_pkl;
 				}
 			}
 		}
 
-		if (required_annotation_text && i->annotation_text() != required_annotation_text) {
+		/* If there's more than one CPL we don't care what the PKL's AnnotationText is */
+		if (cpls_in_pkl == 1 && i->annotation_text() != required_annotation_text) {
 			context.add_note(VerificationNote(VerificationNote::Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, i->file().get()).set_pkl_id(i->id()));
 		} else {
 			context.add_note(VerificationNote::Code::MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL);
-- 
2.43.0


From 0fcb2075eaaa5508a35ab267b75e0de526e234bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:14:35 +0000
Subject: [PATCH 77/94] fix: Getting the current time from different threads
 could mix up their results

---
 src/local_time.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 252bf27..8851cbf 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -55,9 +55,8 @@ using namespace dcp;
 
 LocalTime::LocalTime ()
 {
-	auto now = time (0);
-	auto tm = localtime (&now);
-	set (tm);
+	/* Not localtime(), as its result is shared between threads */
+	set (boost::posix_time::second_clock::local_time());
 	set_local_time_zone ();
 }
 
-- 
2.43.0


From b4a4b4f9342029658823acb5070cfbb4436a15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:23 +0000
Subject: [PATCH 78/94] fix: do not leak the parts of a subtitle's XML
 hierarchy

Parent and child parts owned one another, so nothing was freed after
writing subtitle XML.
---
 src/text_asset.cc         | 2 +-
 src/text_asset_internal.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index e0b34a2..1a8d818 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -724,7 +724,7 @@ TextAsset::pull_fonts(shared_ptr<order::Part> part)
 		pull_fonts (i);
 	}
 
-	if (part->parent) {
+	if (part->parent.lock()) {
 		/* Establish the common font features that each of part's children have;
 		   these features go into part's font.
 		*/
diff --git a/src/text_asset_internal.h b/src/text_asset_internal.h
index 2dfccce..5a0e0f3 100644
--- a/src/text_asset_internal.h
+++ b/src/text_asset_internal.h
@@ -121,7 +121,8 @@ public:
 	virtual xmlpp::Element* as_xml (xmlpp::Element* parent, Context &) const;
 	void write_xml (xmlpp::Element* parent, order::Context& context) const;
 
-	std::shared_ptr<Part> parent;
+	/** weak so that parents and their children do not keep each other alive */
+	std::weak_ptr<Part> parent;
 	Font font;
 	std::vector<std::shared_ptr<Part>> children;
 };
-- 
2.43.0


From 2f6bd10c700991fb8bd539cc8e5e48075aea44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:23 +0000
Subject: [PATCH 79/94] fix: free the keys read when checking a chain's private
 key

---
 src/certificate_chain.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 97b95be..9452b64 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -543,13 +543,16 @@ CertificateChain::private_key_valid () const
 	if (!bio) {
 		throw MiscError ("could not create memory BIO");
 	}
+	dcp::ScopeGuard sg_bio([bio]() { BIO_free(bio); });
 
 	auto private_key = PEM_read_bio_RSAPrivateKey (bio, 0, 0, 0);
 	if (!private_key) {
 		return false;
 	}
+	dcp::ScopeGuard sg_private_key([private_key]() { RSA_free(private_key); });
 
-	auto public_key = leaf().public_key ();
+	auto const leaf_certificate = leaf();
+	auto public_key = leaf_certificate.public_key();
 
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
 	BIGNUM const * private_key_n;
@@ -563,7 +566,6 @@ CertificateChain::private_key_valid () const
 #else
 	bool const valid = !BN_cmp (private_key->n, public_key->n);
 #endif
-	BIO_free (bio);
 
 	return valid;
 }
-- 
2.43.0


From 50ead84b7f0a4a8481c0d6c1249f49634a0db644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:23 +0000
Subject: [PATCH 80/94] fix: free the private key and buffers when a KDM cannot
 be decrypted

---
 src/decrypted_kdm.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c913ba2..3cb81b8 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -47,6 +47,7 @@
 #include "exceptions.h"
 #include "reel_asset.h"
 #include "reel_file_asset.h"
+#include "scope_guard.h"
 #include "util.h"
 #include <asdcp/AS_DCP.h>
 #include <asdcp/KM_util.h>
@@ -148,11 +149,13 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 	if (!bio) {
 		throw MiscError ("could not create memory BIO");
 	}
+	ScopeGuard sg_bio([bio]() { BIO_free(bio); });
 
 	auto rsa = PEM_read_bio_RSAPrivateKey (bio, 0, 0, 0);
 	if (!rsa) {
 		throw FileError ("could not read RSA private key file", private_key, errno);
 	}
+	ScopeGuard sg_rsa([rsa]() { RSA_free(rsa); });
 
 	/* Use the private key to decrypt the keys */
 
@@ -164,10 +167,9 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 		int const cipher_value_len = base64_decode(i, cipher_value.data(), cipher_value.size());
 
 		/* Decrypt it */
-		auto decrypted = new unsigned char[RSA_size(rsa)];
-		int const decrypted_len = RSA_private_decrypt(cipher_value_len, cipher_value.data(), decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
+		std::vector<unsigned char> decrypted(RSA_size(rsa));
+		int const decrypted_len = RSA_private_decrypt(cipher_value_len, cipher_value.data(), decrypted.data(), rsa, RSA_PKCS1_OAEP_PADDING);
 		if (decrypted_len == -1) {
-			delete[] decrypted;
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
 			throw KDMDecryptionError (ERR_error_string (ERR_get_error(), 0), cipher_value_len, RSA_bits(rsa));
 #else
@@ -178,7 +180,7 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 		dcp::LocalTime not_valid_before;
 		dcp::LocalTime not_valid_after;
 
-		unsigned char* p = decrypted;
+		unsigned char* p = decrypted.data();
 		switch (decrypted_len) {
 		case 134:
 		{
@@ -229,8 +231,6 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 			DCP_ASSERT (false);
 		}
 
-		delete[] decrypted;
-
 		if (first) {
 			_not_valid_before = not_valid_before;
 			_not_valid_after = not_valid_after;
@@ -242,9 +242,6 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 		}
 	}
 
-	RSA_free (rsa);
-	BIO_free (bio);
-
 	_annotation_text = kdm.annotation_text ();
 	_content_title_text = kdm.content_title_text ();
 	_issue_date = kdm.issue_date ();
-- 
2.43.0


From d05c2ddfcce21d5de2c9b87e47f07a15557f59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:24 +0000
Subject: [PATCH 81/94] fix: free a certificate's public key and BIO properly

The EVP_PKEY was never freed, nor the BIO when a certificate could not
be read.
---
 src/certificate.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/certificate.cc b/src/certificate.cc
index 66905df..409ca06 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -40,6 +40,7 @@
 #include "certificate.h"
 #include "compose.hpp"
 #include "exceptions.h"
+#include "scope_guard.h"
 #include "util.h"
 #include "dcp_assert.h"
 #include <asdcp/KM_util.h>
@@ -161,14 +162,13 @@ Certificate::read_string (string cert)
 	if (!bio) {
 		throw MiscError ("could not create memory BIO");
 	}
+	ScopeGuard sg_bio([bio]() { BIO_free(bio); });
 
 	_certificate = PEM_read_bio_X509 (bio, 0, 0, 0);
 	if (!_certificate) {
 		throw MiscError ("could not read X509 certificate from memory BIO");
 	}
 
-	BIO_free (bio);
-
 	string extra;
 
 	while (i != lines.end()) {
@@ -469,6 +469,7 @@ Certificate::public_key () const
 	}
 
 	_public_key = EVP_PKEY_get1_RSA (key);
+	EVP_PKEY_free(key);
 	if (!_public_key) {
 		throw MiscError (String::compose ("could not get RSA public key (%1)", ERR_error_string (ERR_get_error(), 0)));
 	}
-- 
2.43.0


From cf293cc97f964ac6070d19ca3b4a837baa2e384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:24 +0000
Subject: [PATCH 82/94] fix: free the codec, stream and image when JPEG2000
 decoding or encoding fails

---
 src/j2k_transcode.cc | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index ad32fe3..586a2ab 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -41,6 +41,7 @@
 #include "j2k_transcode.h"
 #include "exceptions.h"
 #include "openjpeg_image.h"
+#include "scope_guard.h"
 #include "dcp_assert.h"
 #include "compose.hpp"
 #include <openjpeg.h>
@@ -151,6 +152,7 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	if (!decoder) {
 		boost::throw_exception(ReadError("could not create JPEG2000 decompressor"));
 	}
+	ScopeGuard sg_decoder([decoder]() { opj_destroy_codec(decoder); });
 	opj_dparameters_t parameters;
 	opj_set_default_decoder_parameters (&parameters);
 	parameters.cp_reduce = reduce;
@@ -160,6 +162,7 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	if (!stream) {
 		throw MiscError ("could not create JPEG2000 stream");
 	}
+	ScopeGuard sg_stream([stream]() { opj_stream_destroy(stream); });
 
 	opj_set_error_handler(decoder, decompress_error_callback, 00);
 
@@ -169,10 +172,9 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	opj_stream_set_user_data_length (stream, size);
 
 	opj_image_t* image = 0;
+	ScopeGuard sg_image([&image]() { opj_image_destroy(image); });
 	opj_read_header (stream, decoder, &image);
 	if (opj_decode (decoder, stream, image) == OPJ_FALSE) {
-		opj_destroy_codec (decoder);
-		opj_stream_destroy (stream);
 		if (format == OPJ_CODEC_J2K) {
 			boost::throw_exception (ReadError (String::compose ("could not decode JPEG2000 codestream of %1 bytes.", size)));
 		} else {
@@ -180,10 +182,8 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 		}
 	}
 
-	opj_destroy_codec (decoder);
-	opj_stream_destroy (stream);
-
 	auto decompressed = std::make_shared<OpenJPEGImage>(image);
+	sg_image.cancel();
 
 	/* Use the size that we really got, which will be reduced (rounding up) according to `reduce' */
 	for (int i = 0; i < 3; ++i) {
@@ -261,6 +261,7 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 	if (encoder == nullptr) {
 		throw MiscError ("could not create JPEG2000 encoder");
 	}
+	ScopeGuard sg_encoder([encoder]() { opj_destroy_codec(encoder); });
 
 	if (comment.empty()) {
 		/* asdcplib complains with "Illegal data size" when reading frames encoded with an empty comment */
@@ -277,6 +278,7 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 	}
 	parameters.rsiz = fourk ? OPJ_PROFILE_CINEMA_4K : OPJ_PROFILE_CINEMA_2K;
 	parameters.cp_comment = strdup (comment.c_str());
+	ScopeGuard sg_comment([&parameters]() { free(parameters.cp_comment); });
 
 	/* set max image */
 	parameters.max_cs_size = (bandwidth / 8) / frames_per_second;
@@ -302,10 +304,9 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 
 	auto stream = opj_stream_default_create (OPJ_FALSE);
 	if (!stream) {
-		opj_destroy_codec (encoder);
-		free (parameters.cp_comment);
 		throw MiscError ("could not create JPEG2000 stream");
 	}
+	ScopeGuard sg_stream([stream]() { opj_stream_destroy(stream); });
 
 	opj_stream_set_write_function (stream, write_function);
 	opj_stream_set_seek_function (stream, seek_function);
@@ -313,9 +314,6 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 	opj_stream_set_user_data (stream, buffer, write_free_function);
 
 	if (!opj_start_compress (encoder, xyz->opj_image(), stream)) {
-		opj_stream_destroy (stream);
-		opj_destroy_codec (encoder);
-		free (parameters.cp_comment);
 		if ((errno & 0x61500) == 0x61500) {
 			/* We've had one of the magic error codes from our patched openjpeg */
 			boost::throw_exception (StartCompressionError (errno & 0xff));
@@ -325,25 +323,13 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 	}
 
 	if (!opj_encode (encoder, stream)) {
-		opj_stream_destroy (stream);
-		opj_destroy_codec (encoder);
-		free (parameters.cp_comment);
 		throw MiscError ("JPEG2000 encoding failed");
 	}
 
 	if (!opj_end_compress (encoder, stream)) {
-		opj_stream_destroy (stream);
-		opj_destroy_codec (encoder);
-		free (parameters.cp_comment);
 		throw MiscError ("could not end JPEG2000 encoding");
 	}
 
-	ArrayData enc (buffer->data ());
-
-	opj_stream_destroy (stream);
-	opj_destroy_codec (encoder);
-	free (parameters.cp_comment);
-
-	return enc;
+	return buffer->data();
 }
 
-- 
2.43.0


From 764cc367eb0b3bf21d0b80ebde3d876bfff10542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:24 +0000
Subject: [PATCH 83/94] fix: free the signature context when signing fails

---
 src/certificate_chain.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 9452b64..63b4d9e 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -692,6 +692,7 @@ CertificateChain::add_signature_value (xmlpp::Element* parent, string ns, bool a
 	if (signature_context == 0) {
 		throw MiscError ("could not create signature context");
 	}
+	dcp::ScopeGuard sg_context([signature_context]() { xmlSecDSigCtxDestroy(signature_context); });
 
 	DCP_ASSERT(_key);
 	signature_context->signKey = xmlSecCryptoAppKeyLoadMemory (
@@ -709,8 +710,6 @@ CertificateChain::add_signature_value (xmlpp::Element* parent, string ns, bool a
 	if (r < 0) {
 		throw MiscError (String::compose ("could not sign (%1)", r));
 	}
-
-	xmlSecDSigCtxDestroy (signature_context);
 }
 
 
-- 
2.43.0


From 9a63fd71ba297bd8aa41c3f80e79508b786a7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:24 +0000
Subject: [PATCH 84/94] fix: free the KDM's data when making an encrypted KDM
 fails

---
 src/encrypted_kdm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 5dea831..d3623be 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -42,6 +42,7 @@
 #include "encrypted_kdm.h"
 #include "exceptions.h"
 #include "file.h"
+#include "scope_guard.h"
 #include "util.h"
 #include <libcxml/cxml.h>
 #include <libxml++/attributenode.h>
@@ -625,6 +626,9 @@ EncryptedKDM::EncryptedKDM (
 	)
 	: _data (new data::EncryptedKDMData)
 {
+	/* Our destructor will not be called if anything here throws */
+	ScopeGuard sg_data([this]() { delete _data; });
+
 	/* Fill our XML-ish description in with the juicy bits that the caller has given */
 
 	/* Our ideas, based on http://isdcf.com/papers/ISDCF-Doc5-kdm-certs.pdf, about the KDM types are:
@@ -709,6 +713,8 @@ EncryptedKDM::EncryptedKDM (
 	/* Read the bits that add_signature_value did back into our variables */
 	auto signed_doc = make_shared<cxml::Node>(doc->get_root_node());
 	_data->signature = data::Signature (signed_doc->node_child ("Signature"));
+
+	sg_data.cancel();
 }
 
 
-- 
2.43.0


From 0684771d895e1b5c2e07a24489e88fd112e9da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:15:24 +0000
Subject: [PATCH 85/94] fix: restore the current directory and clean up if
 making certificates fails

---
 src/certificate_chain.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 63b4d9e..508d8c9 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -211,8 +211,16 @@ CertificateChain::CertificateChain (
 {
 	auto directory = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path ();
 	filesystem::create_directories(directory);
+	dcp::ScopeGuard sg_directory([directory]() {
+		boost::system::error_code ec;
+		filesystem::remove_all(directory, ec);
+	});
 
 	auto const cwd = boost::filesystem::current_path();
+	dcp::ScopeGuard sg_cwd([cwd]() {
+		boost::system::error_code ec;
+		boost::filesystem::current_path(cwd, ec);
+	});
 	/* On Windows we will use cmd.exe here, and that doesn't work with UNC paths, so make sure
 	 * we don't use our own filesystem::current_path() as it will make the current working
 	 * directory a UNC path.
@@ -347,8 +355,6 @@ CertificateChain::CertificateChain (
 	_certificates.push_back (dcp::Certificate(dcp::file_to_string(directory / "leaf.signed.pem")));
 
 	_key = dcp::file_to_string (directory / "leaf.key");
-
-	filesystem::remove_all(directory);
 }
 
 
-- 
2.43.0


From e546cea99080826924e81d97007c2da6f997d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:41 +0000
Subject: [PATCH 86/94] fix: do not leak text nodes when signing a KDM

xmlsec replaces the contents of DigestValue and SignatureValue, so libxml++
never gets to free its wrappers of any (empty) text that is in them.
---
 src/encrypted_kdm.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index d3623be..0f6f43d 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -139,7 +139,10 @@ public:
 	{
 		node->set_attribute ("URI", uri);
 		cxml::add_child(node, "DigestMethod", string("ds"))->set_attribute("Algorithm", "http://www.w3.org/2001/04/xmlenc#sha256");
-		cxml::add_child(node, "DigestValue", string("ds"))->add_child_text(digest_value);
+		auto digest = cxml::add_child(node, "DigestValue", string("ds"));
+		if (!digest_value.empty()) {
+			digest->add_child_text(digest_value);
+		}
 	}
 
 	string uri;
@@ -205,7 +208,10 @@ public:
 	void as_xml(xmlpp::Element* element) const
 	{
 		signed_info.as_xml(cxml::add_child(element, "SignedInfo", string("ds")));
-		cxml::add_child(element, "SignatureValue", string("ds"))->add_child_text(signature_value);
+		auto signature = cxml::add_child(element, "SignatureValue", string("ds"));
+		if (!signature_value.empty()) {
+			signature->add_child_text(signature_value);
+		}
 
 		auto key_info_node = cxml::add_child(element, "KeyInfo", string("ds"));
 		for (auto i: x509_data) {
-- 
2.43.0


From 1e6e9abd38e83a7b3cd47e588d57f1e01f41941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:41 +0000
Subject: [PATCH 87/94] fix: do not throw exceptions through OpenJPEG

An exception thrown from the error callback skips the clean-up in
OpenJPEG's own functions.  Note the first error and throw when it has
returned.
---
 src/j2k_transcode.cc | 52 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 586a2ab..a316fd6 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -113,17 +113,34 @@ read_free_function (void* data)
 }
 
 
+/** Note an error so that we can throw an exception once OpenJPEG has returned; we must not
+ *  throw from here as OpenJPEG would then not free the things that it has allocated.
+ */
 static void
-decompress_error_callback (char const * msg, void *)
+error_callback(char const* msg, void* data)
 {
-	throw J2KDecompressionError (msg);
+	auto error = reinterpret_cast<string*>(data);
+	if (error->empty()) {
+		*error = msg;
+	}
 }
 
 
 static void
-compress_error_callback (char const * msg, void *)
+check_decompress(string const& error)
 {
-	throw MiscError (msg);
+	if (!error.empty()) {
+		throw J2KDecompressionError(error);
+	}
+}
+
+
+static void
+check_compress(string const& error)
+{
+	if (!error.empty()) {
+		throw MiscError(error);
+	}
 }
 
 
@@ -164,7 +181,8 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	}
 	ScopeGuard sg_stream([stream]() { opj_stream_destroy(stream); });
 
-	opj_set_error_handler(decoder, decompress_error_callback, 00);
+	string error;
+	opj_set_error_handler(decoder, error_callback, &error);
 
 	opj_stream_set_read_function (stream, read_function);
 	auto buffer = new ReadBuffer (data, size);
@@ -173,8 +191,11 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 
 	opj_image_t* image = 0;
 	ScopeGuard sg_image([&image]() { opj_image_destroy(image); });
-	opj_read_header (stream, decoder, &image);
-	if (opj_decode (decoder, stream, image) == OPJ_FALSE) {
+	bool const read_header = opj_read_header(stream, decoder, &image);
+	check_decompress(error);
+	bool const decoded = read_header && opj_decode(decoder, stream, image);
+	check_decompress(error);
+	if (!decoded) {
 		if (format == OPJ_CODEC_J2K) {
 			boost::throw_exception (ReadError (String::compose ("could not decode JPEG2000 codestream of %1 bytes.", size)));
 		} else {
@@ -268,7 +289,8 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 		throw MiscError("compress_j2k comment can not be an empty string");
 	}
 
-	opj_set_error_handler (encoder, compress_error_callback, 0);
+	string error;
+	opj_set_error_handler(encoder, error_callback, &error);
 
 	/* Set encoding parameters to default values */
 	opj_cparameters_t parameters;
@@ -295,11 +317,13 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 
 	/* Setup the encoder parameters using the current image and user parameters */
 	opj_setup_encoder (encoder, &parameters, xyz->opj_image());
+	check_compress(error);
 
 #ifndef LIBDCP_HAVE_NUMGBITS
 	string numgbits = String::compose("GUARD_BITS=%1", fourk ? 2 : 1);
 	char const* extra_options[] = { numgbits.c_str(), nullptr };
 	opj_encoder_set_extra_options(encoder, extra_options);
+	check_compress(error);
 #endif
 
 	auto stream = opj_stream_default_create (OPJ_FALSE);
@@ -313,7 +337,9 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 	WriteBuffer* buffer = new WriteBuffer ();
 	opj_stream_set_user_data (stream, buffer, write_free_function);
 
-	if (!opj_start_compress (encoder, xyz->opj_image(), stream)) {
+	bool const started = opj_start_compress(encoder, xyz->opj_image(), stream);
+	check_compress(error);
+	if (!started) {
 		if ((errno & 0x61500) == 0x61500) {
 			/* We've had one of the magic error codes from our patched openjpeg */
 			boost::throw_exception (StartCompressionError (errno & 0xff));
@@ -322,11 +348,15 @@ dcp::compress_j2k (shared_ptr<const OpenJPEGImage> xyz, int bandwidth, int frame
 		}
 	}
 
-	if (!opj_encode (encoder, stream)) {
+	bool const encoded = opj_encode(encoder, stream);
+	check_compress(error);
+	if (!encoded) {
 		throw MiscError ("JPEG2000 encoding failed");
 	}
 
-	if (!opj_end_compress (encoder, stream)) {
+	bool const ended = opj_end_compress(encoder, stream);
+	check_compress(error);
+	if (!ended) {
 		throw MiscError ("could not end JPEG2000 encoding");
 	}
 
-- 
2.43.0


From b093c9a0811f21e56218d1b81a4e9234a152e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:22:11 +0000
Subject: [PATCH 88/94] fix: free the certificate when there is unexpected data
 after it

---
 src/certificate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/certificate.cc b/src/certificate.cc
index 409ca06..adda2d1 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -77,6 +77,8 @@ Certificate::Certificate (string cert)
 {
 	auto const s = read_string (cert);
 	if (!s.empty()) {
+		/* Our destructor will not be called */
+		X509_free(_certificate);
 		throw MiscError ("unexpected data after certificate");
 	}
 }
-- 
2.43.0


From 51b0aa493e5f576333aeb01431f7e0fa9020d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:43:49 +0000
Subject: [PATCH 89/94] fix: refuse to make KDMs with malformed key types, ids,
 dates or keys

They were copied without a check into a block of fixed size on the
stack, or left parts of it unset.
---
 src/decrypted_kdm.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index 3cb81b8..6f76710 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -74,8 +74,9 @@ static uint8_t smpte_structure_id[] = { 0xf1, 0xdc, 0x12, 0x44, 0x60, 0x16, 0x9a
 
 
 static void
-put (uint8_t ** d, string s)
+put (uint8_t ** d, string s, size_t length)
 {
+	DCP_ASSERT(s.length() == length);
         memcpy (*d, s.c_str(), s.length());
         (*d) += s.length();
 }
@@ -94,6 +95,9 @@ DecryptedKDM::put_uuid (uint8_t ** d, string id)
 {
 	/* 32 hex digits plus some hyphens */
 	DCP_ASSERT (id.length() == 36);
+	for (int i = 0; i < 36; ++i) {
+		DCP_ASSERT((i == 8 || i == 13 || i == 18 || i == 23) ? (id[i] == '-') : isxdigit(static_cast<unsigned char>(id[i])));
+	}
 #ifdef LIBDCP_WINDOWS
 	__mingw_sscanf (
 #else
@@ -367,10 +371,11 @@ DecryptedKDM::encrypt (
 		p += 20;
 
 		put_uuid (&p, i.cpl_id ());
-		put (&p, i.type().get());
+		put (&p, i.type().get(), 4);
 		put_uuid (&p, i.id ());
-		put (&p, _not_valid_before.as_string ());
-		put (&p, _not_valid_after.as_string ());
+		put (&p, _not_valid_before.as_string (), 25);
+		put (&p, _not_valid_after.as_string (), 25);
+		DCP_ASSERT(i.key().length() == static_cast<int>(ASDCP::KeyLen));
 		put (&p, i.key().value(), ASDCP::KeyLen);
 
 		/* Encrypt using the projector's public key */
-- 
2.43.0


From 7bfe5854110331bf82c9e7d6d8d63cd0288dc9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:55:40 +0000
Subject: [PATCH 90/94] fix: expect the standard layout of COC markers when
 verifying pictures

The wavelet transform after the code block style was not read, and the
levels of 4K pictures were expected to be those of 2K ones, so any
picture with a correct COC marker was reported as invalid.
---
 src/verify_j2k.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 49bca86..c2dd465 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -297,16 +297,20 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 					throw InvalidCodestream(String::compose("invalid COC component number %1", coc_component_number));
 				}
 				require_8(1, "invalid coding style %1");
-				require_8(5, "invalid number of transform levels %1");
+				require_8(fourk ? 6 : 5, "invalid number of transform levels %1");
 				require_8(3, "invalid code block width exponent %1");
 				require_8(3, "invalid code block height exponent %1");
 				require_8(0, "invalid mode variations");
+				require_8(0, "invalid wavelet transform type %1"); // 9/7 irreversible
 				require_8(0x77, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
+				if (fourk) {
+					require_8(0x88, "invalid precinct size %1");
+				}
 			} else if (*marker_name == "TLM") {
 				auto const len = get_16();
 				ptr += len - 2;
-- 
2.43.0


From 6399c5a9bba2a57ba6468b9d7d46ef185f60046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:09:43 +0000
Subject: [PATCH 91/94] fix: make dcpkdm describe each of the KDMs it is given

It described the first one as many times as there were KDMs.
---
 tools/dcpkdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dcpkdm.cc b/tools/dcpkdm.cc
index c2a4859..facdaef 100644
--- a/tools/dcpkdm.cc
+++ b/tools/dcpkdm.cc
@@ -94,7 +94,7 @@ try
 
 	for (int kdm_index = optind; kdm_index < argc; ++kdm_index) {
 
-		boost::filesystem::path kdm_file = argv[optind];
+		boost::filesystem::path kdm_file = argv[kdm_index];
 
 		dcp::EncryptedKDM enc_kdm (dcp::file_to_string (kdm_file));
 
-- 
2.43.0


From a337c0fd7b392996f76d64c3264e9330a597f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:09:43 +0000
Subject: [PATCH 92/94] fix: do not let dcprecover give up at XML files which
 are not CPLs

A VOLINDEX or PKL stopped it with an uncaught exception.  Also report
failure if there is no CPL.
---
 tools/dcprecover.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/dcprecover.cc b/tools/dcprecover.cc
index 779cab6..7af8b07 100644
--- a/tools/dcprecover.cc
+++ b/tools/dcprecover.cc
@@ -123,15 +123,16 @@ main (int argc, char* argv[])
 		if (i.path().extension() == ".xml") {
 			try {
 				cpl = make_shared<dcp::CPL>(i.path());
-			} catch (dcp::ReadError& e) {
-				cout << "Error: " << e.what() << "\n";
-			} catch (xmlpp::parse_error& e) {
+			} catch (std::exception& e) {
 				cout << "Error: " << e.what() << "\n";
 			}
 		}
 	}
 
-	if (cpl) {
+	if (!cpl) {
+		cerr << "No CPL found.\n";
+		exit(EXIT_FAILURE);
+	} else {
 		cout << "Got a CPL!\n";
 
 		if (!output) {
-- 
2.43.0


From 3fec97a01e01e70e007c92b7705fa45ac3ec5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:09:43 +0000
Subject: [PATCH 93/94] fix: keep dcpdumpsub's fonts in the working directory
 and check that they are written

A font's ID comes from the MXF and could be a path to anywhere.
---
 tools/dcpdumpsub.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/dcpdumpsub.cc b/tools/dcpdumpsub.cc
index 14d1ed5..c58a2ff 100644
--- a/tools/dcpdumpsub.cc
+++ b/tools/dcpdumpsub.cc
@@ -134,12 +134,14 @@ main (int argc, char* argv[])
 
 	if (extract_fonts) {
 		for (auto const& i: sub.font_data()) {
-			dcp::File f(i.first + ".ttf", "wb");
+			auto const name = boost::filesystem::path(i.first).filename().string() + ".ttf";
+			dcp::File f(name, "wb");
 			if (!f) {
-				cerr << "Could not open font file " << i.first << ".ttf for writing";
+				cerr << "Could not open font file " << name << " for writing";
 				exit (EXIT_FAILURE);
 			}
-			f.write(i.second.data(), 1, i.second.size());
+			f.checked_write(i.second.data(), i.second.size());
+			f.checked_close();
 		}
 	}
 }
-- 
2.43.0


From c4870316a0f0d9f29ba9665e63c9eb25314bab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:04:50 +0000
Subject: [PATCH 94/94] fix: dcpinfo's total time with reels at different
 rates.

Adding times with different timecode rates multiplies the rates, so after a few
reels at another rate than the first the product did not fit into an int.
---
 tools/dcpinfo.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/dcpinfo.cc b/tools/dcpinfo.cc
index 61782c1..5ad47d2 100644
--- a/tools/dcpinfo.cc
+++ b/tools/dcpinfo.cc
@@ -408,7 +408,9 @@ main (int argc, char* argv[])
 			}
 
 			try {
-				total_time += main_picture(only, j, picture, decompress);
+				auto const time = main_picture(only, j, picture, decompress);
+				/* Count in the higher rate, as the product of all rates (which adding gives) can get too big */
+				total_time = (total_time + time).rebase(max(total_time.tcr, time.tcr));
 			} catch (UnresolvedRefError& e) {
 				if (!ignore_missing_assets) {
 					cerr << e.what() << " (for main picture)\n";
-- 
2.43.0

