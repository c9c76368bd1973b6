From 721f1024a0218943fd6db2361663c963e050cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:49 +0000
Subject: [PATCH 001/100] fix: compare minutes in UTC in LocalTime::operator<

The minute branch compared our minute in UTC with the other time's
local minute, so ordering was wrong for times whose offsets are not
whole hours.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From 35162499a6478321a573df6e59b5a53b2cfc1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:49 +0000
Subject: [PATCH 002/100] fix: write the sign of UTC offsets between -00:59 and
 -00:01

The sign was taken from the hours only, so -00:30 was written as +00:30.
---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..74ec756 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -200,7 +200,7 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	if (with_timezone) {
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", ((_offset.hour() >= 0 && _offset.minute() >= 0) ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From d953b263a61c82ffa805bf61f435da0626537a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:49 +0000
Subject: [PATCH 003/100] fix: take account of the UTC offset in
 LocalTime::as_time_t

A time_t counts seconds since the epoch in UTC, but the local time was
returned as if it were UTC.
---
 src/local_time.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 74ec756..4b00112 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -425,6 +425,7 @@ LocalTime::as_time_t() const
 	DCP_ASSERT(_year >= 1970);
 
 	auto const since_epoch = boost::gregorian::date(_year, _month, _day) - boost::gregorian::date(1970, boost::gregorian::Jan, 1);
-	return ((((static_cast<time_t>(since_epoch.days()) * 24) + _hour) * 60) + _minute) * 60 + _second;
+	auto const local = ((((static_cast<time_t>(since_epoch.days()) * 24) + _hour) * 60) + _minute) * 60 + _second;
+	return local - (_offset.hour() * 60 + _offset.minute()) * 60;
 }
 
-- 
2.43.0


From 9c5dc750398c092d32b8cd88c98cf5e5297768ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:49 +0000
Subject: [PATCH 004/100] fix: read the fraction and zone of a LocalTime
 correctly

A fraction with fewer than three digits was taken as that number of
milliseconds (so .5 meant 5ms), a fraction followed by Z failed, text
after Z was ignored, the : in the offset was not checked, and anything
other than digits in a number escaped as bad_lexical_cast rather than
TimeFormatError.
---
 src/local_time.cc | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 4b00112..d9d305d 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -139,42 +139,49 @@ LocalTime::LocalTime (string s)
 		throw TimeFormatError(s);
 	}
 
-	_year = lexical_cast<int>(s.substr(0, 4));
-	_month = lexical_cast<int>(s.substr(5, 2));
-	_day = lexical_cast<int>(s.substr(8, 2));
-	_hour = lexical_cast<int>(s.substr(11, 2));
-	_minute = lexical_cast<int>(s.substr(14, 2));
-	_second = lexical_cast<int>(s.substr(17, 2));
+	auto number = [&s](size_t position, size_t length) {
+		auto const digits = s.substr(position, length);
+		if (digits.empty() || digits.find_first_not_of("0123456789") != string::npos) {
+			throw TimeFormatError(s);
+		}
+		return lexical_cast<int>(digits);
+	};
+
+	_year = number(0, 4);
+	_month = number(5, 2);
+	_day = number(8, 2);
+	_hour = number(11, 2);
+	_minute = number(14, 2);
+	_second = number(17, 2);
 
 	size_t pos = 19;
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
-		if (end == std::string::npos) {
-			end = s.length();
+		auto const end = std::min(s.find_first_not_of("0123456789", pos + 1), s.length());
+		auto const length = std::min(static_cast<size_t>(3), end - pos - 1);
+		_millisecond = number(pos + 1, length);
+		for (auto i = length; i < 3; ++i) {
+			_millisecond *= 10;
 		}
-		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
 		pos = end;
 	} else {
 		_millisecond = 0;
 	}
 
 	/* Timezone */
-	if (pos != s.length() && s[pos] != 'Z') {
+	if (s.substr(pos) != "" && s.substr(pos) != "Z") {
 		if (s[pos] != '+' && s[pos] != '-') {
 			throw TimeFormatError(s);
 		}
-		if ((s.length() - pos) != 6) {
+		if ((s.length() - pos) != 6 || s[pos + 3] != ':') {
 			throw TimeFormatError(s);
 		}
 
-		_offset.set_hour(lexical_cast<int>(s.substr(pos + 1, 2)));
-		_offset.set_minute(lexical_cast<int>(s.substr(pos + 4, 2)));
+		auto const hour = number(pos + 1, 2);
+		auto const minute = number(pos + 4, 2);
+		_offset.set_hour(hour);
+		_offset.set_minute(minute);
 
 		if (s[pos] == '-') {
 			_offset.set_hour(-_offset.hour());
-- 
2.43.0


From 4b77be3607ddffd526ae5ab13436e59fcb00672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:34 +0000
Subject: [PATCH 005/100] fix: allow the UTC offsets +13:00, +14:00 and -12:00

These are in use (in New Zealand in summer, for example) but reading a
time with one of them gave a programming error.
---
 src/utc_offset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utc_offset.cc b/src/utc_offset.cc
index 8d4870d..a5a4cc2 100644
--- a/src/utc_offset.cc
+++ b/src/utc_offset.cc
@@ -42,7 +42,7 @@ using namespace dcp;
 void
 UTCOffset::set_hour(int hour)
 {
-	DCP_ASSERT(hour >= -11 && hour <= 12);
+	DCP_ASSERT(hour >= -12 && hour <= 14);
 	_hour = hour;
 }
 
-- 
2.43.0


From 3b5e1303865f373d661d0333f2c5a794c1262435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:41 +0000
Subject: [PATCH 006/100] fix: use the right S-Log3 curve in tables of
 SGamut3TransferFunction

The inverse changed from its linear to its logarithmic part at
0.01125 / 1023 rather than 0.01125, so it was not the inverse of the
forward function for dark values.  Tables for part of the range used
the index rather than the value that it stands for.
---
 src/s_gamut3_transfer_function.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..bbe4e57 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -57,7 +57,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 		for (int i = 0; i < bit_length; ++i) {
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
-			if (q >= (0.01125 / 1023)) {
+			if (q >= 0.01125) {
 				lut[i] = (420 + log10((q + 0.01) / (0.18 + 0.01)) * 261.5) / 1023;
 			} else {
 				lut[i] = (q * (171.2102946929 - 95) / 0.01125000 + 95) / 1023;
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From eb15d377e0c21d153ad3fd4d60aa86f2c1cd186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:10 +0000
Subject: [PATCH 007/100] fix: make File's move assignment work when both files
 are open

*this != other compared the two as bools, so when both were open (or
both closed) nothing was moved.  The path was not taken either.
---
 src/file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index cb7088b..27b0a7b 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,8 +82,9 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From 0e9a090424ef453f92e9a16f6a19921cb95b5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:10 +0000
Subject: [PATCH 008/100] fix: keep a ScopeGuard cancelled when it is moved

The new guard ran the function although cancel() had been called.
---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From 8a95189abf75ee915e2193cf727cc9f44be8ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:10 +0000
Subject: [PATCH 009/100] fix: keep the root in weakly_canonical() when ..
 would go above it

The parent of / was taken to be empty, so /../foo became the relative
path foo.
---
 src/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 4cbbc3d..466ff15 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -160,7 +160,7 @@ dcp::filesystem::weakly_canonical(boost::filesystem::path const& path)
 			boost::system::error_code ec;
 			if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {
 				result /= part;
-			} else {
+			} else if (result != result.root_path()) {
 				result = result.parent_path();
 			}
 		} else if (part != ".") {
-- 
2.43.0


From 3ba7609c577c6b4ee3f964359ffd084903df72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:10 +0000
Subject: [PATCH 010/100] fix: notice errors when Data::write() flushes and
 closes its file

Data small enough to be buffered was written only when the file was
closed, and a failure then (a full disk, say) was ignored.
write_via_temp() would then replace a good file with a short one.
---
 src/data.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data.cc b/src/data.cc
index a26d4d1..c4348e4 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -57,6 +57,11 @@ Data::write (boost::filesystem::path file) const
 	if (f.write(data(), 1, size()) != size_t(size())) {
 		throw FileError ("could not write to file", file, errno);
 	}
+
+	/* Errors in writing anything that was buffered are only seen when the file is closed */
+	if (fclose(f.take()) != 0) {
+		throw FileError ("could not write to file", file, errno);
+	}
 }
 
 
-- 
2.43.0


From 7e136d924d45f9bf4be6b816fdb67e93c9530d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:05 +0000
Subject: [PATCH 011/100] fix: make LocalTime() safe to use from several
 threads

It used localtime(), which returns a pointer to a buffer shared by all
threads, so two threads asking for the time at once could get a mixture.
---
 src/local_time.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d9d305d..167560c 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -56,8 +56,9 @@ using namespace dcp;
 LocalTime::LocalTime ()
 {
 	auto now = time (0);
-	auto tm = localtime (&now);
-	set (tm);
+	/* localtime() returns a pointer to something that other threads may change */
+	struct tm tm;
+	set (boost::date_time::c_time::localtime(&now, &tm));
 	set_local_time_zone ();
 }
 
-- 
2.43.0


From 8b308a1504bbe340aff62fa45acbd2fc4d6d1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:06 +0000
Subject: [PATCH 012/100] fix: give new CPLs a valid issuer and creator

The default values were made from the two ends of a range that was not
a range, so creating a CPL read past the end of a string constant.
---
 src/cpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cac3c2e..9a1ab3e 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -94,8 +94,8 @@ auto constexpr profile_tag = "DCP Constraints Profile";
 
 CPL::CPL(string annotation_text, ContentKind content_kind, Standard standard, Profile profile)
 	/* default _content_title_text to annotation_text */
-	: _issuer("libdcp", dcp::version)
-	, _creator("libdcp", dcp::version)
+	: _issuer(string("libdcp") + dcp::version)
+	, _creator(string("libdcp") + dcp::version)
 	, _issue_date(LocalTime().as_string())
 	, _annotation_text(annotation_text)
 	, _content_title_text(annotation_text)
-- 
2.43.0


From 45400887c620672f7c8234604b2a3cac1bb0ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:26 +0000
Subject: [PATCH 013/100] fix: carry editable units that round up to a whole
 second in Time

---
 src/dcp_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 75986ae..040a6f5 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -82,6 +82,10 @@ Time::set (double seconds, int tcr_)
 	tcr = tcr_;
 
 	e = int (round ((seconds - s) * tcr));
+	if (e >= tcr) {
+		e -= tcr;
+		++s;
+	}
 
 	if (s >= 60) {
 		m = s / 60;
-- 
2.43.0


From 2184bd413ab4238488cd7f1e7396551037497c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:26 +0000
Subject: [PATCH 014/100] fix: take account of seconds and editable units when
 dividing Times

---
 src/dcp_time.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index 040a6f5..ac53e7c 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -326,9 +326,7 @@ dcp::operator- (Time a, Time b)
 float
 dcp::operator/ (Time a, Time const & b)
 {
-	int64_t const at = a.h * 3600 + a.m * 60 + a.s * float (a.e) / a.tcr;
-	int64_t const bt = b.h * 3600 + b.m * 60 + b.s * float (b.e) / b.tcr;
-	return float (at) / bt;
+	return a.as_seconds() / b.as_seconds();
 }
 
 
-- 
2.43.0


From 2b2f10e2fa2fa86f3513d852e319837cc4b66039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:40 +0000
Subject: [PATCH 015/100] fix: compare Times with large timecode rates without
 overflow

---
 src/dcp_time.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dcp_time.cc b/src/dcp_time.cc
index ac53e7c..ee6c7ff 100644
--- a/src/dcp_time.cc
+++ b/src/dcp_time.cc
@@ -176,7 +176,7 @@ Time::Time (string time, optional<int> tcr_)
 bool
 dcp::operator== (Time const & a, Time const & b)
 {
-	return (a.h == b.h && a.m == b.m && a.s == b.s && (a.e * b.tcr) == (b.e * a.tcr));
+	return (a.h == b.h && a.m == b.m && a.s == b.s && (int64_t(a.e) * b.tcr) == (int64_t(b.e) * a.tcr));
 }
 
 
@@ -216,7 +216,7 @@ dcp::operator< (Time const & a, Time const & b)
 		return a.s < b.s;
 	}
 
-	return (a.e * b.tcr) < (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) < (int64_t(b.e) * a.tcr);
 }
 
 
@@ -235,7 +235,7 @@ dcp::operator> (Time const & a, Time const & b)
 		return a.s > b.s;
 	}
 
-	return (a.e * b.tcr) > (b.e * a.tcr);
+	return (int64_t(a.e) * b.tcr) > (int64_t(b.e) * a.tcr);
 }
 
 
-- 
2.43.0


From 6209cfb22562a56836eebbe1e6bdd888f7fdcf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:59 +0000
Subject: [PATCH 016/100] fix: refuse language tags which repeat a variant or
 extended subtag

---
 src/language_tag.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/language_tag.cc b/src/language_tag.cc
index 227620b..6d53ae3 100644
--- a/src/language_tag.cc
+++ b/src/language_tag.cc
@@ -124,7 +124,7 @@ LanguageTag::LanguageTag (string tag)
 
 	try {
 		while (true) {
-			_variants.push_back (VariantSubtag(parts[p]));
+			add_variant(VariantSubtag(parts[p]));
 			++p;
 			if (p == parts.size()) {
 				return;
@@ -134,7 +134,7 @@ LanguageTag::LanguageTag (string tag)
 
 	try {
 		while (true) {
-			_extlangs.push_back (ExtlangSubtag(parts[p]));
+			add_extlang(ExtlangSubtag(parts[p]));
 			++p;
 			if (p == parts.size()) {
 				return;
-- 
2.43.0


From cfb3b3ce1dfec0281e211a41993561943c7507e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:16 +0000
Subject: [PATCH 017/100] fix: count empty arguments when composing strings

An argument which was an empty string was taken to be absent, so those
after it were put in the wrong places.
---
 src/compose.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/compose.hpp b/src/compose.hpp
index 41a4075..e354b93 100644
--- a/src/compose.hpp
+++ b/src/compose.hpp
@@ -122,18 +122,16 @@ namespace StringPrivate
   {
     os += dcp::locale_convert<std::string> (obj);
 
-    if (!os.empty()) {		// manipulators don't produce output
-      for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
-	output_list::iterator pos = i->second;
-	++pos;
+    for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
+      output_list::iterator pos = i->second;
+      ++pos;
 
-	output.insert(pos, os);
-      }
-
-      os = "";
-      ++arg_no;
+      output.insert(pos, os);
     }
 
+    os = "";
+    ++arg_no;
+
     return *this;
   }
 
-- 
2.43.0


From 7897f99b53d4c9415cb249c7de0232b07cc0c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:16 +0000
Subject: [PATCH 018/100] fix: convert large unsigned characters and shorts to
 strings properly

---
 src/locale_convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locale_convert.cc b/src/locale_convert.cc
index 2c7c74e..053d444 100644
--- a/src/locale_convert.cc
+++ b/src/locale_convert.cc
@@ -51,7 +51,7 @@ string
 dcp::locale_convert (unsigned char x, int, bool)
 {
 	char buffer[64];
-	snprintf (buffer, sizeof(buffer), "%hhd", x);
+	snprintf (buffer, sizeof(buffer), "%hhu", x);
 	return buffer;
 }
 
@@ -61,7 +61,7 @@ string
 dcp::locale_convert (unsigned short int x, int, bool)
 {
 	char buffer[64];
-	snprintf (buffer, sizeof(buffer), "%hd", x);
+	snprintf (buffer, sizeof(buffer), "%hu", x);
 	return buffer;
 }
 
-- 
2.43.0


From 2da7e1cc34f7660ff3b1d426cd32e6c9fb3f7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:31 +0000
Subject: [PATCH 019/100] fix: write luminances accurately enough to read them
 back

Values of 1000 or more were also written with an exponent, which is not
allowed in xs:decimal.
---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index 3b79be2..fea42f0 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -365,7 +365,7 @@ Luminance::as_xml (xmlpp::Element* parent, string ns) const
 {
 	auto lum = cxml::add_child(parent, "Luminance", ns);
 	lum->set_attribute("units", unit_to_string(_unit));
-	lum->add_child_text(fmt::format("{:.3}", _value));
+	lum->add_child_text(fmt::format("{:.6}", _value));
 }
 
 
-- 
2.43.0


From 5f15774a5a133f5b9e3cec68997b017c3c654319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:31 +0000
Subject: [PATCH 020/100] fix: compare large Fractions without overflow

---
 src/types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.cc b/src/types.cc
index fea42f0..de1fb6f 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -115,7 +115,7 @@ dcp::operator< (Fraction const& a, Fraction const& b)
 {
 	DCP_ASSERT(a.denominator > 0);
 	DCP_ASSERT(b.denominator > 0);
-	return a.numerator * b.denominator < b.numerator * a.denominator;
+	return int64_t(a.numerator) * b.denominator < int64_t(b.numerator) * a.denominator;
 }
 
 
-- 
2.43.0


From 6acfe5bb09d977e2652e8ec53f72a547f08a60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:41 +0000
Subject: [PATCH 021/100] fix: allow changes to sound configurations with other
 fields or Lc and Rc

They can be read, but setting a channel in one was a programming error.
---
 src/main_sound_configuration.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main_sound_configuration.cc b/src/main_sound_configuration.cc
index 0d93311..a37e4c0 100644
--- a/src/main_sound_configuration.cc
+++ b/src/main_sound_configuration.cc
@@ -115,8 +115,10 @@ MainSoundConfiguration::update_string()
 	case MCASoundField::SEVEN_POINT_ONE:
 		_configuration = "71/";
 		break;
-	default:
-		DCP_ASSERT(false);
+	case MCASoundField::OTHER:
+		/* We don't know its name, so keep the one we were given */
+		_configuration = _configuration.substr(0, _configuration.find('/')) + "/";
+		break;
 	}
 
 	for (auto i: _channels) {
@@ -216,6 +218,10 @@ dcp::channel_to_mca_id(Channel c, MCASoundField field)
 		return "HI";
 	case Channel::VI:
 		return "VIN";
+	case Channel::LC:
+		return "Lc";
+	case Channel::RC:
+		return "Rc";
 	case Channel::BSL:
 		return "Lrs";
 	case Channel::BSR:
-- 
2.43.0


From cd992ba0ec164b4839e27228457e910ae9368a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 022/100] fix: include open captions and closed subtitles when
 seeing what is encrypted in a Reel

---
 src/reel.cc | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index 95ed58f..d3076b4 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -295,40 +295,16 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 bool
 Reel::any_encrypted () const
 {
-	auto ecc = false;
-	for (auto i: _closed_captions) {
-		if (i->encrypted()) {
-			ecc = true;
-		}
-	}
-
-	return (
-		(_main_picture && _main_picture->encrypted()) ||
-		(_main_sound && _main_sound->encrypted()) ||
-		(_main_subtitle && _main_subtitle->encrypted()) ||
-		ecc ||
-		(_atmos && _atmos->encrypted())
-		);
+	auto assets = file_assets();
+	return std::any_of(assets.begin(), assets.end(), [](shared_ptr<const ReelFileAsset> asset) { return asset->encrypted(); });
 }
 
 
 bool
 Reel::all_encrypted () const
 {
-	auto ecc = true;
-	for (auto i: _closed_captions) {
-		if (!i->encrypted()) {
-			ecc = false;
-		}
-	}
-
-	return (
-		(!_main_picture || _main_picture->encrypted()) &&
-		(!_main_sound || _main_sound->encrypted()) &&
-		(!_main_subtitle || _main_subtitle->encrypted()) &&
-		ecc &&
-		(!_atmos || _atmos->encrypted())
-	       );
+	auto assets = file_assets();
+	return std::all_of(assets.begin(), assets.end(), [](shared_ptr<const ReelFileAsset> asset) { return asset->encrypted(); });
 }
 
 
-- 
2.43.0


From 1e7433432e116ca6594ff944e5330c8f0b39903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 023/100] fix: give keys to open captions and closed subtitles
 in a Reel

---
 src/reel.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index d3076b4..b8a0a4f 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -330,13 +330,7 @@ Reel::give_kdm_to_assets (DecryptedKDM const & kdm)
 		if (_main_sound && i.id() == _main_sound->key_id() && _main_sound->asset_ref().resolved()) {
 			_main_sound->asset()->set_key (i.key());
 		}
-		if (_main_subtitle) {
-			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(_main_subtitle);
-			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
-				smpte->smpte_asset()->set_key(i.key());
-			}
-		}
-		for (auto j: _closed_captions) {
+		for (auto j: file_assets()) {
 			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
 			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
 				smpte->smpte_asset()->set_key(i.key());
-- 
2.43.0


From ed4b998682e727abfca7b5bbd5858e40de25308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 024/100] fix: compare open captions and closed subtitles of
 Reels

---
 src/reel.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index b8a0a4f..44221c4 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -265,18 +265,31 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
-	if (_closed_captions.size() != other->_closed_captions.size()) {
+	if ((_main_caption && !other->_main_caption) || (!_main_caption && other->_main_caption)) {
+		note(NoteType::ERROR, "Reel: caption assets differ");
 		return false;
 	}
 
-	auto i = _closed_captions.begin();
-	auto j = other->_closed_captions.begin();
-	while (i != _closed_captions.end()) {
-		if (!(*i)->equals(*j, opt, note)) {
+	if (_main_caption && !_main_caption->equals(other->_main_caption, opt, note)) {
+		return false;
+	}
+
+	auto text_equals = [&opt, &note](vector<shared_ptr<ReelTextAsset>> const& a, vector<shared_ptr<ReelTextAsset>> const& b) {
+		if (a.size() != b.size()) {
 			return false;
 		}
-		++i;
-		++j;
+
+		for (size_t i = 0; i < a.size(); ++i) {
+			if (!a[i]->equals(b[i], opt, note)) {
+				return false;
+			}
+		}
+
+		return true;
+	};
+
+	if (!text_equals(_closed_subtitles, other->_closed_subtitles) || !text_equals(_closed_captions, other->_closed_captions)) {
+		return false;
 	}
 
 	if ((_atmos && !other->_atmos) || (!_atmos && other->_atmos)) {
-- 
2.43.0


From b9b877fecbf54bb8600cdbd5456ebebfd1355e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 025/100] fix: keep the scope of the release territory when
 writing a CPL

---
 src/cpl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index 9a1ab3e..cd67a84 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -507,7 +507,11 @@ CPL::maybe_write_composition_metadata_asset(xmlpp::Element* node) const
 	}
 
 	if (_release_territory) {
-		cxml::add_child(meta, "ReleaseTerritory", string("meta"))->add_child_text(*_release_territory);
+		auto territory = cxml::add_child(meta, "ReleaseTerritory", string("meta"));
+		territory->add_child_text(*_release_territory);
+		if (_release_territory_scope) {
+			territory->set_attribute("scope", *_release_territory_scope);
+		}
 	}
 
 	if (_version_number) {
-- 
2.43.0


From a531220dd36efb3a26209a47f00da48c4115dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 026/100] fix: find the first subtitle language in a CPL in the
 same way when reading as when writing

---
 src/cpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cd67a84..5b5eba4 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -354,13 +354,13 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 
 		/* If the first language on SubtitleLanguageList is the same as the language of the first subtitle we'll ignore it */
 		size_t first = 0;
-		if (!_reels.empty()) {
-			auto sub = _reels.front()->main_subtitle();
-			if (sub) {
-				auto lang = sub->language();
-				if (lang && lang == sll_split[0]) {
+		for (auto reel: _reels) {
+			auto sub = reel->main_subtitle();
+			if (sub && sub->language()) {
+				if (sub->language() == sll_split[0]) {
 					first = 1;
 				}
+				break;
 			}
 		}
 
-- 
2.43.0


From 71e5f9e69fdc722d324b9d6a9a51b53041f01c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:54 +0000
Subject: [PATCH 027/100] fix: write open captions and closed subtitles in the
 namespaces of SMPTE 429-12

Closed subtitles were written as if they were defined in the CPL schema,
and so were the languages of open captions.
---
 src/reel_smpte_text_asset.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reel_smpte_text_asset.cc b/src/reel_smpte_text_asset.cc
index 23b52c8..eb0a646 100644
--- a/src/reel_smpte_text_asset.cc
+++ b/src/reel_smpte_text_asset.cc
@@ -77,7 +77,7 @@ ReelSMPTETextAsset::cpl_node_name() const
 	case TextType::OPEN_CAPTION:
 		return "tt:MainCaption";
 	case TextType::CLOSED_SUBTITLE:
-		return "ClosedSubtitle";
+		return "tt:ClosedSubtitle";
 	case TextType::CLOSED_CAPTION:
 		return "tt:ClosedCaption";
 	}
@@ -92,9 +92,9 @@ ReelSMPTETextAsset::cpl_node_namespace() const
 {
 	switch (_type) {
 	case TextType::OPEN_SUBTITLE:
-	case TextType::CLOSED_SUBTITLE:
 		return {};
 	case TextType::OPEN_CAPTION:
+	case TextType::CLOSED_SUBTITLE:
 	case TextType::CLOSED_CAPTION:
 		return make_pair("http://www.smpte-ra.org/schemas/429-12/2008/TT", "tt");
 	}
@@ -108,7 +108,7 @@ xmlpp::Element *
 ReelSMPTETextAsset::write_to_cpl(xmlpp::Element* node, Standard standard) const
 {
 	auto asset = ReelFileAsset::write_to_cpl (node, standard);
-	string const ns = _type == TextType::CLOSED_CAPTION ? "tt" : "";
+	string const ns = (_type == TextType::OPEN_CAPTION || _type == TextType::CLOSED_CAPTION) ? "tt" : "";
 	if (_language) {
 		cxml::add_child(asset, "Language", ns)->add_child_text(*_language);
 	}
-- 
2.43.0


From bae63a22d996af5ea9b22e1b09ddb2c9027f8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 028/100] fix: forget the old hash of a text asset when it is
 written

If the hash had been computed, or taken from a CPL or PKL, it was kept
when the asset was changed and written, so the next CPL and PKL to be
written had a hash which was not that of the file.
---
 src/interop_text_asset.cc | 2 +-
 src/smpte_text_asset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index d789194..0106ef0 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -204,7 +204,7 @@ InteropTextAsset::write(boost::filesystem::path p) const
 	/* length() here gives bytes not characters */
 	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
 
-	_file = p;
+	set_file(p);
 
 	/* Image subtitles */
 	for (auto i: _texts) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 36fe544..52cf492 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -500,7 +500,7 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 
 	writer.Finalize ();
 
-	_file = p;
+	set_file(p);
 }
 
 bool
-- 
2.43.0


From 6ba99cbffe7efaf3902652af9c9ad5f9b913c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:32 +0000
Subject: [PATCH 029/100] fix: include Interop CPLs in CPL summaries

The type in an Interop PKL has parameters, which were not removed before
comparing it, so no Interop CPL was found.
---
 src/dcp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dcp.cc b/src/dcp.cc
index 23b4ad4..4757e40 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -666,6 +666,9 @@ DCP::cpl_summaries() const
 			continue;
 		}
 
+		/* Remove any optional parameters (after ;) */
+		pkl_type = remove_parameters(*pkl_type);
+
 		if (
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::INTEROP)) ||
 			pkl_type == remove_parameters(CPL::static_pkl_type(Standard::SMPTE))) {
-- 
2.43.0


From 4d3e3cfe54d22f516c6741ff0ed8232ee1461b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:39 +0000
Subject: [PATCH 030/100] fix: describe the images of Interop subtitles
 properly in PKLs

The original file name was that of the DCP's directory, and images which
are not inside the DCP were added to the PKL but not to the ASSETMAP.
---
 src/interop_text_asset.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 0106ef0..8c6cf0b 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -302,8 +302,13 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 	for (auto i: _texts) {
 		auto im = dynamic_pointer_cast<dcp::TextImage>(i);
 		if (im) {
+			DCP_ASSERT(im->file());
+			if (!relative_to_root(filesystem::canonical(root), filesystem::canonical(im->file().get()))) {
+				/* As with other assets, this must be a reference to something outside our DCP */
+				continue;
+			}
 			auto png_image = im->png_image ();
-			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
+			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", im->file()->filename().string());
 		}
 	}
 }
-- 
2.43.0


From 38326a7cab771393adb963f332a9e79bce12a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:51 +0000
Subject: [PATCH 031/100] fix: list fonts which several Interop subtitle assets
 share only once

They were put in the PKL and ASSETMAP once for each subtitle asset.
---
 src/dcp.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dcp.cc b/src/dcp.cc
index 4757e40..dfcd6fe 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -559,14 +559,22 @@ DCP::assets (bool ignore_unresolved) const
 				continue;
 			}
 
-			auto const id = j->asset_ref().id();
-			if (std::find_if(assets.begin(), assets.end(), [id](shared_ptr<Asset> asset) { return asset->id() == id; }) == assets.end()) {
+			auto have = [&assets](string id) {
+				return std::find_if(assets.begin(), assets.end(), [id](shared_ptr<Asset> asset) { return asset->id() == id; }) != assets.end();
+			};
+
+			if (!have(j->asset_ref().id())) {
 				auto o = j->asset_ref().asset();
 				assets.push_back (o);
 				/* More Interop special-casing */
 				auto sub = dynamic_pointer_cast<InteropTextAsset>(o);
 				if (sub) {
-					add_to_container(assets, sub->font_assets());
+					/* A font may be used by several subtitle assets */
+					for (auto font: sub->font_assets()) {
+						if (!have(font->id())) {
+							assets.push_back(font);
+						}
+					}
 				}
 			}
 		}
-- 
2.43.0


From b4320b4deecdd6dd2f9096dab8c3fb027e052e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:37 +0000
Subject: [PATCH 032/100] fix: make room for the new value when a key is
 assigned from a longer one

---
 src/key.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index f11f632..56d416f 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -99,8 +99,11 @@ Key::operator= (Key const & other)
 		return *this;
 	}
 
+	auto value = new uint8_t[other._length];
+	memcpy (value, other._value, other._length);
+	delete[] _value;
+	_value = value;
 	_length = other._length;
-	memcpy (_value, other._value, _length);
 	return *this;
 }
 
-- 
2.43.0


From 55bc4c079ae708e3566aca346fb8a9e5b7b1148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:37 +0000
Subject: [PATCH 033/100] fix: decrypt KDMs which were made for keys of more
 than 2048 bits

---
 src/decrypted_kdm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c8daeba..3c985cd 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -160,12 +160,12 @@ DecryptedKDM::DecryptedKDM (EncryptedKDM const & kdm, string private_key)
 
 	for (auto const& i: kdm.keys()) {
 		/* Decode the base-64-encoded cipher value from the KDM */
-		unsigned char cipher_value[256];
-		int const cipher_value_len = base64_decode (i, cipher_value, sizeof (cipher_value));
+		vector<unsigned char> cipher_value(i.length());
+		int const cipher_value_len = std::max(0, base64_decode(i, cipher_value.data(), cipher_value.size()));
 
 		/* Decrypt it */
 		auto decrypted = new unsigned char[RSA_size(rsa)];
-		int const decrypted_len = RSA_private_decrypt (cipher_value_len, cipher_value, decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
+		int const decrypted_len = RSA_private_decrypt (cipher_value_len, cipher_value.data(), decrypted, rsa, RSA_PKCS1_OAEP_PADDING);
 		if (decrypted_len == -1) {
 			delete[] decrypted;
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
-- 
2.43.0


From b0a7c8923f1b6f78bbbc38a90644ae6f493c0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:37 +0000
Subject: [PATCH 034/100] fix: keep a KDM's ContentAuthenticator when it is
 read from XML

---
 src/encrypted_kdm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 23cbb0b..f0e066b 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -398,6 +398,7 @@ public:
 	explicit KDMRequiredExtensions (shared_ptr<const cxml::Node> node)
 		: recipient (node->node_child ("Recipient"))
 		, composition_playlist_id (remove_urn_uuid (node->string_child ("CompositionPlaylistId")))
+		, content_authenticator (node->optional_string_child ("ContentAuthenticator"))
 		, content_title_text (node->string_child ("ContentTitleText"))
 		, not_valid_before (node->string_child ("ContentKeysNotValidBefore"))
 		, not_valid_after (node->string_child ("ContentKeysNotValidAfter"))
-- 
2.43.0


From 6a9a03f02d59eddba8c4daa67abb84c923f25511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:37 +0000
Subject: [PATCH 035/100] fix: leave unencrypted assets out of a KDM which is
 made for a whole CPL

---
 src/decrypted_kdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index 3c985cd..6ffb6a5 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -307,7 +307,7 @@ DecryptedKDM::DecryptedKDM (
 	/* Create DecryptedKDMKey objects for each encryptable asset */
 	bool did_one = false;
 	for (auto i: cpl->reel_file_assets()) {
-		if (i->encryptable()) {
+		if (i->encryptable() && i->encrypted()) {
 			add_key (i->key_type().get(), i->key_id().get(), key, cpl->id(), Standard::SMPTE);
 			did_one = true;
 		}
-- 
2.43.0


From fefc21aec3d50c57470e5153c695e126b07e550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:37 +0000
Subject: [PATCH 036/100] fix: refuse to put key types which are not four
 characters long into KDMs

---
 src/decrypted_kdm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index 6ffb6a5..945444b 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -358,6 +358,7 @@ DecryptedKDM::encrypt (
 	for (auto const& i: _keys) {
 		/* We're making SMPTE keys so we must have a type for each one */
 		DCP_ASSERT (i.type());
+		DCP_ASSERT (i.type()->length() == 4);
 		key_ids.push_back (make_pair (i.type().get(), i.id ()));
 
 		/* XXX: SMPTE only */
-- 
2.43.0


From f8ed8cab87fdee163b2342ea0e55c7d6c33deb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:37 +0000
Subject: [PATCH 037/100] fix: take digests of public keys of any size

---
 src/certificate_chain.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index d54d8fb..733d0a2 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -127,9 +127,13 @@ string
 dcp::public_key_digest(RSA* public_key)
 {
 	/* Convert public key to DER (binary) format */
-	unsigned char buffer[512];
-	unsigned char* buffer_ptr = buffer;
-	auto length = i2d_RSA_PUBKEY(public_key, &buffer_ptr);
+	auto length = i2d_RSA_PUBKEY(public_key, nullptr);
+	if (length < 0) {
+		throw MiscError("Could not convert public key to DER");
+	}
+	std::vector<unsigned char> buffer(length);
+	unsigned char* buffer_ptr = buffer.data();
+	length = i2d_RSA_PUBKEY(public_key, &buffer_ptr);
 	if (length < 0) {
 		throw MiscError("Could not convert public key to DER");
 	}
@@ -141,7 +145,7 @@ dcp::public_key_digest(RSA* public_key)
 		throw dcp::MiscError ("could not init SHA1 context");
 	}
 
-	if (!SHA1_Update(&context, buffer + 24, length - 24)) {
+	if (!SHA1_Update(&context, buffer.data() + 24, length - 24)) {
 		throw dcp::MiscError ("could not update SHA1 digest");
 	}
 
-- 
2.43.0


From 6edbc4c40aa8e84314598633b0b330ad39714ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:28 +0000
Subject: [PATCH 038/100] fix: find thumbprints of certificates of any size

---
 src/certificate.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/certificate.cc b/src/certificate.cc
index a11e85b..afc4a39 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -430,17 +430,15 @@ Certificate::thumbprint () const
 {
 	DCP_ASSERT (_certificate);
 
-	uint8_t buffer[8192];
-	uint8_t* p = buffer;
+	uint8_t* buffer = nullptr;
 
 #if OPENSSL_VERSION_NUMBER > 0x10100000L
-	i2d_re_X509_tbs(_certificate, &p);
+	auto const length = i2d_re_X509_tbs(_certificate, &buffer);
 #else
-	i2d_X509_CINF (_certificate->cert_info, &p);
+	auto const length = i2d_X509_CINF(_certificate->cert_info, &buffer);
 #endif
-	unsigned int const length = p - buffer;
-	if (length > sizeof (buffer)) {
-		throw MiscError ("buffer too small to generate thumbprint");
+	if (length < 0) {
+		throw MiscError ("could not generate thumbprint");
 	}
 
 	SHA_CTX sha;
@@ -449,6 +447,8 @@ Certificate::thumbprint () const
 	uint8_t digest[20];
 	SHA1_Final (digest, &sha);
 
+	OPENSSL_free(buffer);
+
 	char digest_base64[64];
 	return Kumu::base64encode (digest, 20, digest_base64, 64);
 }
-- 
2.43.0


From 14511b078bb245128b5fb02c08eee6845277d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:28 +0000
Subject: [PATCH 039/100] fix: go back to the original directory when a
 certificate chain cannot be made

---
 src/certificate_chain.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 733d0a2..9ae2862 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -223,6 +223,16 @@ CertificateChain::CertificateChain (
 	 */
 	boost::filesystem::current_path(directory);
 
+	/* Go back and tidy up even if something fails.
+	 * Use boost:: rather than dcp:: here so we don't force UNC into the current path if it
+	 * wasn't there before.
+	 */
+	dcp::ScopeGuard sg([cwd, directory]() {
+		boost::system::error_code ec;
+		boost::filesystem::current_path(cwd, ec);
+		filesystem::remove_all(directory, ec);
+	});
+
 	string quoted_openssl = "\"" + openssl.string() + "\"";
 
 	command (quoted_openssl + " genrsa -out ca.key 2048");
@@ -341,18 +351,11 @@ CertificateChain::CertificateChain (
 			)
 		);
 
-	/* Use boost:: rather than dcp:: here so we don't force UNC into the current path if it
-	 * wasn't there before.
-	 */
-	boost::filesystem::current_path(cwd);
-
 	_certificates.push_back (dcp::Certificate(dcp::file_to_string(directory / "ca.self-signed.pem")));
 	_certificates.push_back (dcp::Certificate(dcp::file_to_string(directory / "intermediate.signed.pem")));
 	_certificates.push_back (dcp::Certificate(dcp::file_to_string(directory / "leaf.signed.pem")));
 
 	_key = dcp::file_to_string (directory / "leaf.key");
-
-	filesystem::remove_all(directory);
 }
 
 
-- 
2.43.0


From d7c649a5f2f35f01320338c4839007f245a21f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:45 +0000
Subject: [PATCH 040/100] fix: remove the right certificate by its place in the
 chain

---
 src/certificate_chain.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index 9ae2862..051729d 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -429,14 +429,15 @@ CertificateChain::remove (Certificate c)
 void
 CertificateChain::remove (int i)
 {
-	auto j = _certificates.begin ();
-        while (j != _certificates.end () && i > 0) {
-		--i;
-		++j;
+	auto certificates = _certificates;
+	try {
+		certificates = root_to_leaf();
+	} catch (CertificateChainError&) {
+		/* They are not in any order, so just use the one that they were added in */
 	}
 
-	if (j != _certificates.end ()) {
-		_certificates.erase (j);
+	if (i >= 0 && i < static_cast<int>(certificates.size())) {
+		remove(certificates[i]);
 	}
 }
 
-- 
2.43.0


From 8c1634a09f9b3e2d7d94a30480aaf9a732421ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:16:15 +0000
Subject: [PATCH 041/100] fix: cope with empty names in certificates

---
 src/certificate.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/certificate.cc b/src/certificate.cc
index afc4a39..fe61c53 100644
--- a/src/certificate.cc
+++ b/src/certificate.cc
@@ -306,16 +306,12 @@ Certificate::name_for_xml (X509_NAME* name)
 	}
 
 	X509_NAME_print_ex (bio, name, 0, XN_FLAG_RFC2253);
-	int n = BIO_pending (bio);
-	char* result = new char[n + 1];
-	n = BIO_read (bio, result, n);
-	result[n] = '\0';
+	char* result;
+	auto const length = BIO_get_mem_data(bio, &result);
+	string const s(result, length);
 
 	BIO_free (bio);
 
-	string s = result;
-	delete[] result;
-
 	return s;
 }
 
-- 
2.43.0


From 1cf565c8bd7841ce64abda854c514284b60d4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:24 +0000
Subject: [PATCH 042/100] fix: escape attributes when writing subtitle XML

---
 src/text_asset.cc | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index d690a27..6a24c04 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -951,16 +951,33 @@ struct State
 }
 
 
+static
+string
+escape_xml(string content)
+{
+	boost::replace_all(content, "&", "&amp;");
+	boost::replace_all(content, "<", "&lt;");
+	boost::replace_all(content, ">", "&gt;");
+	return content;
+}
+
+
+static
+string
+format_xml_attribute(xmlpp::Attribute const* attribute)
+{
+	auto value = escape_xml(attribute->get_value().raw());
+	boost::replace_all(value, "\"", "&quot;");
+	return " " + attribute->get_name().raw() + "=\"" + value + "\"";
+}
+
+
 static
 void
 format_xml_node (xmlpp::Node const* node, State& state)
 {
 	if (auto text_node = dynamic_cast<const xmlpp::TextNode*>(node)) {
-		string content = text_node->get_content();
-		boost::replace_all(content, "&", "&amp;");
-		boost::replace_all(content, "<", "&lt;");
-		boost::replace_all(content, ">", "&gt;");
-		state.xml += content;
+		state.xml += escape_xml(text_node->get_content());
 	} else if (auto element = dynamic_cast<const xmlpp::Element*>(node)) {
 		++state.indent;
 
@@ -978,7 +995,7 @@ format_xml_node (xmlpp::Node const* node, State& state)
 		state.xml += "<" + element->get_name();
 
 		for (auto attribute: element->get_attributes()) {
-			state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+			state.xml += format_xml_attribute(attribute);
 		}
 
 		if (children.empty()) {
@@ -1035,7 +1052,7 @@ TextAsset::format_xml(xmlpp::Document const& document, optional<pair<string, str
 	}
 
 	for (auto attribute: root->get_attributes()) {
-		state.xml += String::compose(" %1=\"%2\"", attribute->get_name().raw(), attribute->get_value().raw());
+		state.xml += format_xml_attribute(attribute);
 	}
 
 	state.xml += ">";
-- 
2.43.0


From 4694d77ad6f5091be5c7c4667ed259f7af054e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:24 +0000
Subject: [PATCH 043/100] fix: accept spaces which are inside fonts in
 subtitles

---
 src/text_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 6a24c04..9f10dd9 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -387,7 +387,10 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		auto const e = dynamic_cast<xmlpp::Element const *>(i);
 		if (e) {
 			if (e->get_name() == "Space") {
-				if (node->get_name() != "Text") {
+				auto is_text = [](ParseState const& ps) {
+					return ps.type && *ps.type == ParseState::Type::TEXT;
+				};
+				if (std::none_of(state.begin(), state.end(), is_text)) {
 					throw XMLError ("Space node found outside Text");
 				}
 				auto size = optional_string_attribute(e, "Size").get_value_or("0.5");
-- 
2.43.0


From c0d3b962b3f330f3888066f094274fa13379c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:58 +0000
Subject: [PATCH 044/100] fix: keep bold text bold when there is a font inside
 another which does not say its weight

---
 src/text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 9f10dd9..ce5a2a5 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -146,7 +146,9 @@ TextAsset::font_node_state(xmlpp::Element const * node, Standard standard) const
 	ps.size = optional_number_attribute<int64_t> (node, "Size");
 	ps.aspect_adjust = optional_number_attribute<float> (node, "AspectAdjust");
 	ps.italic = optional_bool_attribute (node, "Italic");
-	ps.bold = optional_string_attribute(node, "Weight").get_value_or("normal") == "bold";
+	if (auto weight = optional_string_attribute(node, "Weight")) {
+		ps.bold = *weight == "bold";
+	}
 	if (standard == Standard::INTEROP) {
 		ps.underline = optional_bool_attribute (node, "Underlined");
 	} else {
-- 
2.43.0


From 1e22c6e507beb68ac09c60430d510c90e221b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:17 +0000
Subject: [PATCH 045/100] fix: read and write SMPTE subtitles which use an
 image more than once

---
 src/smpte_text_asset.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 52cf492..c7753f8 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -58,6 +58,7 @@ LIBDCP_DISABLE_WARNINGS
 LIBDCP_ENABLE_WARNINGS
 #include <fmt/format.h>
 #include <boost/algorithm/string.hpp>
+#include <algorithm>
 
 
 using std::string;
@@ -263,13 +264,12 @@ SMPTETextAsset::read_mxf_resources(shared_ptr<ASDCP::TimedText::MXFReader> reade
 		}
 		case ASDCP::TimedText::MT_PNG:
 		{
-			auto j = _texts.begin();
-			while (j != _texts.end() && ((!dynamic_pointer_cast<TextImage>(*j)) || dynamic_pointer_cast<TextImage>(*j)->id() != id)) {
-				++j;
-			}
-
-			if (j != _texts.end()) {
-				dynamic_pointer_cast<TextImage>(*j)->set_png_image(ArrayData(buffer.RoData(), buffer.Size()));
+			/* The same image may be used more than once */
+			for (auto j: _texts) {
+				auto image = dynamic_pointer_cast<TextImage>(j);
+				if (image && image->id() == id) {
+					image->set_png_image(ArrayData(buffer.RoData(), buffer.Size()));
+				}
 			}
 			break;
 		}
@@ -428,11 +428,13 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 		}
 	}
 
-	/* Image subtitle references */
+	/* Image subtitle references, once for each image */
 
+	vector<shared_ptr<TextImage>> images;
 	for (auto i: _texts) {
 		auto si = dynamic_pointer_cast<TextImage>(i);
-		if (si) {
+		if (si && std::none_of(images.begin(), images.end(), [si](shared_ptr<TextImage> image) { return image->id() == si->id(); })) {
+			images.push_back(si);
 			ASDCP::TimedText::TimedTextResourceDescriptor res;
 			unsigned int c;
 			Kumu::hex2bin (si->id().c_str(), res.ResourceID, Kumu::UUID_Length, &c);
@@ -486,15 +488,13 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 
 	/* Image subtitle payload */
 
-	for (auto i: _texts) {
-		if (auto si = dynamic_pointer_cast<TextImage>(i)) {
-			ASDCP::TimedText::FrameBuffer buffer;
-			buffer.SetData (si->png_image().data(), si->png_image().size());
-			buffer.Size (si->png_image().size());
-			r = writer.WriteAncillaryResource (buffer, enc.context(), enc.hmac());
-			if (ASDCP_FAILURE(r)) {
-				throw_from_asdcplib(r, p, MXFFileError("could not write PNG data to timed text resource", p.string(), r));
-			}
+	for (auto si: images) {
+		ASDCP::TimedText::FrameBuffer buffer;
+		buffer.SetData (si->png_image().data(), si->png_image().size());
+		buffer.Size (si->png_image().size());
+		r = writer.WriteAncillaryResource (buffer, enc.context(), enc.hmac());
+		if (ASDCP_FAILURE(r)) {
+			throw_from_asdcplib(r, p, MXFFileError("could not write PNG data to timed text resource", p.string(), r));
 		}
 	}
 
-- 
2.43.0


From 6d2166288beb347c80e60193c6cdc123e98b7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:41 +0000
Subject: [PATCH 046/100] fix: understand fade times of a second or more which
 are given as a number of ticks

---
 src/text_asset.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index ce5a2a5..44ff6a1 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -277,7 +277,8 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 	} else if (u.find (":") != string::npos) {
 		t = Time (u, tcr);
 	} else {
-		t = Time (0, 0, 0, lexical_cast<int> (u), tcr.get_value_or(250));
+		auto const rate = tcr.get_value_or(250);
+		t = Time(lexical_cast<int>(u), rate, rate);
 	}
 
 	if (t > Time (0, 0, 8, 0, 250)) {
-- 
2.43.0


From 9d4e9c43ab1c53154618ee966f52cf4e332bc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:57 +0000
Subject: [PATCH 047/100] fix: compare variable Z positions of image subtitles

---
 src/text_image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text_image.cc b/src/text_image.cc
index 119a630..26c96a6 100644
--- a/src/text_image.cc
+++ b/src/text_image.cc
@@ -124,6 +124,7 @@ dcp::operator==(TextImage const & a, TextImage const & b)
 		a.v_position() == b.v_position() &&
 		a.v_align() == b.v_align() &&
 		a.z_position() == b.z_position() &&
+		a.variable_z_positions() == b.variable_z_positions() &&
 		a.fade_up_time() == b.fade_up_time() &&
 		a.fade_down_time() == b.fade_down_time()
 		);
-- 
2.43.0


From a0aa70d84a6f9b581c2b0712626a462cc4bb0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:07 +0000
Subject: [PATCH 048/100] fix: notice fonts which only the second of two
 subtitle assets has when comparing them

---
 src/interop_text_asset.cc | 5 +++++
 src/smpte_text_asset.cc   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 8c6cf0b..832829f 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -172,6 +172,11 @@ InteropTextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions co
 			++i;
 			++j;
 		}
+
+		if (j != other->_load_font_nodes.end()) {
+			note (NoteType::ERROR, "<LoadFont> nodes differ");
+			return false;
+		}
 	}
 
 	if (_movie_title != other->_movie_title) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index c7753f8..1efdd8d 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -534,6 +534,11 @@ SMPTETextAsset::equals(shared_ptr<const Asset> other_asset, EqualityOptions cons
 		++j;
 	}
 
+	if (j != other->_load_font_nodes.end()) {
+		note (NoteType::ERROR, "<LoadFont> nodes differ");
+		return false;
+	}
+
 	if (_content_title_text != other->_content_title_text) {
 		note (NoteType::ERROR, "Subtitle/caption content title texts differ");
 		return false;
-- 
2.43.0


From 3151adc7757d60f4c0f171434566790f27f3ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:14 +0000
Subject: [PATCH 049/100] fix: do not take comments in subtitle XML to be text

---
 src/text_asset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text_asset.cc b/src/text_asset.cc
index 44ff6a1..8ee643c 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -315,7 +315,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 		string all_content;
 		for (auto child: element->get_children()) {
 			auto content = dynamic_cast<xmlpp::ContentNode const*>(child);
-			if (content) {
+			if (content && !dynamic_cast<xmlpp::CommentNode const*>(child)) {
 				all_content += content->get_content();
 			}
 		}
@@ -381,7 +381,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 
 		/* Handle actual content e.g. text */
 		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
-		if (v) {
+		if (v && !dynamic_cast<xmlpp::CommentNode const *>(i)) {
 			maybe_add_text(v->get_content(), state, space_before, standard, rubies);
 			space_before = 0;
 		}
-- 
2.43.0


From 22a999d4f41e8fbdf68089ba050861bfb12f53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:14 +0000
Subject: [PATCH 050/100] fix: clip integer samples to the largest 24-bit value

A sample of 2^23 or more was clipped to 2^23, which does not fit in 24
bits and was written as the most negative value instead.
---
 src/sound_asset_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_asset_writer.h b/src/sound_asset_writer.h
index ee3c932..4b3df10 100644
--- a/src/sound_asset_writer.h
+++ b/src/sound_asset_writer.h
@@ -62,7 +62,7 @@ template <>
 inline int32_t convert(int32_t x)
 {
 	int constexpr clip = (1 << 23);
-	return std::max(-clip, std::min(clip, x));
+	return std::max(-clip, std::min(clip - 1, x));
 }
 
 template<>
-- 
2.43.0


From 03e5251a48412aa6b8208ef7ef377d3200fe0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:14 +0000
Subject: [PATCH 051/100] fix: put the right part of the ID in each Atmos sync
 packet

Each packet says which quarter of the ID it carries.  When there are fewer
than four packets in a frame (at 48fps and above) the quarter was chosen by
the packet's place in the frame, so that some quarters were never sent and
others were given in the wrong place.
---
 src/sound_asset_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 0c04e77..4834d54 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -357,10 +357,10 @@ SoundAssetWriter::create_sync_packets ()
 		bs.write_from_byte (edit_rate_code, 4);
 		bs.write_from_byte (0, 2);
 		bs.write_from_byte (_sync_packet, 2);
-		bs.write_from_byte (id.Value()[i * 4 + 0]);
-		bs.write_from_byte (id.Value()[i * 4 + 1]);
-		bs.write_from_byte (id.Value()[i * 4 + 2]);
-		bs.write_from_byte (id.Value()[i * 4 + 3]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 0]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 1]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 2]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 3]);
 		bs.write_from_word (_frames_written, 24);
 		bs.write_crc ();
 		bs.write_from_byte (0, 4);
-- 
2.43.0


From d9d13a408d35f4f2ecf29e1285b897a2eb986265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:14 +0000
Subject: [PATCH 052/100] fix: refuse to write Atmos sync at an edit rate that
 it cannot have

With other edit rates there were no sync packets to take bits from, and
memory outside the list was read.
---
 src/sound_asset_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 4834d54..731c3f3 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -343,6 +343,8 @@ SoundAssetWriter::create_sync_packets ()
 		edit_rate_code = 8;
 		remaining_bits = 0;
 		packets = 1;
+	} else {
+		throw MiscError("Unsupported edit rate for ATMOS sync");
 	}
 
 	Bitstream bs;
-- 
2.43.0


From 61427ceacb4801f4b366cd573fe7b2d14c54d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:14 +0000
Subject: [PATCH 053/100] fix: keep the sign of samples read from 16-bit sound
 assets

---
 src/sound_frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sound_frame.cc b/src/sound_frame.cc
index 4d90c9c..6260351 100644
--- a/src/sound_frame.cc
+++ b/src/sound_frame.cc
@@ -70,7 +70,7 @@ SoundFrame::get (int channel, int frame) const
 	case 16:
 	{
 		uint8_t const * d = data() + (frame * _channels * 2) + (channel * 2);
-		return d[0] | (d[1] << 8);
+		return static_cast<int16_t>(d[0] | (d[1] << 8));
 	}
 	default:
 		DCP_ASSERT(false);
-- 
2.43.0


From 6b5902359c138608353afc5832996bb59f2a1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:14 +0000
Subject: [PATCH 054/100] fix: do not fail when comparing sound with some other
 kind of asset

---
 src/sound_asset.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sound_asset.cc b/src/sound_asset.cc
index 614f616..06fed22 100644
--- a/src/sound_asset.cc
+++ b/src/sound_asset.cc
@@ -140,6 +140,11 @@ SoundAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, No
 		return true;
 	}
 
+	auto other_sound = dynamic_pointer_cast<const SoundAsset> (other);
+	if (!other_sound) {
+		return false;
+	}
+
 	Kumu::FileReaderFactory factory;
 	ASDCP::PCM::MXFReader reader_A(factory);
 	DCP_ASSERT (file());
@@ -207,8 +212,6 @@ SoundAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, No
 		/* XXX */
 	}
 
-	auto other_sound = dynamic_pointer_cast<const SoundAsset> (other);
-
 	auto reader = start_read ();
 	auto other_reader = other_sound->start_read ();
 
-- 
2.43.0


From 16c21eda653f9f832c91cc7c146543223695e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:05 +0000
Subject: [PATCH 055/100] fix: keep the fractions when summing squared
 deviations of pictures

They were added to an integer, so the standard deviation compared with
max_std_dev_pixel_error came out too small.
---
 src/j2k_picture_asset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index 9879225..e9049ba 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -177,7 +177,7 @@ J2KPictureAsset::frame_buffer_equals (
 
 	double const mean = double (total) / abs_diffs.size ();
 
-	uint64_t total_squared_deviation = 0;
+	double total_squared_deviation = 0;
 	for (auto j: abs_diffs) {
 		total_squared_deviation += pow (j - mean, 2);
 	}
-- 
2.43.0


From fb27bb390ca09810eb5171dfb647d0fa882f3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:05 +0000
Subject: [PATCH 056/100] fix: say that pictures of different lengths are
 different

A picture asset was equal to a longer one which starts with the same
frames, but not the other way round.
---
 src/j2k_picture_asset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/j2k_picture_asset.cc b/src/j2k_picture_asset.cc
index e9049ba..f4bfb11 100644
--- a/src/j2k_picture_asset.cc
+++ b/src/j2k_picture_asset.cc
@@ -121,6 +121,7 @@ J2KPictureAsset::descriptor_equals (
 
 	if (a.ContainerDuration != b.ContainerDuration) {
 		note (NoteType::ERROR, "video container durations differ");
+		return false;
 	}
 
 //		for (unsigned int j = 0; j < ASDCP::JP2K::MaxComponents; ++j) {
-- 
2.43.0


From 6115e6c22939f06301b79ad54b342280186646d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:05 +0000
Subject: [PATCH 057/100] fix: compare a 3D picture with another kind of asset

This threw an exception rather than returning false, which is what
comparing a 2D picture with something else does.
---
 src/stereo_j2k_picture_asset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stereo_j2k_picture_asset.cc b/src/stereo_j2k_picture_asset.cc
index d403ed4..f3609b2 100644
--- a/src/stereo_j2k_picture_asset.cc
+++ b/src/stereo_j2k_picture_asset.cc
@@ -106,6 +106,10 @@ StereoJ2KPictureAsset::start_read () const
 bool
 StereoJ2KPictureAsset::equals(shared_ptr<const Asset> other, EqualityOptions const& opt, NoteHandler note) const
 {
+	if (!dynamic_pointer_cast<const StereoJ2KPictureAsset>(other)) {
+		return false;
+	}
+
 	Kumu::FileReaderFactory factory;
 	ASDCP::JP2K::MXFSReader reader_A(factory);
 	DCP_ASSERT (file());
-- 
2.43.0


From f46a624068272cdfdd3e2b5a782f4a774be213c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:08 +0000
Subject: [PATCH 058/100] fix: give reduced JPEG2000 pictures the size that
 their contents have

The decoder rounds sizes up.  The size given was rounded to nearest, so
the rows of some pictures were read from the wrong places.
---
 src/j2k_transcode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 664d18a..a249d49 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -179,8 +179,8 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	opj_destroy_codec (decoder);
 	opj_stream_destroy (stream);
 
-	image->x1 = rint (float(image->x1) / pow (2.0f, reduce));
-	image->y1 = rint (float(image->y1) / pow (2.0f, reduce));
+	image->x1 = image->comps[0].w;
+	image->y1 = image->comps[0].h;
 	return std::make_shared<OpenJPEGImage>(image);
 }
 
-- 
2.43.0


From 0d41bd2c6ed3c98fa0e2e11b384f1c4db9c0b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:09 +0000
Subject: [PATCH 059/100] fix: refuse JPEG2000 pictures which do not have three
 whole components

A picture with another number of components was reported as a
programming error, and one with components of different sizes, or with
no data, was read outside its memory.
---
 src/j2k_transcode.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index a249d49..9d1531a 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -179,6 +179,15 @@ dcp::decompress_j2k (uint8_t const * data, int64_t size, int reduce)
 	opj_destroy_codec (decoder);
 	opj_stream_destroy (stream);
 
+	bool usable = image->numcomps == 3;
+	for (unsigned int i = 0; usable && i < image->numcomps; ++i) {
+		usable = image->comps[i].data && image->comps[i].w == image->comps[0].w && image->comps[i].h == image->comps[0].h;
+	}
+	if (!usable) {
+		opj_image_destroy (image);
+		boost::throw_exception(ReadError("JPEG2000 picture does not have three components of the same size"));
+	}
+
 	image->x1 = image->comps[0].w;
 	image->y1 = image->comps[0].h;
 	return std::make_shared<OpenJPEGImage>(image);
-- 
2.43.0


From c5352e7dc223e8efb19792c3aa4d3c218ff4b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:09 +0000
Subject: [PATCH 060/100] fix: copy pictures which have no colour profile

This passed a null pointer to memcpy().
---
 src/openjpeg_image.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/openjpeg_image.cc b/src/openjpeg_image.cc
index c963d2b..6026ea6 100644
--- a/src/openjpeg_image.cc
+++ b/src/openjpeg_image.cc
@@ -59,20 +59,21 @@ OpenJPEGImage::OpenJPEGImage (OpenJPEGImage const & other)
 	DCP_ASSERT (_opj_image);
 	memcpy (_opj_image, other._opj_image, sizeof (opj_image_t));
 
-	int const data_size = _opj_image->x1 * _opj_image->y1 * 4;
-
 	_opj_image->comps = reinterpret_cast<opj_image_comp_t*> (malloc (_opj_image->numcomps * sizeof (opj_image_comp_t)));
 	DCP_ASSERT (_opj_image->comps);
 	memcpy (_opj_image->comps, other._opj_image->comps, _opj_image->numcomps * sizeof (opj_image_comp_t));
 	for (unsigned int i = 0; i < _opj_image->numcomps; ++i) {
+		int const data_size = _opj_image->comps[i].w * _opj_image->comps[i].h * 4;
 		_opj_image->comps[i].data = reinterpret_cast<OPJ_INT32*> (malloc (data_size));
 		DCP_ASSERT (_opj_image->comps[i].data);
 		memcpy (_opj_image->comps[i].data, other._opj_image->comps[i].data, data_size);
 	}
 
-	_opj_image->icc_profile_buf = reinterpret_cast<OPJ_BYTE*> (malloc (_opj_image->icc_profile_len));
-	DCP_ASSERT (_opj_image->icc_profile_buf);
-	memcpy (_opj_image->icc_profile_buf, other._opj_image->icc_profile_buf, _opj_image->icc_profile_len);
+	if (other._opj_image->icc_profile_buf) {
+		_opj_image->icc_profile_buf = reinterpret_cast<OPJ_BYTE*> (malloc (_opj_image->icc_profile_len));
+		DCP_ASSERT (_opj_image->icc_profile_buf);
+		memcpy (_opj_image->icc_profile_buf, other._opj_image->icc_profile_buf, _opj_image->icc_profile_len);
+	}
 }
 
 
-- 
2.43.0


From 9bb95bedeec41597c3ac4531dd1ccd2b65bc022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:55 +0000
Subject: [PATCH 061/100] fix: do not wait for ever for the rest of a truncated
 JPEG2000 picture

At the end of the data libopenjpeg was given nothing, rather than being
told that there is no more, so it asked again.
---
 src/j2k_transcode.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/j2k_transcode.cc b/src/j2k_transcode.cc
index 9d1531a..3bbd0ad 100644
--- a/src/j2k_transcode.cc
+++ b/src/j2k_transcode.cc
@@ -81,6 +81,11 @@ public:
 
 	OPJ_SIZE_T read (void* buffer, OPJ_SIZE_T nb_bytes)
 	{
+		if (_offset == _size) {
+			/* This is how libopenjpeg wants to be told about the end of the data */
+			return -1;
+		}
+
 		int64_t N = min (nb_bytes, _size - _offset);
 		memcpy (buffer, _data + _offset, N);
 		_offset += N;
-- 
2.43.0


From 18e64b9447aae4e9c16f5be94dc62b201433b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 062/100] fix: verify a DCP whose later reels have fewer closed
 captions than its first

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 1ead5c0..f31b8f4 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1300,7 +1300,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 	for (auto i = 0U; i < reels[0]->closed_captions().size(); ++i) {
 		verify_text_details(context, reels, reels[0]->closed_captions()[i]->edit_rate().numerator,
 			[i](shared_ptr<Reel> reel) {
-				return reel->closed_captions()[i]->id();
+				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
 				return i < reel->closed_captions().size();
-- 
2.43.0


From da8ee2b812d04b9425fc99e0e4e84c7e832a7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 063/100] fix: verify a DCP with missing or external subtitles
 or closed captions

---
 src/verify.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index f31b8f4..9806eda 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1129,6 +1129,9 @@ verify_closed_caption_details(Context& context, vector<shared_ptr<Reel>> reels)
 		context.reel_index = reel_index;
 		dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 		for (auto ccap: reel->closed_captions()) {
+			if (!ccap->asset_ref().resolved()) {
+				continue;
+			}
 			auto reel_xml = ccap->asset()->raw_xml();
 			if (!reel_xml) {
 				context.add_note(VerificationNote::Code::MISSED_CHECK_OF_ENCRYPTED);
@@ -1283,7 +1286,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return reel->main_subtitle() ? reel->main_subtitle()->id() : string{};
 			},
 			[](shared_ptr<Reel> reel) {
-				return static_cast<bool>(reel->main_subtitle());
+				return reel->main_subtitle() && reel->main_subtitle()->asset_ref().resolved();
 			},
 			[](shared_ptr<Reel> reel) {
 				return reel->main_subtitle()->asset()->raw_xml();
@@ -1303,7 +1306,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
-				return i < reel->closed_captions().size();
+				return i < reel->closed_captions().size() && reel->closed_captions()[i]->asset_ref().resolved();
 			},
 			[i](shared_ptr<Reel> reel) {
 				return reel->closed_captions()[i]->asset()->raw_xml();
@@ -1770,7 +1773,7 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 			context.reel_index = reel_index;
 			dcp::ScopeGuard sg = [&context]() { context.reel_index = boost::none; };
 			for (auto i: reel->closed_captions()) {
-				if (i->asset()) {
+				if (i->asset_ref().resolved()) {
 					verify_text_lines_and_characters(i->asset(), 32, 32, &result);
 				}
 			}
-- 
2.43.0


From 2a3b646d94baa17ee1b1f3531459e79fd72c0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 064/100] fix: forget subtitles which have ended when counting
 lines and characters

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 9806eda..5595744 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1251,7 +1251,7 @@ dcp::verify_text_lines_and_characters(
 			 */
 			if (iter != current.end()) {
 				DCP_ASSERT (current.find(i->start->position) != current.end());
-				auto current_position = current[i->start->position];
+				auto& current_position = current[i->start->position];
 				auto iter = std::find(current_position.begin(), current_position.end(), i->start);
 				if (iter != current_position.end()) {
 					current_position.erase(iter);
-- 
2.43.0


From c79d3e7af32474b151d8e0ba9cfc20114230750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 065/100] fix: look for the title of a packing list's own CPL
 when there are several CPLs

---
 src/verify.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 5595744..a5ea65f 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1619,20 +1619,20 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 
 		/* Check that any PKL with a single CPL has its AnnotationText the same as the CPL's ContentTitleText */
 		optional<string> required_annotation_text;
+		int cpls_in_pkl = 0;
 		for (auto j: i->assets()) {
 			/* See if this is a CPL */
 			for (auto k: context.dcp->cpls()) {
 				if (j->id() == k->id()) {
-					if (!required_annotation_text) {
-						/* First CPL we have found; this is the required AnnotationText unless we find another */
-						required_annotation_text = cpl->content_title_text();
-					} else {
-						/* There's more than one CPL so we don't care what the PKL's AnnotationText is */
-						required_annotation_text = boost::none;
-					}
+					++cpls_in_pkl;
+					required_annotation_text = k->content_title_text();
 				}
 			}
 		}
+		if (cpls_in_pkl > 1) {
+			/* There's more than one CPL so we don't care what the PKL's AnnotationText is */
+			required_annotation_text = boost::none;
+		}
 
 		if (required_annotation_text && i->annotation_text() != required_annotation_text) {
 			context.add_note(VerificationNote(VerificationNote::Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, i->file().get()).set_pkl_id(i->id()));
-- 
2.43.0


From cf8df5bd2454696e97db730d825c47be1331eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 066/100] fix: give each problem with the JPEG2000 data of an
 asset only once

---
 src/verify_internal.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/verify_internal.h b/src/verify_internal.h
index 3399dec..1bcc61d 100644
--- a/src/verify_internal.h
+++ b/src/verify_internal.h
@@ -93,7 +93,7 @@ public:
 	Context(Context const&) = delete;
 	Context& operator=(Context const&) = delete;
 
-	void add_note(dcp::VerificationNote note)
+	dcp::VerificationNote with_context(dcp::VerificationNote note) const
 	{
 		if (cpl) {
 			note.set_cpl_id(cpl->id());
@@ -104,7 +104,12 @@ public:
 		if (asset_id) {
 			note.set_asset_id(*asset_id);
 		}
-		notes.push_back(std::move(note));
+		return note;
+	}
+
+	void add_note(dcp::VerificationNote note)
+	{
+		notes.push_back(with_context(std::move(note)));
 	}
 
 	template<typename... Args>
@@ -115,8 +120,9 @@ public:
 
 	void add_note_if_not_existing(dcp::VerificationNote note)
 	{
+		note = with_context(std::move(note));
 		if (find(notes.begin(), notes.end(), note) == notes.end()) {
-			add_note(note);
+			notes.push_back(std::move(note));
 		}
 	}
 
-- 
2.43.0


From 6d62946bfd42ac2661ae4a082b8fbd5e80826447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 067/100] fix: count the frames of previous reels when a
 JPEG2000 tile part is too big

---
 src/verify_j2k.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index f7f9117..4065442 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -224,7 +224,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 				if (tile_part_length > max_tile_part_size) {
 					VerificationNote note{VerificationNote::Code::INVALID_JPEG2000_TILE_PART_SIZE};
-					note.set_frame(frame_index);
+					note.set_frame(start_index + frame_index);
 					note.set_frame_rate(dcp::Fraction(frame_rate, 1));
 					note.set_component(tile_part_index);
 					note.set_size_in_bytes(tile_part_length);
-- 
2.43.0


From 1eb6a7b0c3270e61055936c10221366c38f2602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 068/100] fix: check the assets of every DCP even if another
 had assets with the same IDs

---
 src/verify.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index a5ea65f..8469f7a 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1878,6 +1878,7 @@ dcp::verify (
 		stage ("Checking DCP", dcp->directory());
 
 		context.dcp = dcp;
+		context.verified_assets.clear();
 
 		bool carry_on = true;
 		try {
@@ -1916,12 +1917,12 @@ dcp::verify (
 			try {
 				context.cpl = cpl;
 				verify_cpl(context, cpl);
-				context.cpl.reset();
-				context.audio_channels.reset();
-				context.subtitle_language.reset();
 			} catch (ReadError& e) {
 				notes.push_back(VerificationNote(VerificationNote::Code::FAILED_READ).set_error(e.what()));
 			}
+			context.cpl.reset();
+			context.audio_channels.reset();
+			context.subtitle_language.reset();
 		}
 
 		for (auto pkl: dcp->pkls()) {
-- 
2.43.0


From 9c5d2ba776b1e673a1be9d948dee83f79aa44284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 069/100] fix: check the hashes of assets which are exactly the
 maximum size

---
 src/verify.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 8469f7a..af1f725 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -537,7 +537,7 @@ verify_main_picture_asset(Context& context, shared_ptr<const ReelPictureAsset> r
 
 	if (
 		context.options.check_asset_hashes &&
-		(!context.options.maximum_asset_size_for_hash_check || filesystem::file_size(file) < *context.options.maximum_asset_size_for_hash_check) &&
+		(!context.options.maximum_asset_size_for_hash_check || filesystem::file_size(file) <= *context.options.maximum_asset_size_for_hash_check) &&
 		context.should_verify_asset(reel_asset->id())
 	   ) {
 		context.stage("Checking picture asset hash", file);
@@ -616,7 +616,7 @@ verify_main_sound_asset(Context& context, shared_ptr<const ReelSoundAsset> reel_
 
 	if (
 		context.options.check_asset_hashes &&
-		(!context.options.maximum_asset_size_for_hash_check || filesystem::file_size(file) < *context.options.maximum_asset_size_for_hash_check) &&
+		(!context.options.maximum_asset_size_for_hash_check || filesystem::file_size(file) <= *context.options.maximum_asset_size_for_hash_check) &&
 		context.should_verify_asset(reel_asset->id())
 	   ) {
 		context.stage("Checking sound asset hash", file);
-- 
2.43.0


From 3939e5fa2592b736782a7c0a322cc90afc35b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:24:19 +0000
Subject: [PATCH 070/100] fix: verify a DCP whose packing list has the wrong ID
 for an asset

---
 src/verify.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index af1f725..018d4b0 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -422,10 +422,11 @@ verify_asset(
 		}
 	}
 
-	DCP_ASSERT(maybe_pkl_hash);
-	*reference_hash = *maybe_pkl_hash;
-
 	auto cpl_hash = reel_file_asset->hash();
+
+	/* If the asset has a different ID in the PKL we can only check it against the CPL */
+	*reference_hash = maybe_pkl_hash.get_value_or(cpl_hash.get_value_or(*calculated_hash));
+
 	if (cpl_hash && *cpl_hash != *reference_hash) {
 		return VerifyAssetResult::CPL_PKL_DIFFER;
 	}
-- 
2.43.0


From 41e25ee7bdeea59bb6c13f36e71bfabb2dc60441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 071/100] fix: give the right code block sizes when they are
 wrong in a JPEG2000 codestream

---
 src/verify_j2k.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 4065442..05a2b18 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -245,16 +245,23 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				require_16(1, "invalid quality layers count %1");
 				require_8(1, "invalid multi-component transform flag %1");
 				require_8(fourk ? 6 : 5, "invalid number of transform levels %1");
+				/* The size is 2^(n + 2), and n can be no more than 8 */
+				auto code_block_size = [](int log) {
+					if (log > 8) {
+						throw InvalidCodestream(String::compose("invalid code block size exponent %1", log));
+					}
+					return 4 << log;
+				};
 				auto log_code_block_width = get_8();
 				if (log_code_block_width != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(4 * (2 << log_code_block_width))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(code_block_size(log_code_block_width))
 					);
 				}
 				auto log_code_block_height = get_8();
 				if (log_code_block_height != 3) {
 					notes.push_back(
-						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(4 * (2 << log_code_block_height))
+						VerificationNote(VerificationNote::Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(code_block_size(log_code_block_height))
 					);
 				}
 				require_8(0, "invalid mode variations");
-- 
2.43.0


From a2513bfc04e9f6bf02d4c57193829bc247434bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 072/100] fix: say that a JPEG2000 codestream is invalid if a
 marker segment goes past its end

---
 src/verify_j2k.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index 05a2b18..d912707 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -159,6 +159,13 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 			}
 		};
 
+		auto skip = [&](int bytes) {
+			if (bytes < 0 || bytes > (end - ptr)) {
+				throw InvalidCodestream("invalid marker segment length");
+			}
+			ptr += bytes;
+		};
+
 		require_marker ("SOC");
 		require_marker ("SIZ");
 		auto L_siz = get_16();
@@ -286,7 +293,7 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				if (!fourk && guard_bits != 1) {
 					notes.push_back(VerificationNote(VerificationNote::Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K).set_guard_bits(guard_bits));
 				}
-				ptr += L_qcd - 3;
+				skip(L_qcd - 3);
 			} else if (*marker_name == "COC") {
 				get_16(); // length
 				auto const coc_component_number = get_8();
@@ -310,11 +317,11 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				require_8(0x88, "invalid precinct size %1");
 			} else if (*marker_name == "TLM") {
 				auto const len = get_16();
-				ptr += len - 2;
+				skip(len - 2);
 				tlm = true;
 			} else if (*marker_name == "QCC" || *marker_name == "COM") {
 				auto const len = get_16();
-				ptr += len - 2;
+				skip(len - 2);
 			} else if (*marker_name == "POC") {
 				if (main_header_finished) {
 					num_POC_after_main++;
-- 
2.43.0


From 4a66986c8e4be18a4de1eaef894263943bb72eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 073/100] fix: allow the wavelet transform and the transform
 levels of 4K in JPEG2000 COC markers

---
 src/verify_j2k.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index d912707..ab4c53d 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -305,16 +305,20 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 					throw InvalidCodestream(String::compose("invalid COC component number %1", coc_component_number));
 				}
 				require_8(1, "invalid coding style %1");
-				require_8(5, "invalid number of transform levels %1");
+				require_8(fourk ? 6 : 5, "invalid number of transform levels %1");
 				require_8(3, "invalid code block width exponent %1");
 				require_8(3, "invalid code block height exponent %1");
 				require_8(0, "invalid mode variations");
+				require_8(0, "invalid wavelet transform type %1"); // 9/7 irreversible
 				require_8(0x77, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
 				require_8(0x88, "invalid precinct size %1");
+				if (fourk) {
+					require_8(0x88, "invalid precinct size %1");
+				}
 			} else if (*marker_name == "TLM") {
 				auto const len = get_16();
 				skip(len - 2);
-- 
2.43.0


From 39a85af096c01b315357cbaba023f188e1f7699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 074/100] fix: give the wrong value in a POC marker rather than
 the right one

---
 src/verify_j2k.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/verify_j2k.cc b/src/verify_j2k.cc
index ab4c53d..f94ff94 100644
--- a/src/verify_j2k.cc
+++ b/src/verify_j2k.cc
@@ -334,14 +334,16 @@ dcp::verify_j2k(shared_ptr<const Data> j2k, int start_index, int frame_index, in
 				}
 
 				auto require_8_poc = [&](uint16_t value, string note) {
-					if (get_8() != value) {
-						notes.push_back(VerificationNote(VerificationNote::Code::INCORRECT_JPEG2000_POC_MARKER).set_poc_marker(value).set_error(note));
+					int const v = get_8();
+					if (v != value) {
+						notes.push_back(VerificationNote(VerificationNote::Code::INCORRECT_JPEG2000_POC_MARKER).set_poc_marker(v).set_error(String::compose(note, v)));
 					}
 				};
 
 				auto require_16_poc = [&](uint16_t value, string note) {
-					if (get_16() != value) {
-						notes.push_back (VerificationNote(VerificationNote::Code::INCORRECT_JPEG2000_POC_MARKER).set_poc_marker(value).set_error(note));
+					int const v = get_16();
+					if (v != value) {
+						notes.push_back (VerificationNote(VerificationNote::Code::INCORRECT_JPEG2000_POC_MARKER).set_poc_marker(v).set_error(String::compose(note, v)));
 					}
 				};
 
-- 
2.43.0


From e05acf511711752ee76bec76a7e85568a27573a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 075/100] fix: do not count the lines of a subtitle which ends
 with those of one which then starts

---
 src/verify.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 018d4b0..05198aa 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1214,7 +1214,9 @@ dcp::verify_text_lines_and_characters(
 
 	/* Make a list of "subtitle starts" and "subtitle ends" events */
 	for (auto j: asset->texts()) {
-		if (auto text = dynamic_pointer_cast<const TextString>(j)) {
+		auto text = dynamic_pointer_cast<const TextString>(j);
+		/* Those which end no later than they start are never on the screen */
+		if (text && text->in() < text->out()) {
 			auto in = make_shared<Event>(text->in(), position(text), utf8_strlen(text->text()));
 			events.push_back(in);
 			events.push_back(make_shared<Event>(text->out(), in));
@@ -1222,7 +1224,11 @@ dcp::verify_text_lines_and_characters(
 	}
 
 	std::sort(events.begin(), events.end(), [](shared_ptr<Event> const& a, shared_ptr<Event> const& b) {
-		return a->time < b->time;
+		if (a->time != b->time) {
+			return a->time < b->time;
+		}
+		/* ends before starts */
+		return a->start && !b->start;
 	});
 
 	/* The number of characters currently displayed at different vertical positions, i.e. on
-- 
2.43.0


From 1c32bb893ca502b81853063bd89ec5f15243e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 076/100] fix: obey a style tag at the start of some text in a
 PDF report

A tag with no text before it, at the start of a line or directly after
another tag, was dropped.
---
 src/pdf_formatter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdf_formatter.cc b/src/pdf_formatter.cc
index 0ec77c4..80f5d3d 100644
--- a/src/pdf_formatter.cc
+++ b/src/pdf_formatter.cc
@@ -164,8 +164,8 @@ PDFFormatter::wrapped_text(float x, float first_line_indent, float font_size, dc
 		if (found_start > 0) {
 			block.text += work.substr(0, found_start);
 			blocks.push_back(block);
-			block = Block("", found_tag.second);
 		}
+		block = Block("", found_tag.second);
 		work = work.substr(found_start + found_tag.first.length());
 	}
 
-- 
2.43.0


From 981f50fd0b913a33f43c447114715949d2a008be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:55 +0000
Subject: [PATCH 077/100] fix: escape text from the DCP in HTML reports

Errors, languages, annotation texts and so on were put in the report
as they were, and & was never escaped, so the HTML could be broken.
---
 src/html_formatter.cc |  1 +
 src/verify.cc         | 32 ++++++++++++++++++++++++++++----
 src/verify_report.cc  |  6 +++---
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/html_formatter.cc b/src/html_formatter.cc
index 0e796cc..0a5bceb 100644
--- a/src/html_formatter.cc
+++ b/src/html_formatter.cc
@@ -109,6 +109,7 @@ std::function<std::string (std::string)>
 HTMLFormatter::process_string()
 {
 	return [](std::string s) {
+		boost::replace_all(s, "&", "&amp;");
 		boost::replace_all(s, "<", "&lt;");
 		boost::replace_all(s, ">", "&gt;");
 		return s;
diff --git a/src/verify.cc b/src/verify.cc
index 05198aa..9f0f1ba 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1963,15 +1963,39 @@ dcp::note_to_string(VerificationNote note, function<string (string)> process_str
 	 *  Messages should not mention whether or not their errors are a part of Bv2.1.
 	 */
 
-	auto filename = [note, process_filename]() {
-		return process_filename(note.file()->filename().string());
+	auto filename = [note, process_string, process_filename]() {
+		return process_filename(process_string(note.file()->filename().string()));
 	};
 
+	/* Strings which come from the DCP can have characters that need to be processed, too */
+	auto process = [&note, process_string](optional<string> (VerificationNote::*get)() const, VerificationNote& (VerificationNote::*set)(string)) {
+		if (auto value = (note.*get)()) {
+			(note.*set)(process_string(*value));
+		}
+	};
+
+	process(&VerificationNote::annotation_text, &VerificationNote::set_annotation_text);
+	process(&VerificationNote::asset_id, &VerificationNote::set_asset_id);
+	process(&VerificationNote::asset_map_id, &VerificationNote::set_asset_map_id);
+	process(&VerificationNote::calculated_hash, &VerificationNote::set_calculated_hash);
+	process(&VerificationNote::content_kind, &VerificationNote::set_content_kind);
+	process(&VerificationNote::content_version, &VerificationNote::set_content_version);
+	process(&VerificationNote::cpl_id, &VerificationNote::set_cpl_id);
+	process(&VerificationNote::error, &VerificationNote::set_error);
+	process(&VerificationNote::issue_date, &VerificationNote::set_issue_date);
+	process(&VerificationNote::language, &VerificationNote::set_language);
+	process(&VerificationNote::load_font_id, &VerificationNote::set_load_font_id);
+	process(&VerificationNote::other_asset_id, &VerificationNote::set_other_asset_id);
+	process(&VerificationNote::pkl_id, &VerificationNote::set_pkl_id);
+	process(&VerificationNote::reference_hash, &VerificationNote::set_reference_hash);
+	process(&VerificationNote::territory, &VerificationNote::set_territory);
+	process(&VerificationNote::xml_namespace, &VerificationNote::set_xml_namespace);
+
 #define compose(format, ...) String::compose(process_string(format), __VA_ARGS__)
 
 	switch (note.code()) {
 	case VerificationNote::Code::FAILED_READ:
-		return process_string(*note.error());
+		return *note.error();
 	case VerificationNote::Code::MATCHING_CPL_HASHES:
 		return process_string("The hash of the CPL in the PKL matches the CPL file.");
 	case VerificationNote::Code::MISMATCHED_CPL_HASHES:
@@ -2226,7 +2250,7 @@ dcp::note_to_string(VerificationNote note, function<string (string)> process_str
 	case VerificationNote::Code::MISSING_CPL_CONTENT_VERSION:
 		return compose("The CPL %1 has no <ContentVersion> tag", note.cpl_id().get());
 	case VerificationNote::Code::INVALID_PKL_NAMESPACE:
-		return compose("The namespace %1 in PKL %2 is invalid", *note.xml_namespace(), note.file()->filename());
+		return compose("The namespace %1 in PKL %2 is invalid", *note.xml_namespace(), filename());
 	}
 
 	return "";
diff --git a/src/verify_report.cc b/src/verify_report.cc
index 87f7621..5ebcdc0 100644
--- a/src/verify_report.cc
+++ b/src/verify_report.cc
@@ -80,7 +80,7 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 		formatter.list_item(String::compose("Entry point: %1", asset->entry_point().get_value_or(0)));
 		formatter.list_item(String::compose("Duration: %1", asset->duration().get_value_or(0)));
 		if (asset->annotation_text()) {
-			formatter.list_item(String::compose("Annotation text: %1", *asset->annotation_text()));
+			formatter.list_item(String::compose("Annotation text: %1", formatter.process_string()(*asset->annotation_text())));
 		}
 	};
 
@@ -110,7 +110,7 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 		auto ul = formatter.unordered_list();
 		for (auto cpl: dcp->cpls()) {
 			if (cpl->annotation_text()) {
-				formatter.list_item(*cpl->annotation_text());
+				formatter.list_item(formatter.process_string()(*cpl->annotation_text()));
 			}
 			formatter.list_item(fmt::format("CPL ID: {}", formatter.fixed_width()(cpl->id())));
 			int reel_index = 1;
@@ -134,7 +134,7 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 					auto ul3 = formatter.unordered_list();
 					reel_asset_details(sub);
 					if (sub->language()) {
-						formatter.list_item(String::compose("Language: %1", *sub->language()));
+						formatter.list_item(String::compose("Language: %1", formatter.process_string()(*sub->language())));
 					}
 				}
 			}
-- 
2.43.0


From e2704d7e54776d026a3f82f877aa765ac08988ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:20 +0000
Subject: [PATCH 078/100] fix: add a CPL to a combined DCP only once

combine() added the CPLs of every input to the output, so when the same CPL
was in more than one input the asset map and packing list of the output had
its ID more than once.
---
 src/combine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/combine.cc b/src/combine.cc
index e84b59a..a38b5df 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -133,6 +133,7 @@ dcp::combine(
 
 	vector<boost::filesystem::path> paths;
 	vector<shared_ptr<dcp::Asset>> assets;
+	set<string> already_added;
 	set<string> already_written;
 
 	for (auto i: inputs) {
@@ -140,7 +141,10 @@ dcp::combine(
 		dcp.read();
 
 		for (auto j: dcp.cpls()) {
-			output_dcp.add(j);
+			/* The same CPL could be in more than one input */
+			if (already_added.insert(j->id()).second) {
+				output_dcp.add(j);
+			}
 		}
 
 		for (auto j: dcp.assets(true)) {
-- 
2.43.0


From 6fc50a16d6125a3cecebe9e80913c7d237d62c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:20 +0000
Subject: [PATCH 079/100] fix: keep fonts with the same name apart when
 combining DCPs

An Interop subtitle file can load fonts with the same filename from different
directories.  combine() puts the fonts in one directory, and gave them the
same name as none of the files existed when the names were chosen, so that
one font replaced the other.
---
 src/combine.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/combine.cc b/src/combine.cc
index a38b5df..286f3da 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -64,16 +64,21 @@ using std::vector;
 using boost::optional;
 
 
+/** @param taken Paths which may not yet exist, but which cannot be used */
 boost::filesystem::path
-make_unique(boost::filesystem::path path)
+make_unique(boost::filesystem::path path, set<boost::filesystem::path> const& taken = {})
 {
-	if (!dcp::filesystem::exists(path)) {
+	auto can_use = [&taken](boost::filesystem::path p) {
+		return !dcp::filesystem::exists(p) && taken.find(p) == taken.end();
+	};
+
+	if (can_use(path)) {
 		return path;
 	}
 
 	for (int i = 0; i < 10000; ++i) {
 		boost::filesystem::path p = path.parent_path() / (path.stem().string() + fmt::to_string(i) + path.extension().string());
-		if (!dcp::filesystem::exists(p)) {
+		if (can_use(p)) {
 			return p;
 		}
 	}
@@ -160,8 +165,11 @@ dcp::combine(
 				 */
 				boost::filesystem::create_directories(output / sub->id());
 				auto fonts = sub->font_filenames();
+				set<boost::filesystem::path> font_paths;
 				for (auto const& k: fonts) {
-					sub->set_font_file(k.first, make_unique(output / sub->id() / k.second.filename()));
+					auto const font_path = make_unique(output / sub->id() / k.second.filename(), font_paths);
+					font_paths.insert(font_path);
+					sub->set_font_file(k.first, font_path);
 				}
 				auto const file = sub->file();
 				DCP_ASSERT(file);
-- 
2.43.0


From b900f7f98a6a7de39381b4d207d32761426cfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:20 +0000
Subject: [PATCH 080/100] fix: keep a font which is shared by two subtitle
 files when combining DCPs

combine() gives each Interop subtitle file its own copy of its fonts.  When a
font was used by two files the copies had the same ID, so that only the first
was put in the asset map and the second subtitle file lost its font.
---
 src/combine.cc            |  2 ++
 src/interop_text_asset.cc | 12 ++++++++++++
 src/interop_text_asset.h  |  5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/combine.cc b/src/combine.cc
index 286f3da..806fa7a 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -140,6 +140,7 @@ dcp::combine(
 	vector<shared_ptr<dcp::Asset>> assets;
 	set<string> already_added;
 	set<string> already_written;
+	set<string> font_ids;
 
 	for (auto i: inputs) {
 		DCP dcp(i);
@@ -171,6 +172,7 @@ dcp::combine(
 					font_paths.insert(font_path);
 					sub->set_font_file(k.first, font_path);
 				}
+				sub->make_font_ids_unique(font_ids);
 				auto const file = sub->file();
 				DCP_ASSERT(file);
 				auto const new_path = make_unique(output / sub->id() / file->filename());
diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 832829f..3343c7c 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -336,6 +336,18 @@ InteropTextAsset::set_font_file(string load_id, boost::filesystem::path file)
 }
 
 
+void
+InteropTextAsset::make_font_ids_unique(std::set<string>& used)
+{
+	for (auto& i: _fonts) {
+		if (!used.insert(i.uuid).second) {
+			i.uuid = make_uuid();
+			used.insert(i.uuid);
+		}
+	}
+}
+
+
 vector<string>
 InteropTextAsset::unresolved_fonts() const
 {
diff --git a/src/interop_text_asset.h b/src/interop_text_asset.h
index 363b1f2..096c958 100644
--- a/src/interop_text_asset.h
+++ b/src/interop_text_asset.h
@@ -44,6 +44,7 @@
 #include "text_asset.h"
 #include "subtitle_standard.h"
 #include <boost/filesystem.hpp>
+#include <set>
 
 
 namespace dcp {
@@ -83,6 +84,10 @@ public:
 
 	void resolve_fonts (std::vector<std::shared_ptr<Asset>> assets);
 	void set_font_file (std::string load_id, boost::filesystem::path file);
+	/** Give new IDs to any of our fonts whose IDs are already used
+	 *  @param used IDs which are used; those of our fonts are added to it.
+	 */
+	void make_font_ids_unique(std::set<std::string>& used);
 	std::vector<std::shared_ptr<Asset>> font_assets();
 	std::vector<std::shared_ptr<const Asset>> font_assets() const;
 
-- 
2.43.0


From beb4bf39af4956a6050600150863c7ab887667d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:20 +0000
Subject: [PATCH 081/100] fix: correct the hashes of rewritten subtitles in
 CPLs when combining DCPs

combine() rewrites Interop subtitle XML, since the names of its fonts may have
to change, but the CPLs kept the hashes of the original files.
---
 src/combine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/combine.cc b/src/combine.cc
index 806fa7a..659c12f 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -47,6 +47,7 @@
 #include "font_asset.h"
 #include "interop_text_asset.h"
 #include "raw_convert.h"
+#include "reel_file_asset.h"
 #include <fmt/format.h>
 #include <boost/filesystem.hpp>
 #include <boost/system/windows_error.hpp>
@@ -199,6 +200,15 @@ dcp::combine(
 		}
 	}
 
+	/* The subtitle XML that we wrote may differ from what the CPLs' hashes were made from */
+	for (auto cpl: output_dcp.cpls()) {
+		for (auto i: cpl->reel_file_assets()) {
+			if (i->hash() && already_written.find(i->asset_ref().id()) != already_written.end()) {
+				i->set_hash(i->asset_ref()->hash());
+			}
+		}
+	}
+
 	output_dcp.set_issuer(issuer);
 	output_dcp.set_creator(creator);
 	output_dcp.set_issue_date(issue_date);
-- 
2.43.0


From 74a58fdb01619c326ac46b15c0c1f45bd3c6d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:20 +0000
Subject: [PATCH 082/100] fix: report failures to write in
 write_string_to_file()

Nothing looked at whether the string was really written, so that a full disk
gave a short or empty file and no error.
---
 src/util.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 61b9ba6..d0c8d5b 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -288,7 +288,12 @@ dcp::write_string_to_file(string const& string, boost::filesystem::path const& p
 		throw FileError("could not open file", path, errno);
 	}
 
-	file.write(string.c_str(), string.length(), 1);
+	file.checked_write(string.c_str(), string.length());
+
+	/* Errors in writing anything that was buffered are only seen when the file is closed */
+	if (fclose(file.take()) != 0) {
+		throw FileError("could not write to file", path, errno);
+	}
 }
 
 
-- 
2.43.0


From c0a1648565e248b5165e9c4c413e7b2325546c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:09:15 +0000
Subject: [PATCH 083/100] fix: report failures to finish writing SMPTE subtitle
 assets

The result of finalising the MXF was ignored, so that a full disk could give
an unreadable file and no error.
---
 src/smpte_text_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 1efdd8d..e550b86 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -498,7 +498,10 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 		}
 	}
 
-	writer.Finalize ();
+	r = writer.Finalize();
+	if (ASDCP_FAILURE(r)) {
+		boost::throw_exception(MXFFileError("could not finalise MXF for text asset", p.string(), r));
+	}
 
 	set_file(p);
 }
-- 
2.43.0


From 15cc4e8481aa4a75b7478b61b485f5fc8049cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:09:15 +0000
Subject: [PATCH 084/100] fix: report failures to write Interop subtitle XML

Nothing looked at whether the XML was really written, so that a full disk gave
a short or empty file and no error.
---
 src/interop_text_asset.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 3343c7c..fdc61d2 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -207,7 +207,12 @@ InteropTextAsset::write(boost::filesystem::path p) const
 
 	_raw_xml = xml_as_string ();
 	/* length() here gives bytes not characters */
-	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
+	f.checked_write(_raw_xml->c_str(), _raw_xml->length());
+
+	/* Errors in writing anything that was buffered are only seen when the file is closed */
+	if (fclose(f.take()) != 0) {
+		throw FileError("Could not write to file", p, errno);
+	}
 
 	set_file(p);
 
-- 
2.43.0


From d01e5ab8615eae0dbc777d19f3baf12af4181750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:09:16 +0000
Subject: [PATCH 085/100] fix: report failures to write the last part of a KDM
 file

What is written last is only passed on when the file is closed, and the result
of that was ignored.
---
 src/encrypted_kdm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index f0e066b..9e1f669 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -749,6 +749,11 @@ EncryptedKDM::as_xml (boost::filesystem::path path) const
 	if (f.write(x.c_str(), 1, x.length()) != x.length()) {
 		throw FileError ("Could not write to KDM file", path, errno);
 	}
+
+	/* Errors in writing anything that was buffered are only seen when the file is closed */
+	if (fclose(f.take()) != 0) {
+		throw FileError ("Could not write to KDM file", path, errno);
+	}
 }
 
 
-- 
2.43.0


From 82d0fe038fe8795afa12eab59939d1525b9577ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:09:16 +0000
Subject: [PATCH 086/100] fix: report failures to read files in
 file_to_string()

After an error it returned the part of the file which had been read.
---
 src/util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index d0c8d5b..94a5fe9 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -275,7 +275,10 @@ dcp::file_to_string (boost::filesystem::path p, uintmax_t max_length)
 
 	std::vector<char> buffer(len);
 	/* This may read less than `len' if we are on Windows and we have CRLF in the file */
-	int const N = f.read(buffer.data(), 1, len);
+	auto const N = f.read(buffer.data(), 1, len);
+	if (f.error()) {
+		throw FileError("could not read file", p, errno);
+	}
 	return string(buffer.data(), N);
 }
 
-- 
2.43.0


From f5c38249d0241c0b268a67727b143bb33368311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 087/100] fix: report errors from the command-line tools rather
 than aborting

---
 tools/dcpdecryptmxf.cc | 6 ++++++
 tools/dcpdiff.cc       | 6 ++++++
 tools/dcpdumpimage.cc  | 6 ++++++
 tools/dcpdumpsub.cc    | 6 ++++++
 tools/dcpinfo.cc       | 6 ++++++
 tools/dcprecover.cc    | 6 ++++++
 tools/dcpthumb.cc      | 6 ++++++
 tools/dcpverify.cc     | 6 ++++++
 8 files changed, 48 insertions(+)

diff --git a/tools/dcpdecryptmxf.cc b/tools/dcpdecryptmxf.cc
index 1145d77..a79b2b0 100644
--- a/tools/dcpdecryptmxf.cc
+++ b/tools/dcpdecryptmxf.cc
@@ -90,6 +90,7 @@ void copy (T const& in, shared_ptr<U> writer, bool ignore_hmac)
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -273,3 +274,8 @@ main (int argc, char* argv[])
 
 	return 0;
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcpdiff.cc b/tools/dcpdiff.cc
index b170e9d..42a98d9 100644
--- a/tools/dcpdiff.cc
+++ b/tools/dcpdiff.cc
@@ -126,6 +126,7 @@ load_dcp (boost::filesystem::path path, bool ignore_missing_assets, optional<str
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -228,3 +229,8 @@ main (int argc, char* argv[])
 
 	exit (equals ? EXIT_SUCCESS : EXIT_FAILURE);
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcpdumpimage.cc b/tools/dcpdumpimage.cc
index 0ddf2d6..96c50a7 100644
--- a/tools/dcpdumpimage.cc
+++ b/tools/dcpdumpimage.cc
@@ -76,6 +76,7 @@ help(string n)
 
 int
 main(int argc, char* argv[])
+try
 {
 	dcp::init();
 	Magick::InitializeMagick(nullptr);
@@ -179,3 +180,8 @@ main(int argc, char* argv[])
 
 	return 0;
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcpdumpsub.cc b/tools/dcpdumpsub.cc
index 14d1ed5..7af1340 100644
--- a/tools/dcpdumpsub.cc
+++ b/tools/dcpdumpsub.cc
@@ -63,6 +63,7 @@ help (string n)
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -143,3 +144,8 @@ main (int argc, char* argv[])
 		}
 	}
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcpinfo.cc b/tools/dcpinfo.cc
index 61782c1..8beca98 100644
--- a/tools/dcpinfo.cc
+++ b/tools/dcpinfo.cc
@@ -285,6 +285,7 @@ main_subtitle (vector<string> const& only, shared_ptr<Reel> reel, bool list_subt
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -439,3 +440,8 @@ main (int argc, char* argv[])
 
 	return 0;
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcprecover.cc b/tools/dcprecover.cc
index 779cab6..18ec3b8 100644
--- a/tools/dcprecover.cc
+++ b/tools/dcprecover.cc
@@ -67,6 +67,7 @@ help (string n)
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -167,3 +168,8 @@ main (int argc, char* argv[])
 
 	return 0;
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcpthumb.cc b/tools/dcpthumb.cc
index 3ea32f9..772de32 100644
--- a/tools/dcpthumb.cc
+++ b/tools/dcpthumb.cc
@@ -51,6 +51,7 @@ help (string n)
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -88,3 +89,8 @@ main (int argc, char* argv[])
 
 	return 0;
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
diff --git a/tools/dcpverify.cc b/tools/dcpverify.cc
index 2a0e591..fc1cb75 100644
--- a/tools/dcpverify.cc
+++ b/tools/dcpverify.cc
@@ -117,6 +117,7 @@ location_name(dcp::VerificationNote::Location location)
 
 int
 main (int argc, char* argv[])
+try
 {
 	dcp::init ();
 
@@ -295,3 +296,8 @@ main (int argc, char* argv[])
 
 	exit (failed ? EXIT_FAILURE : EXIT_SUCCESS);
 }
+catch (std::exception& e)
+{
+	cerr << "Error: " << e.what() << "\n";
+	exit (EXIT_FAILURE);
+}
-- 
2.43.0


From 405e1f3f1c3fc3c1c2937fa59575d0ce024b6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 088/100] fix: show each KDM that dcpkdm is given, not the
 first one repeatedly

---
 tools/dcpkdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dcpkdm.cc b/tools/dcpkdm.cc
index c2a4859..facdaef 100644
--- a/tools/dcpkdm.cc
+++ b/tools/dcpkdm.cc
@@ -94,7 +94,7 @@ try
 
 	for (int kdm_index = optind; kdm_index < argc; ++kdm_index) {
 
-		boost::filesystem::path kdm_file = argv[optind];
+		boost::filesystem::path kdm_file = argv[kdm_index];
 
 		dcp::EncryptedKDM enc_kdm (dcp::file_to_string (kdm_file));
 
-- 
2.43.0


From 5dbcd827a10bf3b3bee2750d90e53615f1fdee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 089/100] fix: ignore differing hashes of text assets in
 dcpdiff

---
 tools/dcpdiff.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/dcpdiff.cc b/tools/dcpdiff.cc
index 42a98d9..eaf93d8 100644
--- a/tools/dcpdiff.cc
+++ b/tools/dcpdiff.cc
@@ -134,6 +134,7 @@ try
 	options.max_mean_pixel_error = 5;
 	options.max_std_dev_pixel_error = 5;
 	options.reel_hashes_can_differ = true;
+	options.asset_hashes_can_differ = true;
 	options.reel_annotation_texts_can_differ = false;
 	bool ignore_missing_assets = false;
 	optional<string> key;
-- 
2.43.0


From f75533fbac165ddfebe15c35248b2a828c058cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 090/100] fix: only write fonts to the current directory in
 dcpdumpsub

---
 tools/dcpdumpsub.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/dcpdumpsub.cc b/tools/dcpdumpsub.cc
index 7af1340..7a12c60 100644
--- a/tools/dcpdumpsub.cc
+++ b/tools/dcpdumpsub.cc
@@ -135,12 +135,13 @@ try
 
 	if (extract_fonts) {
 		for (auto const& i: sub.font_data()) {
-			dcp::File f(i.first + ".ttf", "wb");
+			/* The ID comes from the MXF, so make sure that it can't take us out of the current directory */
+			dcp::File f(boost::filesystem::path(i.first + ".ttf").filename(), "wb");
 			if (!f) {
 				cerr << "Could not open font file " << i.first << ".ttf for writing";
 				exit (EXIT_FAILURE);
 			}
-			f.write(i.second.data(), 1, i.second.size());
+			f.checked_write(i.second.data(), i.second.size());
 		}
 	}
 }
-- 
2.43.0


From e15063fddc22b682065c0b93a715348460d5c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 091/100] fix: end the line about subtitles with no language in
 dcpinfo

---
 tools/dcpinfo.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/dcpinfo.cc b/tools/dcpinfo.cc
index 8beca98..c95d140 100644
--- a/tools/dcpinfo.cc
+++ b/tools/dcpinfo.cc
@@ -255,12 +255,13 @@ main_subtitle (vector<string> const& only, shared_ptr<Reel> reel, bool list_subt
 		OUTPUT_SUBTITLE("\n      Subtitle:    %1 subtitles", subs.size());
 		auto iop = dynamic_pointer_cast<InteropTextAsset>(ms->asset());
 		if (iop) {
-			OUTPUT_SUBTITLE(" in %1\n", iop->language());
+			OUTPUT_SUBTITLE(" in %1", iop->language());
 		}
 		auto smpte = dynamic_pointer_cast<SMPTETextAsset>(ms->asset());
 		if (smpte && smpte->language ()) {
-			OUTPUT_SUBTITLE(" in %1\n", smpte->language().get());
+			OUTPUT_SUBTITLE(" in %1", smpte->language().get());
 		}
+		OUTPUT_SUBTITLE_NC("\n");
 		if (list_subtitles) {
 			for (auto k: subs) {
 				auto ks = dynamic_pointer_cast<const TextString>(k);
-- 
2.43.0


From e50e3e618e36facae0d39915c2efb46de292b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 092/100] fix: carry on past unreadable XML files in dcprecover

---
 tools/dcprecover.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/dcprecover.cc b/tools/dcprecover.cc
index 18ec3b8..30e24fd 100644
--- a/tools/dcprecover.cc
+++ b/tools/dcprecover.cc
@@ -109,7 +109,7 @@ try
 	vector<dcp::VerificationNote> notes;
 	try {
 		dcp.read (&notes, true);
-	} catch (dcp::ReadError& e) {
+	} catch (std::exception& e) {
 		cout << "Error:" <<  e.what() << "\n";
 	}
 
@@ -124,9 +124,7 @@ try
 		if (i.path().extension() == ".xml") {
 			try {
 				cpl = make_shared<dcp::CPL>(i.path());
-			} catch (dcp::ReadError& e) {
-				cout << "Error: " << e.what() << "\n";
-			} catch (xmlpp::parse_error& e) {
+			} catch (std::exception& e) {
 				cout << "Error: " << e.what() << "\n";
 			}
 		}
-- 
2.43.0


From c569490a6978672d1bf561963e007bd53ad54c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 093/100] fix: write the requested frame in dcpdumpimage

---
 tools/dcpdumpimage.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/dcpdumpimage.cc b/tools/dcpdumpimage.cc
index 96c50a7..e527a88 100644
--- a/tools/dcpdumpimage.cc
+++ b/tools/dcpdumpimage.cc
@@ -149,12 +149,20 @@ try
 	bool found = false;
 	auto cpl = dcp.cpls()[0];
 	for (auto reel: cpl->reels()) {
+		if (!reel->main_picture()) {
+			continue;
+		}
 		auto duration = reel->main_picture()->actual_duration();
 		if (frame_index >= duration) {
 			frame_index -= duration;
 		} else {
-			auto reader = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(reel->main_picture()->asset())->start_read();
-			auto frame = reader->get_frame(frame_index);
+			auto asset = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(reel->main_picture()->asset());
+			if (!asset) {
+				std::cerr << "Frame is not from a 2D JPEG2000 asset.\n";
+				exit(EXIT_FAILURE);
+			}
+			auto reader = asset->start_read();
+			auto frame = reader->get_frame(reel->main_picture()->entry_point().get_value_or(0) + frame_index);
 			auto xyz = frame->xyz_image();
 			std::vector<uint8_t> rgba(xyz->size().width * xyz->size().height * 4);
 			dcp::xyz_to_rgba(xyz, dcp::ColourConversion::srgb_to_xyz(), rgba.data(), xyz->size().width * 4);
@@ -170,6 +178,7 @@ try
 			image.write(output_filename->string());
 
 			found = true;
+			break;
 		}
 	}
 
-- 
2.43.0


From 8c7ab8c0eb1159ff8da789cedbb0aee5d37da345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:11 +0000
Subject: [PATCH 094/100] fix: give the right lengths of 3D reels in dcpinfo

---
 tools/dcpinfo.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/dcpinfo.cc b/tools/dcpinfo.cc
index c95d140..3b0367e 100644
--- a/tools/dcpinfo.cc
+++ b/tools/dcpinfo.cc
@@ -146,7 +146,7 @@ main_picture (vector<string> const& only, shared_ptr<Reel> reel, bool analyse, b
 		OUTPUT_PICTURE(
 			" duration %1 (%2) intrinsic %3",
 			*mp->duration(),
-			dcp::Time(*mp->duration(), mp->frame_rate().as_float(), mp->frame_rate().as_float()).as_string(dcp::Standard::SMPTE),
+			dcp::Time(*mp->duration(), mp->edit_rate().as_float(), mp->edit_rate().as_float()).as_string(dcp::Standard::SMPTE),
 		     	mp->intrinsic_duration()
 			);
 	} else {
@@ -202,8 +202,8 @@ main_picture (vector<string> const& only, shared_ptr<Reel> reel, bool analyse, b
 
 	return dcp::Time (
 			mp->duration().get_value_or(mp->intrinsic_duration()),
-			mp->frame_rate().as_float(),
-			mp->frame_rate().as_float()
+			mp->edit_rate().as_float(),
+			mp->edit_rate().as_float()
 			);
 }
 
-- 
2.43.0


From d0d913c2bd49906881211f729375b637397483d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:18 +0000
Subject: [PATCH 095/100] fix: refuse malformed values in CPLs and subtitles
 with errors about them

---
 src/cpl.cc        |  4 +++-
 src/text_asset.cc | 13 +++++++++----
 src/types.cc      |  6 +++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index 5b5eba4..09d5483 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -330,7 +330,9 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 	if (sr) {
 		vector<string> sr_bits;
 		boost::split(sr_bits, *sr, boost::is_any_of(" "));
-		DCP_ASSERT(sr_bits.size() == 2);
+		if (sr_bits.size() != 2) {
+			throw ReadError(String::compose("malformed sample rate %1", *sr));
+		}
 		_main_sound_sample_rate = raw_convert<int>(sr_bits[0]);
 	}
 
diff --git a/src/text_asset.cc b/src/text_asset.cc
index 8ee643c..39b7702 100644
--- a/src/text_asset.cc
+++ b/src/text_asset.cc
@@ -278,7 +278,11 @@ TextAsset::fade_time(xmlpp::Element const * node, string name, optional<int> tcr
 		t = Time (u, tcr);
 	} else {
 		auto const rate = tcr.get_value_or(250);
-		t = Time(lexical_cast<int>(u), rate, rate);
+		try {
+			t = Time(lexical_cast<int>(u), rate, rate);
+		} catch (boost::bad_lexical_cast&) {
+			throw XMLError("malformed " + name + " " + u);
+		}
 	}
 
 	if (t > Time (0, 0, 8, 0, 250)) {
@@ -346,7 +350,7 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 							} else if (*position_string == "after") {
 								position = RubyPosition::AFTER;
 							} else {
-								DCP_ASSERT(false);
+								throw XMLError("unknown Ruby position " + *position_string);
 							}
 						}
 						offset = optional_number_attribute<float>(ruby_element, "Offset");
@@ -355,8 +359,9 @@ TextAsset::parse_texts(xmlpp::Element const * node, vector<ParseState>& state, o
 					}
 				}
 			}
-			DCP_ASSERT(base);
-			DCP_ASSERT(annotation);
+			if (!base || !annotation) {
+				throw XMLError("Ruby without Rb or Rt");
+			}
 			auto ruby = Ruby{*base, *annotation};
 			if (size) {
 				ruby.size = *size;
diff --git a/src/types.cc b/src/types.cc
index de1fb6f..0a83f32 100644
--- a/src/types.cc
+++ b/src/types.cc
@@ -298,7 +298,7 @@ dcp::marker_from_string (string s)
 		return Marker::LFOB;
 	}
 
-	DCP_ASSERT (false);
+	boost::throw_exception(ReadError("unknown marker", s));
 }
 
 
@@ -446,7 +446,7 @@ dcp::string_to_status (string s)
 		return Status::PRE;
 	}
 
-	DCP_ASSERT (false);
+	boost::throw_exception(ReadError("unknown status", s));
 }
 
 
@@ -502,6 +502,6 @@ dcp::string_to_formulation (string formulation)
 		return Formulation::DCI_SPECIFIC;
 	}
 
-	DCP_ASSERT (false);
+	boost::throw_exception(ReadError("unknown formulation", formulation));
 }
 
-- 
2.43.0


From 7913b2cf077062903d7eff81bcafea0b886b40c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:18 +0000
Subject: [PATCH 096/100] fix: refuse times whose parts are out of range

---
 src/local_time.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/local_time.cc b/src/local_time.cc
index 167560c..8a18535 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -155,6 +155,15 @@ LocalTime::LocalTime (string s)
 	_minute = number(14, 2);
 	_second = number(17, 2);
 
+	try {
+		boost::gregorian::date(_year, _month, _day);
+	} catch (std::out_of_range&) {
+		throw TimeFormatError(s);
+	}
+	if (_hour > 23 || _minute > 59 || _second > 60) {
+		throw TimeFormatError(s);
+	}
+
 	size_t pos = 19;
 
 	/* Fractional seconds */
@@ -181,6 +190,9 @@ LocalTime::LocalTime (string s)
 
 		auto const hour = number(pos + 1, 2);
 		auto const minute = number(pos + 4, 2);
+		if (hour > (s[pos] == '-' ? 12 : 14) || minute > 59) {
+			throw TimeFormatError(s);
+		}
 		_offset.set_hour(hour);
 		_offset.set_minute(minute);
 
-- 
2.43.0


From 90462cd759b38529fb6e4dd9b724754c2b61c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:18 +0000
Subject: [PATCH 097/100] fix: refuse SMPTE subtitles whose rates are not
 positive

---
 src/smpte_text_asset.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index e550b86..f5cf23f 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -198,8 +198,14 @@ SMPTETextAsset::parse_xml(shared_ptr<cxml::Document> xml)
 	} else {
 		throw XMLError ("malformed EditRate " + er);
 	}
+	if (_edit_rate.numerator <= 0 || _edit_rate.denominator <= 0) {
+		throw XMLError("malformed EditRate " + er);
+	}
 
 	_time_code_rate = xml->number_child<int> ("TimeCodeRate");
+	if (_time_code_rate <= 0) {
+		throw XMLError("malformed TimeCodeRate " + xml->string_child("TimeCodeRate"));
+	}
 	if (xml->optional_string_child ("StartTime")) {
 		_start_time = Time (xml->string_child("StartTime"), _time_code_rate);
 	}
-- 
2.43.0


From f989fc11058971349b4ca473de4f38d95ca67428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:18 +0000
Subject: [PATCH 098/100] fix: verify compositions with empty reels or zero
 edit rates

---
 src/reel.cc   | 5 ++---
 src/verify.cc | 8 ++++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/reel.cc b/src/reel.cc
index 44221c4..f645d0d 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -494,9 +494,8 @@ Reel::duration () const
 		d = min (d, _atmos->actual_duration());
 	}
 
-	DCP_ASSERT (d < INT64_MAX);
-
-	return d;
+	/* A CPL may have a reel with nothing in it */
+	return d < INT64_MAX ? d : 0;
 }
 
 
diff --git a/src/verify.cc b/src/verify.cc
index 9f0f1ba..6b02690 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1427,11 +1427,15 @@ verify_reel(
 	map<Marker, Time>* markers_seen
 	)
 {
+	auto less_than_one_second = [](int64_t duration, Fraction edit_rate) {
+		return edit_rate.numerator == 0 || (static_cast<double>(duration) * edit_rate.denominator / edit_rate.numerator) < 1;
+	};
+
 	for (auto i: reel->file_assets()) {
-		if (i->duration() && (i->duration().get() * i->edit_rate().denominator / i->edit_rate().numerator) < 1) {
+		if (i->duration() && less_than_one_second(i->duration().get(), i->edit_rate())) {
 			context.add_note(VerificationNote(VerificationNote::Code::INVALID_DURATION).set_asset_id(i->id()));
 		}
-		if ((i->intrinsic_duration() * i->edit_rate().denominator / i->edit_rate().numerator) < 1) {
+		if (less_than_one_second(i->intrinsic_duration(), i->edit_rate())) {
 			context.add_note(VerificationNote(VerificationNote::Code::INVALID_INTRINSIC_DURATION).set_asset_id(i->id()));
 		}
 		if (i->encryptable() && !i->hash()) {
-- 
2.43.0


From 3dbd83a0407aba142f01ddb90f98a7173fcda508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:18 +0000
Subject: [PATCH 099/100] fix: report anything that stops a DCP from being read
 when verifying it

---
 src/verify.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 6b02690..8317333 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1910,6 +1910,10 @@ dcp::verify (
 		} catch (xmlpp::parse_error& e) {
 			carry_on = false;
 			context.add_note(VerificationNote(VerificationNote::Code::FAILED_READ).set_error(e.what()));
+		} catch (ProgrammingError&) {
+			throw;
+		} catch (std::runtime_error& e) {
+			context.add_note(VerificationNote(VerificationNote::Code::FAILED_READ).set_error(e.what()));
 		}
 
 		if (!carry_on) {
-- 
2.43.0


From a0e031849ab6f1943900480baee186245f071be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:53:15 +0000
Subject: [PATCH 100/100] fix: give the present the right offset when the
 clocks change as it is found

The time and the offset from UTC were found by looking at the clock twice, so
if the clocks changed in between the result was wrong by an hour.
---
 src/local_time.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/local_time.cc b/src/local_time.cc
index 8a18535..7a35cc7 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -60,6 +60,10 @@ LocalTime::LocalTime ()
 	struct tm tm;
 	set (boost::date_time::c_time::localtime(&now, &tm));
 	set_local_time_zone ();
+	if (time(0) != now) {
+		/* The clock moved on while we were looking at it, so our offset may not be the one for our time */
+		*this = LocalTime();
+	}
 }
 
 
-- 
2.43.0

