From 85a9677043250ced0709c63f2637f442b93d1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 01/72] fix: never insert a soft line break between CR and LF
 in quoted-printable text mode

---
 src/vmime/utility/encoder/qpEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..5da6ee5 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -343,8 +343,9 @@ size_t qpEncoder::encode(
 
 			} // switch (c)
 
-			// Soft line break : "=\r\n"
-			if (cutLines && curCol >= maxLineLength - 1) {
+			// Soft line break : "=\r\n" (never between the CR and the LF
+			// of a line break in text data)
+			if (cutLines && curCol >= maxLineLength - 1 && !(text && c == 13)) {
 
 				outBuffer[outBufferPos] = '=';
 				outBuffer[outBufferPos + 1] = '\r';
-- 
2.43.0


From a14eb0880b3b08f5d7c3a716c4d089e47aee0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 02/72] fix: decode uuencoded lines whose length is not a
 multiple of 3, and never read past the line buffer

---
 src/vmime/utility/encoder/uuEncoder.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..83a233e 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -155,9 +155,9 @@ size_t uuEncoder::decode(
 
 	in.reset();  // may not work...
 
-	// Process the data
-	byte_t inBuffer[64];
-	byte_t outBuffer[64];
+	// Process the data (at most 63 bytes per line, encoded in 21 groups of 4 characters)
+	byte_t inBuffer[84];
+	byte_t outBuffer[63];
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -180,7 +180,7 @@ size_t uuEncoder::decode(
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;  // groups are always complete
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -289,6 +289,11 @@ size_t uuEncoder::decode(
 
 		}
 
+		// Not a valid line
+		if (inPos > inLength) {
+			break;
+		}
+
 		// Read encoded data
 		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
 			// Premature end of data
@@ -305,7 +310,7 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
+			const size_t n = std::min(outLength - j, static_cast <size_t>(3));
 
 			if (n >= 3) {
 				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
-- 
2.43.0


From 818532d6baabbab406fa3f14ae09c08e87bc89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 03/72] fix: do not include the mode in the file name of
 uuencoded data

---
 src/vmime/utility/encoder/uuEncoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 83a233e..844e602 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -243,7 +243,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* modeStart = buffer;
+						byte_t* modeStart = p;
 
 						while (*p && !parserHelpers::isSpace(*p)) ++p;
 
@@ -251,7 +251,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* filenameStart = buffer;
+						byte_t* filenameStart = p;
 
 						while (*p && !(*p == '\r' || *p == '\n')) ++p;
 
-- 
2.43.0


From 87d862698c93068fa13d7390d0ff745b4906d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 04/72] fix: do not lose uuencoded data when the input stream
 returns short reads

---
 src/vmime/utility/encoder/uuEncoder.cpp | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 844e602..d834764 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -64,6 +64,26 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 }
 
 
+// Read exactly 'count' bytes, unless the end of the stream is reached
+static size_t readFully(utility::inputStream& in, byte_t* const data, const size_t count) {
+
+	size_t pos = 0;
+
+	while (pos < count) {
+
+		const size_t n = in.read(data + pos, count - pos);
+
+		if (n == 0) {
+			break;
+		}
+
+		pos += n;
+	}
+
+	return pos;
+}
+
+
 size_t uuEncoder::encode(
 	utility::inputStream& in,
 	utility::outputStream& out,
@@ -196,7 +216,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readFully(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -272,7 +292,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readFully(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -295,7 +315,7 @@ size_t uuEncoder::decode(
 		}
 
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+		if (readFully(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
 			// Premature end of data
 			break;
 		}
-- 
2.43.0


From 6d6d1e8784fca7c85b7590d22105bd482880b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 05/72] fix: uuencode with a line length of 0 or 1 overflowed a
 buffer or never ended

---
 src/vmime/utility/encoder/uuEncoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index d834764..241a900 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -95,8 +95,11 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	// At least one byte, and at most 45 bytes per line
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
 
 	size_t total = 0;
 	size_t inTotal = 0;
-- 
2.43.0


From 9219abd4cdc4dadbd3545b49fdf3d9fd59afdc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 06/72] fix: a line ending right after a dot no longer gets an
 extra dot and a duplicated byte when the data is split there

---
 src/vmime/utility/filteredStream.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..bac310c 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -154,15 +154,14 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	// A single <DOT> has been written so far, wait for the next character
+	if (m_start && m_previousChar == '.') {
 
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
+
+		m_start = false;
 	}
 
 	// Replace "\n." with "\n.."
@@ -194,8 +193,8 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	}
 
 	m_stream.write(start, end - start);
+	m_start = (m_start && count == 1 && data[0] == '.');
 	m_previousChar = data[count - 1];
-	m_start = false;
 }
 
 
-- 
2.43.0


From 02fa21e7f07263537cbc44158beb7b24073f7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 07/72] fix: send a message which is only a dot as two dots, so
 that it does not end the data

---
 src/vmime/utility/filteredStream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index bac310c..54325ee 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -200,7 +200,13 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 
 void dotFilteredOutputStream::flush() {
 
-	// Do nothing
+	// The content is a single <DOT>: it would end the data
+	if (m_start && m_previousChar == '.') {
+
+		m_stream.write(".", 1);  // extra <DOT>
+		m_start = false;
+	}
+
 	m_stream.flush();
 }
 
-- 
2.43.0


From 6280ff1a9e1a581f90fd1ce54ee1687906d11ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 08/72] fix: do not lose a carriage return at the end of the
 data in CRLFToLFFilteredOutputStream

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 2 ++
 src/vmime/utility/filteredStream.cpp         | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..32b4ee8 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -213,6 +213,8 @@ void sendmailTransport::internalSend(
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
+	fos.flush();
+
 	// Wait for sendmail to exit
 	proc->waitForFinish();
 }
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 54325ee..e121111 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -287,9 +287,13 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	if (m_previousChar == '\r') {
 
-	// TODO
+		m_stream.write("\r", 1); // write back \r
+		m_previousChar = '\0';
+	}
+
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From ed6cf33d000918316d8f89d91fe4d1bb2b0cf3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 09/72] fix: reset the end-of-stream state of
 stopSequenceFilteredInputStream

---
 src/vmime/utility/filteredStream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..4dfc164 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -236,6 +236,7 @@ public:
 	void reset() {
 
 		m_found = 0;
+		m_eof = false;
 		m_stream.reset();
 	}
 
-- 
2.43.0


From a7e601b85138831c4ddc60936e9bf0a31ff3605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 10/72] fix: bracket only IPv6 addresses when building a URL

urlUtils::encodeHost did not check the first and last characters and
took host names made of hexadecimal digits only, or of two characters,
for IPv6 addresses.
---
 src/vmime/utility/urlUtils.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/urlUtils.cpp b/src/vmime/utility/urlUtils.cpp
index ca0f9c6..a487b84 100644
--- a/src/vmime/utility/urlUtils.cpp
+++ b/src/vmime/utility/urlUtils.cpp
@@ -68,16 +68,22 @@ const string urlUtils::encode(const string& s) {
 
 const string urlUtils::encodeHost(const string& s) {
 
-	if (s.size() == 0) {
-		return encode(s);
-	}
+	// Only IPv6 addresses are enclosed in brackets
+	bool hasColon = false;
+
+	for (string::const_iterator it = s.begin() ; it != s.end() ; ++it) {
 
-	for (auto it = s.begin() + 1 ; it != s.end() - 1 ; ++it) {
-		if (!parserHelpers::isXDigit(*it) && *it != ':') {
+		if (*it == ':') {
+			hasColon = true;
+		} else if (!parserHelpers::isXDigit(*it)) {
 			return encode(s);
 		}
 	}
 
+	if (!hasColon) {
+		return encode(s);
+	}
+
 	return "[" + s + "]";
 }
 
-- 
2.43.0


From 464bad93dad8275389fc697ee9e882bfa494f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 11/72] fix: do not look for the user name of a URL before its
 scheme separator

---
 src/vmime/utility/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index f0d9c65..203569d 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -245,7 +245,7 @@ void url::parse(const string& str) {
 
 	} else {
 
-		if (atPos != string::npos && atPos < slashPos) {
+		if (atPos != string::npos && atPos >= protoEnd + 3 && atPos < slashPos) {
 
 			const string userPart(str.begin() + protoEnd + 3, str.begin() + atPos);
 			const size_t colonPos = userPart.find(':');
-- 
2.43.0


From 1cb2813a92f8ca33add3a2c73babe57c1425f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 12/72] fix: is7bit() must accept every ASCII-only string,
 including '=' before '?' or at the end

---
 src/vmime/utility/stringUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/stringUtils.cpp b/src/vmime/utility/stringUtils.cpp
index 823a3ea..9fed981 100644
--- a/src/vmime/utility/stringUtils.cpp
+++ b/src/vmime/utility/stringUtils.cpp
@@ -166,7 +166,7 @@ size_t stringUtils::countASCIIchars(
 
 bool stringUtils::is7bit(const string& str) {
 
-	return countASCIIchars(str.begin(), str.end()) == str.length();
+	return findFirstNonASCIIchar(str.begin(), str.end()) == string::npos;
 }
 
 
-- 
2.43.0


From 88f1cffb784ce09f84195a3fffa013841362d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 13/72] fix: two digits per byte in makeHexStringFromBytes()

---
 src/vmime/utility/stringUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/stringUtils.hpp b/src/vmime/utility/stringUtils.hpp
index a4b05ec..6a3fdef 100644
--- a/src/vmime/utility/stringUtils.hpp
+++ b/src/vmime/utility/stringUtils.hpp
@@ -28,6 +28,7 @@
 #include "vmime/types.hpp"
 #include "vmime/base.hpp"
 
+#include <iomanip>
 #include <sstream>
 #include <iostream>
 
@@ -62,7 +63,7 @@ public:
 		std::stringstream ss;
 		for (const byte_t& b : data)
 		{
-			ss << std::hex << int(b);
+			ss << std::hex << std::setw(2) << std::setfill('0') << int(b);
 		}
 		return ss.str();
 	}
-- 
2.43.0


From 32a179dc30791dd74fc1d9b973492ab6f1bb1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 14/72] fix: keep dates normalised when adding or subtracting
 zones of a day or more

---
 src/vmime/utility/datetimeUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/datetimeUtils.cpp b/src/vmime/utility/datetimeUtils.cpp
index b1a6c55..5ce213e 100644
--- a/src/vmime/utility/datetimeUtils.cpp
+++ b/src/vmime/utility/datetimeUtils.cpp
@@ -109,7 +109,7 @@ static inline void addHoursAndMinutes(datetime& d, const int h, const int m) {
 
 	d.setHour(d.getHour() + h);
 
-	if (d.getHour() >= 24) {
+	while (d.getHour() >= 24) {
 		d.setHour(d.getHour() - 24);
 		nextDay(d);
 	}
@@ -125,11 +125,11 @@ static inline void substractHoursAndMinutes(datetime& d, const int h, const int
 		d.setMinute(d.getMinute() - m);
 	}
 
-	if (h > d.getHour()) {
-		d.setHour(24 - (h - d.getHour()));
+	d.setHour(d.getHour() - h);
+
+	while (d.getHour() < 0) {
+		d.setHour(d.getHour() + 24);
 		prevDay(d);
-	} else {
-		d.setHour(d.getHour() - h);
 	}
 }
 
-- 
2.43.0


From b80cc66fa4de8140f3c72a4491d83bfcf5cfbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 15/72] fix: no integer overflow on the numbers of a date

---
 src/vmime/dateTime.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..ecc598d 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -75,6 +75,9 @@ static const char* monthNames[] = {
 	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec"
 };
 
+// Maximum value of the numbers found when parsing (larger ones are truncated)
+static const int MAX_FIELD_VALUE = 999999;
+
 void datetime::parseImpl(
 	parsingContext& /* ctx */,
 	const string& buffer,
@@ -117,7 +120,7 @@ void datetime::parseImpl(
 				int day = 0;
 
 				do {
-					day = day * 10 + (*p - '0');
+					day = std::min(day * 10 + (*p - '0'), MAX_FIELD_VALUE);
 					++p;
 				} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -260,7 +263,7 @@ void datetime::parseImpl(
 			int day = 0;
 
 			do {
-				day = day * 10 + (*p - '0');
+				day = std::min(day * 10 + (*p - '0'), MAX_FIELD_VALUE);
 				++p;
 			} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -285,7 +288,7 @@ void datetime::parseImpl(
 				int year = 0;
 
 				do {
-					year = year * 10 + (*p - '0');
+					year = std::min(year * 10 + (*p - '0'), MAX_FIELD_VALUE);
 					++p;
 				} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -312,7 +315,7 @@ void datetime::parseImpl(
 			int hour = 0;
 
 			do {
-				hour = hour * 10 + (*p - '0');
+				hour = std::min(hour * 10 + (*p - '0'), MAX_FIELD_VALUE);
 				++p;
 			} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -332,7 +335,7 @@ void datetime::parseImpl(
 					int minute = 0;
 
 					do {
-						minute = minute * 10 + (*p - '0');
+						minute = std::min(minute * 10 + (*p - '0'), MAX_FIELD_VALUE);
 						++p;
 					} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -352,7 +355,7 @@ void datetime::parseImpl(
 							int second = 0;
 
 							do {
-								second = second * 10 + (*p - '0');
+								second = std::min(second * 10 + (*p - '0'), MAX_FIELD_VALUE);
 								++p;
 							} while (p < pend && parserHelpers::isDigit(*p));
 
@@ -399,7 +402,7 @@ void datetime::parseImpl(
 			int offset = 0;
 
 			do {
-				offset = offset * 10 + (*p - '0');
+				offset = std::min(offset * 10 + (*p - '0'), MAX_FIELD_VALUE);
 				++p;
 			} while (p < pend && parserHelpers::isDigit(*p));
 
-- 
2.43.0


From c252d87a01d64a8b54375b111dafe03b4a5b4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 16/72] fix: do not keep fields of the previous value when
 parsing a date

---
 src/vmime/dateTime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index ecc598d..94e4314 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -89,6 +89,11 @@ void datetime::parseImpl(
 	const char* const pend = buffer.data() + end;
 	const char* p = buffer.data() + position;
 
+	m_day = 1;
+	m_hour = 0;
+	m_minute = 0;
+	m_second = 0;
+
 	// Parse the date and time value
 	while (p < pend && parserHelpers::isSpace(*p)) ++p;
 
-- 
2.43.0


From a1b2a2f4a3936b840e4f42f49bbf413f55fd6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 17/72] fix: do not pass negative characters to isalpha() when
 parsing a date

---
 src/vmime/dateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 94e4314..a3c0113 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -420,7 +420,7 @@ void datetime::parseImpl(
 				m_zone = -(hourOff * 60 + minOff);
 			}
 
-		} else if (p < pend && isalpha(*p)) {
+		} else if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			bool done = false;
 
-- 
2.43.0


From f6f91d1a718905e4bba00022612c9af9899a750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 18/72] fix: parsed dates have a day that exists in their month

---
 src/vmime/dateTime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index a3c0113..a13dec8 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -591,6 +591,11 @@ void datetime::parseImpl(
 		m_zone = 0;
 	}
 
+	// The day does not exist in this month
+	if (m_day > utility::datetimeUtils::getDaysInMonth(m_year, m_month)) {
+		m_day = 1;
+	}
+
 	setParsedBounds(position, end);
 
 	if (newPosition) {
-- 
2.43.0


From 93a095927c87b0d1858572f5436ac6bc8e589217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 19/72] fix: header parsing read and advanced past the end of
 the given range

---
 src/vmime/headerField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..2b8cec8 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -123,7 +123,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] != ':') {
+			if (pos == end || buffer[pos] != ':') {
 
 				// header field recovery is necessary, update flag in parsing context
 				ctx.setHeaderRecoveryNeeded(true);
@@ -248,7 +248,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] == '\n') {
+			if (pos < end && buffer[pos] == '\n') {
 				++pos;
 			}
 		}
-- 
2.43.0


From a8c7402289b423a391124487bfb8da55ae963e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 20/72] fix: parsing from a stream whose reads return less than
 asked missed tokens and matches

---
 .../utility/parserInputStreamAdapter.cpp      | 35 +++++++++++++------
 .../utility/parserInputStreamAdapter.hpp      | 12 ++++++-
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..f70b2e1 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -58,6 +58,25 @@ shared_ptr <seekableInputStream> parserInputStreamAdapter::getUnderlyingStream()
 }
 
 
+size_t parserInputStreamAdapter::readFully(byte_t* const data, const size_t count) const {
+
+	size_t readBytes = 0;
+
+	while (readBytes < count) {
+
+		const size_t n = m_stream->read(data + readBytes, count - readBytes);
+
+		if (n == 0) {
+			break;  // end of stream
+		}
+
+		readBytes += n;
+	}
+
+	return readBytes;
+}
+
+
 const string parserInputStreamAdapter::extract(const size_t begin, const size_t end) const {
 
 	const size_t initialPos = m_stream->getPosition();
@@ -70,7 +89,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readFully(buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -115,12 +134,10 @@ size_t parserInputStreamAdapter::findNext(
 		size_t findBufferLen = 0;
 		size_t findBufferOffset = 0;
 
-		bool isEOF = false;
-
 		// Fill in initial buffer
-		findBufferLen = read(findBuffer, BUFFER_SIZE);
+		findBufferLen = readFully(findBuffer, BUFFER_SIZE);
 
-		while (findBufferLen != 0) {
+		while (findBufferLen >= token.length()) {
 
 			// Find token
 			for (byte_t *begin = findBuffer, *end = findBuffer + findBufferLen - token.length() ;
@@ -142,17 +159,13 @@ size_t parserInputStreamAdapter::findNext(
 			memcpy(findBuffer1, findBuffer2, (BUFFER_SIZE / 2));
 
 			// Read more bytes
-			if (findBufferLen < BUFFER_SIZE && (eof() || isEOF)) {
+			if (findBufferLen < BUFFER_SIZE) {
 
 				break;
 
 			} else {
 
-				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
-
-				if (bytesRead == 0) {
-					isEOF = true;
-				}
+				const size_t bytesRead = readFully(findBuffer2, BUFFER_SIZE / 2);
 
 				findBufferLen = (BUFFER_SIZE / 2) + bytesRead;
 				findBufferOffset += (BUFFER_SIZE / 2);
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..ffc2981 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,7 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			const size_t readBytes = readFully(buffer, length);
 
 			m_stream->seek(initialPos);
 
@@ -161,6 +161,16 @@ public:
 
 private:
 
+	/** Read exactly the specified number of bytes, unless the end of the
+	  * stream is reached before. The underlying stream may return less bytes
+	  * than requested even if its end is not reached.
+	  *
+	  * @param data buffer in which to write the bytes
+	  * @param count number of bytes to read
+	  * @return number of bytes read
+	  */
+	size_t readFully(byte_t* const data, const size_t count) const;
+
 	mutable shared_ptr <seekableInputStream> m_stream;
 };
 
-- 
2.43.0


From 4b40301ad515a99600be46cc77983bc35a6ffe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 21/72] fix: a token that starts with a non-ASCII byte was
 never found when parsing

---
 src/vmime/utility/parserInputStreamAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index f70b2e1..5ae6933 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -143,7 +143,7 @@ size_t parserInputStreamAdapter::findNext(
 			for (byte_t *begin = findBuffer, *end = findBuffer + findBufferLen - token.length() ;
 			     begin <= end ; ++begin) {
 
-				if (begin[0] == token[0] &&
+				if (begin[0] == static_cast <byte_t>(token[0]) &&
 				    (token.length() == 1 ||
 				     memcmp(static_cast <const void *>(&begin[1]),
 				            static_cast <const void *>(token.data() + 1),
-- 
2.43.0


From 5bc51c6fb65e0abfc9cd2ae289ee2305daa4a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 22/72] fix: a boundary beyond the end of the part, or a last
 false boundary, lost the last part

---
 src/vmime/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..ab0e2ae 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -75,7 +75,7 @@ size_t body::findNextBoundaryPosition(
 
 		pos = parser->findNext(boundary, pos);
 
-		if (pos == npos) {
+		if (pos == npos || pos + boundary.length() > end) {
 			break;  // not found
 		}
 
@@ -118,7 +118,7 @@ size_t body::findNextBoundaryPosition(
 		return pos;
 	}
 
-	return pos;
+	return npos;
 }
 
 
-- 
2.43.0


From e8101a288df11dbbfe9b8c2cb1ce2e80931d48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 23/72] fix: parsing an empty body kept the contents of the
 body parsed before

---
 src/vmime/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index ab0e2ae..376a983 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -137,6 +137,8 @@ void body::parseImpl(
 
 	if (end == position) {
 
+		m_contents = make_shared <emptyContentHandler>();
+
 		setParsedBounds(position, end);
 
 		if (newPosition) {
-- 
2.43.0


From 484e6d65df6659a7dd7292c64c4ff649806343f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 24/72] fix: guessing a missing boundary read bytes that were
 not read from the stream

---
 src/vmime/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 376a983..3680946 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -196,7 +196,7 @@ void body::parseImpl(
 					// Read some bytes after boundary separator
 					byte_t buffer[256];
 					const size_t bufferLen =
-						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
+						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0]) - 1));
 
 					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
 
@@ -214,7 +214,7 @@ void body::parseImpl(
 					size_t boundaryLen = 0;
 
 					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
+					     boundarySkip + boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
 					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
 
 						boundaryBytes[boundaryLen] = c;
-- 
2.43.0


From 4921abcc9f55cae1df71d83c787e2f6efb60a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 25/72] fix: a closing boundary followed by junk, which is
 skipped, ended the multipart body

---
 src/vmime/body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 3680946..6668117 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -288,6 +288,7 @@ void body::parseImpl(
 				 * unspecified, so we might as well skip it to
 				 * facilitate broken mails.
 				 */
+				lastPart = false;
 				boundaryEnd += parser->skipIf([](char_t c) { return c != '\n'; }, end);
 				pos = findNextBoundaryPosition(parser, boundary, boundaryEnd, end, &boundaryStart, &boundaryEnd);
 				--index;
-- 
2.43.0


From 2589f88cef2d4500203fd8fc5c9680efc78a6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 26/72] fix: inputStreamStringAdapter on a sub-range read past
 its end and overflowed the buffer

---
 src/vmime/utility/inputStreamStringAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..4de30f9 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -68,7 +68,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
-- 
2.43.0


From c6f63dfd3dd3e563a48452091f29d2188bf3cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 27/72] fix: bufferedStreamCopyRange started too early when the
 stream skipped less than asked

---
 src/vmime/utility/streamUtils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/streamUtils.cpp b/src/vmime/utility/streamUtils.cpp
index 793973c..702bc70 100644
--- a/src/vmime/utility/streamUtils.cpp
+++ b/src/vmime/utility/streamUtils.cpp
@@ -62,7 +62,15 @@ size_t bufferedStreamCopyRange(
 	const size_t blockSize =
 		std::min(is.getBlockSize(), os.getBlockSize());
 
-	is.skip(start);
+	// A stream may skip less than requested: go on until position is reached
+	for (size_t skipped = 0, count = 0 ; skipped < start ; skipped += count) {
+
+		count = is.skip(start - skipped);
+
+		if (count == 0) {
+			break;
+		}
+	}
 
 	std::vector <byte_t> vbuffer(blockSize);
 
-- 
2.43.0


From d60f64a6d95b91fde335acf6704f0b435688e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 28/72] fix: POP3 replies +Ok and +ok were taken for errors

---
 src/vmime/net/pop3/POP3Response.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..93dbea9 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -431,7 +431,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
-- 
2.43.0


From 461c6e65eec8c339baec5b1370e5ab36d0f0ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 29/72] fix: POP3 dot unstuffing depended on how the reply was
 cut into receives

---
 src/vmime/net/pop3/POP3Response.cpp | 32 ++++++++---------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 93dbea9..30ba6c8 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -201,8 +201,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 	buffer.clear();
 
-	char last1 = '\0', last2 = '\0';
-
 	for ( ; !foundTerminator ; ) {
 
 		// Check whether the time-out delay is elapsed
@@ -235,28 +233,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			m_timeoutHandler->resetTimeOut();
 		}
 
-		// Check for transparent characters: '\n..' becomes '\n.'
-		const char first = receiveBuffer[0];
-
-		if (first == '.' && last2 == '\n' && last1 == '.') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-
-		} else if (receiveBuffer.length() >= 2 && first == '.' &&
-		           receiveBuffer[1] == '.' && last1 == '\n') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-		}
-
-		for (size_t trans ;
-		     string::npos != (trans = receiveBuffer.find("\n..")) ; ) {
-
-			receiveBuffer.replace(trans, 3, "\n.");
-		}
-
-		last1 = receiveBuffer[receiveBuffer.length() - 1];
-		last2 = static_cast <char>((receiveBuffer.length() >= 2) ? receiveBuffer[receiveBuffer.length() - 2] : 0);
-
 		// Append the data to the response buffer
 		buffer += receiveBuffer;
 
@@ -274,6 +250,14 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			foundTerminator = checkTerminator(buffer, false);
 		}
 	}
+
+	// Check for transparent characters: '\n..' becomes '\n.' (once the response is
+	// complete, so that a transparent '.' is not mistaken for the terminator)
+	for (size_t trans = 0 ;
+	     string::npos != (trans = buffer.find("\n..", trans)) ; trans += 2) {
+
+		buffer.erase(trans + 1, 1);
+	}
 }
 
 
-- 
2.43.0


From 89a058af3589aa5e41abe3a9323e934a590d6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 30/72] fix: SHA-1 digests computed at the same time in two
 threads were wrong (static work area)

---
 src/vmime/security/digest/sha1/sha1MessageDigest.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
index c098f14..7832016 100644
--- a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
+++ b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
@@ -211,10 +211,9 @@ void sha1MessageDigest::transform(
 
 	assert(sizeof(unsigned int) == 4);
 
-	CHAR64LONG16* block;
-	static unsigned char workspace[64];
+	CHAR64LONG16 workspace;
+	CHAR64LONG16* block = &workspace;
 
-	block = reinterpret_cast <CHAR64LONG16*>(workspace);
 	memcpy(block, buffer, 64);
 
 	// Copy context->state[] to working vars
-- 
2.43.0


From 0fd69ec75b2c0910f3cd79a404ea5aa60265bf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 31/72] fix: SHA-1 never ended for 4 GiB or more given at once
 (32-bit position)

---
 src/vmime/security/digest/sha1/sha1MessageDigest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
index 7832016..814e39e 100644
--- a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
+++ b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
@@ -103,7 +103,7 @@ void sha1MessageDigest::update(const byte_t* buffer, const size_t offset, const
 
 void sha1MessageDigest::update(const byte_t* buffer, const size_t len) {
 
-	unsigned int i, j;
+	size_t i, j;
 
 	j = (m_count[0] >> 3) & 63;
 
-- 
2.43.0


From cefe77fa6a4fe03a648245409048947e5cd6c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 32/72] fix: IMAP folder names with '+', '~' or '\' were
 decoded wrongly (special characters in UTF-7)

---
 src/vmime/net/imap/IMAPUtils.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..fd70406 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -370,6 +370,28 @@ const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 				out += (inB64sequence ? '/' : ',');
 				break;
 			}
+			// These characters do not stand for themselves in UTF-7
+			case '+':
+			case '\\':
+			case '~': {
+
+				if (!inB64sequence) {
+
+					out += '+';
+
+					if (c == '\\') {
+						out += "AFw-";
+					} else if (c == '~') {
+						out += "AH4-";
+					} else if (it + 1 == text.end() || *(it + 1) != '-') {  // "+-" is left as it is
+						out += '-';
+					}
+
+					break;
+				}
+
+				// Falls through
+			}
 			default: {
 
 				if (inB64sequence && !plusOutput) {
-- 
2.43.0


From b62191cd8961b3ae96c3e17ae9a761093e3a11fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 33/72] fix: IMAP hierarchy separator inside a folder name was
 not escaped after a non-ASCII character

---
 src/vmime/net/imap/IMAPUtils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index fd70406..2e86e54 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -209,7 +209,17 @@ const string IMAPUtils::toModifiedUTF7(
 		const unsigned char c = cvt[i];
 
 		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
+		if (c == hierarchySeparator) {
+
+			if (base64) {
+
+				if (k > 10) {
+					out += base64alphabet[b];
+				}
+
+				out += '-';
+				base64 = false;
+			}
 
 			out += "&" + hsUTF7 + "-";
 
-- 
2.43.0


From 45248ef7061cac4753eaa0a5f150bcbed62b05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 34/72] fix: IMAP folder names with characters outside the BMP
 were replaced with U+FFFE

---
 src/vmime/net/imap/IMAPUtils.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 2e86e54..ff50845 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -281,20 +281,32 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
-			if (ch & ~0xffff) {
+			if (ch > 0x10ffff) {
 				ch = 0xfffe;
 			}
 
-			out += base64alphabet[b | ch >> k];
+			// Characters outside the BMP are encoded as a surrogate pair
+			const int unitCount = (ch > 0xffff ? 2 : 1);
 
-			k -= 6;
+			for (int u = 0 ; u < unitCount ; ++u) {
 
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
-			}
+				int unit = ch;
+
+				if (unitCount == 2) {
+					unit = (u == 0 ? 0xd7c0 + (ch >> 10) : 0xdc00 | (ch & 0x3ff));
+				}
+
+				out += base64alphabet[b | unit >> k];
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+				k -= 6;
+
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(unit >> k) & 0x3f];
+				}
+
+				b = (unit << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
-- 
2.43.0


From c8bbb3bb243b52955b433c5576d6e5ab7e92b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 35/72] fix: messageSet made of an empty list was {4294967295}
 or raised std::invalid_argument

---
 src/vmime/net/messageSet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..e8b2b3c 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -216,6 +216,10 @@ messageSet messageSet::byNumber(const size_t first, const size_t last) {
 // static
 messageSet messageSet::byNumber(const std::vector <size_t>& numbers) {
 
+	if (numbers.empty()) {
+		return empty();
+	}
+
 	// Sort a copy of the list
 	std::vector <size_t> sortedNumbers;
 
@@ -289,6 +293,10 @@ messageSet messageSet::byUID(const message::uid& first, const message::uid& last
 
 messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 
+	if (uids.empty()) {
+		return empty();
+	}
+
 	std::vector <vmime_uint32> numericUIDs;
 
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
-- 
2.43.0


From 18c371029bbba2a6664906bf241534e24420e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 36/72] fix: UIDs above 2147483647 overflowed in
 messageSet::byUID, and 4294967295 was lost

---
 src/vmime/net/messageSet.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index e8b2b3c..f3c5040 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -302,12 +302,19 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 
 		const string uid = uids[i];
-		int numericUID = 0;
+		vmime_uint32 numericUID = 0;
 
 		const char* p = uid.c_str();
 
 		for ( ; *p >= '0' && *p <= '9' ; ++p) {
-			numericUID = (numericUID * 10) + (*p - '0');
+
+			const vmime_uint32 digit = static_cast <vmime_uint32>(*p - '0');
+
+			if (numericUID > (static_cast <vmime_uint32>(-2) - digit) / 10) {
+				break;  // too large to be handled as a number
+			}
+
+			numericUID = (numericUID * 10) + digit;
 		}
 
 		if (*p != '\0') {
-- 
2.43.0


From de9eb906ff08728cab62ca4c18d8fe452e13554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 37/72] fix: assigning a messageSet shared its ranges, which
 were then deleted twice

---
 src/vmime/net/messageSet.cpp | 9 +++++++++
 src/vmime/net/messageSet.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index f3c5040..a86e11f 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	m_ranges.swap(copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From 5c4b4e72a20169a5f4b4bebc1df6d3954ed4bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 38/72] fix: encoded words split inside a Base64 group could
 make the parser throw std::length_error

---
 src/vmime/word.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..9a2e803 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -396,8 +396,8 @@ void word::parseWithState(
 							const size_t theoricalEncodedLen =
 								((decodedLen + ((decodedLen % 3) ? (3 - (decodedLen % 3)) : 0) ) / 3) * 4;
 
-							if (state && actualEncodedLen != theoricalEncodedLen) {
-								state->undecodedBytes.assign(dataPos + theoricalEncodedLen, dataEnd);
+							if (state && actualEncodedLen > theoricalEncodedLen) {
+								state->undecodedBytes = encodedBuffer.substr(theoricalEncodedLen);
 							}
 						}
 
-- 
2.43.0


From e07df4001cff19bff7cb3193c68550206c1e0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 39/72] fix: an encoded word cut by the end of the parsed range
 was read past that end

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 9a2e803..3f5e282 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -324,7 +324,7 @@ void word::parseWithState(
 				//const string::const_iterator encEnd = p;
 				const string::const_iterator dataPos = ++p; // skip '?'
 
-				for ( ; p != pend && !(*p == '?' && *(p + 1) == '=') ; ++p) {}
+				for ( ; p != pend && !(*p == '?' && p + 1 != pend && *(p + 1) == '=') ; ++p) {}
 
 				if (p != pend) {  // some data is specified
 
-- 
2.43.0


From 7eef95d9e91762cff27a796b99c2ceec3ab95fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 40/72] fix: blank between an encoded word and text was lost
 when the text ended with a folded line

---
 src/vmime/word.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 3f5e282..e6c955b 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -226,17 +226,16 @@ shared_ptr <word> word::parseNext(
 	}
 
 	if (startPos != end) {
-
-		if (state->prevIsEncoded && !state->isFirst) {
-			unencoded = whiteSpaces + unencoded;
-		}
-
 		unencoded += buffer.substr(startPos, end - startPos);
 	}
 
 	// Treat unencoded text at the end of the buffer
 	if (!unencoded.empty()) {
 
+		if (state->prevIsEncoded && !state->isFirst) {
+			unencoded = whiteSpaces + unencoded;
+		}
+
 		shared_ptr <word> w = make_shared <word>(unencoded, defaultCharset);
 		w->setParsedBounds(position, end);
 
-- 
2.43.0


From 8c267f9e0e5a4d59c93ce3744475f360fc1b987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 41/72] fix: text in a charset that cannot be converted was
 lost when only two encoded characters fit on the line

---
 src/vmime/wordEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 404a57b..b01f988 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -147,7 +147,7 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			// bytes to encode knowing the maximum number of encoded chars. In
 			// Base64 encoding, 3 bytes of input provide 4 bytes of output.
 			const size_t inputCount =
-				std::min(remaining, (maxLength > 1) ? ((maxLength - 1) * 3) / 4 : 1);
+				std::min(remaining, (maxLength > 2) ? ((maxLength - 1) * 3) / 4 : 1);
 
 			// Encode chunk
 			utility::inputStreamStringAdapter in(m_buffer, m_pos, m_pos + inputCount);
-- 
2.43.0


From 97b3994046c748ed5ae05db70be7cc2c382bbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 42/72] fix: a blank was added before a long text following an
 encoded word, each time it was generated

---
 src/vmime/word.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index e6c955b..3209dfd 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -641,7 +641,9 @@ void word::generate(
 
 				if (curLineLength != NEW_LINE_SEQUENCE_LENGTH &&
 				    !state->isFirstWord &&
-				    state->prevWordIsEncoded) {
+				    state->prevWordIsEncoded &&
+				    !state->lastCharIsSpace &&
+				    !parserHelpers::isSpace(*curLineStart)) {
 
 					os << " "; // Separate from previous word
 				}
-- 
2.43.0


From 01b75651ea600ef3a015076a5962f37faf87f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 43/72] fix: copy of a word lost its language

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 3209dfd..e9bf6aa 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -882,7 +882,7 @@ const string word::getConvertedText(
 
 shared_ptr <component> word::clone() const {
 
-	return make_shared <word>(m_buffer, m_charset);
+	return make_shared <word>(m_buffer, m_charset, m_lang);
 }
 
 
-- 
2.43.0


From add1aa2acd1438d29a577f010a5c7340f1d8aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 44/72] fix: a blank at the beginning of an encoded word was
 doubled when it was written on a new line

---
 src/vmime/word.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index e9bf6aa..43aeb6c 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -749,6 +749,12 @@ void word::generate(
 			os << NEW_LINE_SEQUENCE;
 			curLineLength = NEW_LINE_SEQUENCE_LENGTH;
 
+			// The new line already separates from the text before
+			if (!state->isFirstWord && !state->prevWordIsEncoded &&
+			    !state->lastCharIsSpace && m_buffer[0] == ' ') {
+				wordEnc.getNextChunk(1);
+			}
+
 			state->lastCharIsSpace = true;
 		}
 
-- 
2.43.0


From 25480bb5be53977d5dd47bd940fc64d2dbe0fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 45/72] fix: the signature of certificates in a chain was not
 checked (GnuTLS)

---
 .../cert/gnutls/X509Certificate_GnuTLS.cpp       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..29a274f 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -227,7 +227,21 @@ bool X509Certificate_GnuTLS::checkIssuer(const shared_ptr <const X509Certificate
 	shared_ptr <const X509Certificate_GnuTLS> issuer =
 		dynamicCast <const X509Certificate_GnuTLS>(issuer_);
 
-	return gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) >= 1;
+	// This only compares names and key identifiers...
+	if (gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) < 1) {
+		return false;
+	}
+
+	// ...so check that the issuer is allowed to sign certificates and has signed this one
+	unsigned int status = 0;
+
+	const int res = gnutls_x509_crt_verify(
+		m_data->cert, &(issuer->m_data->cert), 1,
+		GNUTLS_VERIFY_ALLOW_X509_V1_CA_CRT | GNUTLS_VERIFY_DISABLE_TIME_CHECKS,
+		&status
+	);
+
+	return res == 0 && status == 0;
 }
 
 
-- 
2.43.0


From a77e799548f55405e3c95af83ad2b0a6df383da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:30 +0000
Subject: [PATCH 46/72] fix: the signature of certificates in a chain was not
 checked (OpenSSL)

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp     | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bd5a75d..d279b13 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -358,7 +358,21 @@ bool X509Certificate_OpenSSL::checkIssuer(const shared_ptr <const X509Certificat
 	vmime::string subjOfIssuer((char*)subject, n);
 	BIO_free(out);
 
-	return subjOfIssuer == thisIssuerName;
+	if (subjOfIssuer != thisIssuerName) {
+		return false;
+	}
+
+	// Check that the issuer is allowed to sign certificates and has signed this one
+	if (X509_check_ca(cert->m_data->cert) == 0) {
+		return false;
+	}
+
+	EVP_PKEY* issuerKey = X509_get_pubkey(cert->m_data->cert);
+	const bool signedByIssuer = issuerKey && X509_verify(m_data->cert, issuerKey) == 1;
+
+	EVP_PKEY_free(issuerKey);
+
+	return signedByIssuer;
 }
 
 
-- 
2.43.0


From 26a19755cac7976f1d0a1a6d7c0886d0b439d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:30 +0000
Subject: [PATCH 47/72] fix: an empty certificate chain was accepted, for any
 host

---
 src/vmime/security/cert/defaultCertificateVerifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c41396f..abfb1eb 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -62,7 +62,7 @@ void defaultCertificateVerifier::verify(
 ) {
 
 	if (chain->getCount() == 0) {
-		return;
+		throw certificateNotTrustedException();
 	}
 
 	const string type = chain->getAt(0)->getType();
-- 
2.43.0


From 7760d6f98c20742b7db3b57ef1a34ebbe2dc0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:07 +0000
Subject: [PATCH 48/72] fix: text between two encoded words made the separating
 blank part of the second encoded word

---
 src/vmime/word.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 43aeb6c..a5e979e 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -679,6 +679,8 @@ void word::generate(
 			}
 		}
 
+		state->prevWordIsEncoded = false;
+
 	/*
 		RFC #2047:
 		4. Encodings
-- 
2.43.0


From 5a5f48d4855118f1defb06ceea2c96bfd3b30f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:39 +0000
Subject: [PATCH 49/72] fix: SMTP responses received in clear after the one to
 STARTTLS were taken as responses of the TLS connection

---
 src/vmime/net/smtp/SMTPConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..5c50a20 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -573,6 +573,9 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Discard anything received in clear before TLS was started
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From 084a56ab5db49f74ca6c19a68bf7788d0c8a6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:39 +0000
Subject: [PATCH 50/72] fix: IMAP data received in clear after the response to
 STARTTLS was taken as data of the TLS connection

---
 src/vmime/net/imap/IMAPParser.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..5d2df24 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -287,6 +287,15 @@ public:
 	void setSocket(const shared_ptr <socket>& sok) {
 
 		m_socket = sok;
+
+		// Discard anything received from the previous socket (eg. in clear, before TLS was started)
+		m_buffer.clear();
+
+		for (auto it = m_pendingResponses.begin() ; it != m_pendingResponses.end() ; ++it) {
+			delete it->second;
+		}
+
+		m_pendingResponses.clear();
 	}
 
 	/** Set the timeout handler currently used by this parser.
-- 
2.43.0


From 4eaa40b8ed93398b6136f8397364407c2bd68419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:55 +0000
Subject: [PATCH 51/72] fix: replies to pipelined SMTP commands were left
 unread when the transaction was given up

---
 src/vmime/net/smtp/SMTPTransport.cpp | 22 ++++++++++++++++++++++
 src/vmime/net/smtp/SMTPTransport.hpp |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..c30ad8c 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -300,6 +300,10 @@ void SMTPTransport::sendEnvelope(
 	if ((resp = m_connection->readResponse())->getCode() != 250) {
 		auto code = resp->getCode();
 
+		if (hasPipelining) {
+			skipPipelinedReplies(recipients.getMailboxCount(), sendDATACommand);
+		}
+
 		// SIZE extension: insufficient system storage
 		if (code == 452) {
 
@@ -340,6 +344,10 @@ void SMTPTransport::sendEnvelope(
 
 		if (code != 250 && code != 251) {
 
+			if (hasPipelining) {
+				skipPipelinedReplies(recipients.getMailboxCount() - i - 1, sendDATACommand);
+			}
+
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
 
@@ -389,6 +397,20 @@ void SMTPTransport::sendEnvelope(
 }
 
 
+void SMTPTransport::skipPipelinedReplies(const size_t rcptCount, const bool sentDATACommand) {
+
+	for (size_t i = 0 ; i < rcptCount ; ++i) {
+		m_connection->readResponse();
+	}
+
+	// If the server is now waiting for the message data, the only way
+	// to give up sending the message is to close the connection
+	if (sentDATACommand && m_connection->readResponse()->getCode() == 354) {
+		disconnect();
+	}
+}
+
+
 void SMTPTransport::send(
 	const mailbox& expeditor,
 	const mailboxList& recipients,
diff --git a/src/vmime/net/smtp/SMTPTransport.hpp b/src/vmime/net/smtp/SMTPTransport.hpp
index 6dc118a..ca941e2 100644
--- a/src/vmime/net/smtp/SMTPTransport.hpp
+++ b/src/vmime/net/smtp/SMTPTransport.hpp
@@ -121,6 +121,14 @@ private:
 		const sendOptions& options = sendOptions()
 	);
 
+	/** Read the replies to the commands which have already been sent
+	  * (pipelining) when the current transaction is given up.
+	  *
+	  * @param rcptCount number of replies to RCPT commands to read
+	  * @param sentDATACommand true if the DATA command has been sent
+	  */
+	void skipPipelinedReplies(const size_t rcptCount, const bool sentDATACommand);
+
 
 	shared_ptr <SMTPConnection> m_connection;
 
-- 
2.43.0


From fa770b8c5d8e52ed6fbd238ee37b8963b6cc6a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:55 +0000
Subject: [PATCH 52/72] fix: SMTP connection was kept in data mode when sending
 the message data failed

---
 src/vmime/net/smtp/SMTPTransport.cpp | 47 +++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index c30ad8c..363b346 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -428,17 +428,30 @@ void SMTPTransport::send(
 	// Send message envelope
 	sendEnvelope(expeditor, recipients, sender, /* sendDATACommand */ true, size, options);
 
-	// Send the message data
-	// Stream copy with "\n." to "\n.." transformation
-	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	try {
+
+		// Send the message data
+		// Stream copy with "\n." to "\n.." transformation
+		utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
+		utility::dotFilteredOutputStream fos(sos);
+
+		utility::bufferedStreamCopy(is, fos, size, progress);
+
+		fos.flush();
+
+		// Send end-of-data delimiter
+		m_connection->getSocket()->send("\r\n.\r\n");
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+	} catch (...) {
 
-	fos.flush();
+		// Server is still waiting for the end of the message data: the only
+		// way to give up sending the message is to close the connection
+		if (isConnected()) {
+			disconnect();
+		}
 
-	// Send end-of-data delimiter
-	m_connection->getSocket()->send("\r\n.\r\n");
+		throw;
+	}
 
 	if (m_connection->getTracer()) {
 		m_connection->getTracer()->traceSendBytes(size);
@@ -497,11 +510,23 @@ void SMTPTransport::send(
 	sendEnvelope(expeditor, recipients, sender, /* sendDATACommand */ false, msgSize, options);
 
 	// Send the message by chunks
-	SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
+	try {
+
+		SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
+
+		msg->generate(ctx, chunkStream);
+
+		chunkStream.flush();
+
+	} catch (...) {
 
-	msg->generate(ctx, chunkStream);
+		// A chunk may have been partly sent, or some replies may not have been read
+		if (isConnected()) {
+			disconnect();
+		}
 
-	chunkStream.flush();
+		throw;
+	}
 }
 
 
-- 
2.43.0


From d265de763def6bba86fe0225d29084c7878b27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:55 +0000
Subject: [PATCH 53/72] fix: SMTP connection was kept after a time-out, a late
 response being taken for the one to a later command

---
 src/vmime/net/smtp/SMTPConnection.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 5c50a20..be11f08 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -645,9 +645,22 @@ void SMTPConnection::sendRequest(const shared_ptr <SMTPCommand>& cmd) {
 
 shared_ptr <SMTPResponse> SMTPConnection::readResponse() {
 
-	shared_ptr <SMTPResponse> resp = SMTPResponse::readResponse(
-		m_tracer, m_socket, m_timeoutHandler, m_responseState
-	);
+	shared_ptr <SMTPResponse> resp;
+
+	try {
+
+		resp = SMTPResponse::readResponse(
+			m_tracer, m_socket, m_timeoutHandler, m_responseState
+		);
+
+	} catch (...) {
+
+		// The response may still arrive, and be taken for the response to
+		// another command: the connection can not be used any more
+		m_socket->disconnect();
+
+		throw;
+	}
 
 	m_responseState = resp->getCurrentState();
 
-- 
2.43.0


From 0b5adc45ec4a9df534a3c06ef2eb2b77a3eff714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 54/72] fix: path::renameParent renamed paths which differ from
 the old parent in its last component

---
 src/vmime/utility/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..93af03a 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -234,7 +234,7 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal || i != oldPath.m_list.size())
 		return;
 
 	list newList;
-- 
2.43.0


From 13f3df82ed69dab96abe8f75e7b4781114d6fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 55/72] fix: path::fromString left the end of a separator of
 several characters in the components

---
 src/vmime/utility/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 93af03a..948b8d9 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -295,7 +295,7 @@ path path::fromString(const string& str, const string& sep, const charset& cset)
 		   p.appendComponent(component(comp, cset));
 		}
 
-		start = end + 1;
+		start = end + sep.length();
 
 	} while (end != string::npos);
 
-- 
2.43.0


From 16fc003a30b6081914faffb4619b2ce136904c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 56/72] fix: Courier folders whose name begins with the name of
 another one were destroyed or renamed with it

---
 src/vmime/net/maildir/format/courierMaildirFormat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..efc93ea 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -303,6 +303,9 @@ bool courierMaildirFormat::listDirectories(
 			for (size_t i = 0, n = root.getSize() ; i < n ; ++i) {
 				base += "." + toModifiedUTF7(root[i]);
 			}
+
+			// A folder whose name only begins with the same characters is not a sub-folder
+			base += ".";
 		}
 
 		// Enumerate directories
-- 
2.43.0


From b9a41cb5458395093c6d40c0842dee04d1c6d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:25 +0000
Subject: [PATCH 57/72] fix: a dash in the host name of a Maildir file name
 without flags was taken for the separator of flags

---
 src/vmime/net/maildir/maildirUtils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..33a3751 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -65,7 +65,9 @@ bool maildirUtils::isMessageFile(const utility::file& file) {
 // used by Mutt/Win32, so we also use it here.
 //
 // To be compatible between implementations, we check for both
-// characters when reading file names.
+// characters when reading file names. As the identifier usually ends
+// with a host name, which may contain a dash, a dash is only taken for
+// the separator when it is followed by the "2," of the flags.
 
 
 const utility::file::path::component maildirUtils::extractId(
@@ -75,7 +77,7 @@ const utility::file::path::component maildirUtils::extractId(
 	size_t sep = filename.getBuffer().rfind(':');  // try colon
 
 	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
+		sep = filename.getBuffer().rfind("-2,");  // try dash (Windows)
 		if (sep == string::npos) return (filename);
 	}
 
@@ -90,7 +92,7 @@ int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 	size_t sep = comp.getBuffer().rfind(':');  // try colon
 
 	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
+		sep = comp.getBuffer().rfind("-2,");  // try dash (Windows)
 		if (sep == string::npos) return 0;
 	}
 
-- 
2.43.0


From f4aa5eb2aa66259361759ffce9641f947fe69185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 58/72] fix: KMail maildir: attributes of a folder without
 sub-folders

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..07c12a2 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -305,6 +305,11 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	// There is no container directory when there is no sub-folder
+	if (!rootDir->exists()) {
+		return false;
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
-- 
2.43.0


From 28a5bb0c311f7cc6e5e9dcc7f1d0c9f3ad3a7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 59/72] fix: maildir: path of the sub-folders after a folder is
 renamed

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..79cf336 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -591,7 +591,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -599,7 +599,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 9d7f7219a42bebdb8b40441ab9ab2a909cbe9c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 60/72] fix: maildir: a message whose "deleted" flag is removed
 was expunged, and one which gets another flag was not

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 79cf336..a73cf15 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -665,7 +665,7 @@ void maildirFolder::setMessageFlags(
 
 				file->rename(curDirPath / newPath);
 
-				if (flags & message::FLAG_DELETED) {
+				if (newFlags & message::FLAG_DELETED) {
 					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
 				} else {
 					m_messageInfos[num].type = messageInfos::TYPE_CUR;
-- 
2.43.0


From 4719dd1a55750bc8959f8176246c47ce5fc2a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 61/72] fix: maildir: the messages removed from the list were
 not those expunged

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index a73cf15..8e5bb59 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1185,7 +1185,7 @@ void maildirFolder::expunge() {
 	if (!nums.empty()) {
 
 		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
+			m_messageInfos.erase(m_messageInfos.begin() + (nums[i - 1] - 1));
 		}
 	}
 
-- 
2.43.0


From 963459a36cfa5f1aa5c17a48e337b92aac073417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 62/72] fix: maildir: numbers of the messages when several are
 expunged

---
 src/vmime/net/maildir/maildirFolder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 8e5bb59..33ec201 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1156,14 +1156,17 @@ void maildirFolder::expunge() {
 
 		if (infos.type == messageInfos::TYPE_DELETED) {
 
+			// Number of this message once those before it have been removed
+			const size_t curNum = num - nums.size();
+
 			nums.push_back(num);
 
 			for (std::vector <maildirMessage*>::iterator it =
 			     m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-				if ((*it)->m_num == num) {
+				if ((*it)->m_num == curNum) {
 					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
+				} else if ((*it)->m_num > curNum) {
 					(*it)->m_num--;
 				}
 			}
-- 
2.43.0


From 384293942287829306ffe648ac6037bea479b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 63/72] fix: maildir: count of unread messages after an expunge

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 33ec201..9735d42 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1171,7 +1171,7 @@ void maildirFolder::expunge() {
 				}
 			}
 
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
+			if ((maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) == 0) {
 				++unreadCount;
 			}
 
-- 
2.43.0


From 3e846fa895f0bce24d3d2a36c9fb31ffa62cfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 64/72] fix: maildir: numbers of the new messages were written
 past the end of a vector

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 9735d42..65b28da 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1089,8 +1089,8 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		std::vector <size_t> nums;
 		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
 		}
 
 		shared_ptr <events::messageCountEvent> event =
-- 
2.43.0


From 092e5296eb91bc28c7f513739c0428c58f861ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 65/72] fix: maildir: a message marked as deleted was listed
 again at each scan

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 65b28da..e337797 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -339,7 +339,7 @@ void maildirFolder::scanFolder() {
 			// "maildirUtils::messageIdComparator" to compare only the 'unique'
 			// portion of the filename...
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+			if (msgInfos.type == messageInfos::TYPE_CUR || msgInfos.type == messageInfos::TYPE_DELETED) {
 
 				const std::vector <utility::file::path::component>::iterator pos =
 					std::find_if(
-- 
2.43.0


From 317a880ba73fd0e1c4a520445cf3c5c06e7885a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 66/72] fix: maildir: a message added with the "deleted" flag
 was not expunged

---
 src/vmime/net/maildir/maildirFolder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index e337797..5522915 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -819,7 +819,12 @@ messageSet maildirFolder::addMessage(
 	// Append the message to the cache list
 	messageInfos msgInfos;
 	msgInfos.path = filename;
-	msgInfos.type = messageInfos::TYPE_CUR;
+
+	if (maildirUtils::extractFlags(filename) & message::FLAG_DELETED) {
+		msgInfos.type = messageInfos::TYPE_DELETED;
+	} else {
+		msgInfos.type = messageInfos::TYPE_CUR;
+	}
 
 	m_messageInfos.push_back(msgInfos);
 	m_messageCount++;
-- 
2.43.0


From c2abcf25448f89bb1dfa8fe0654cdce2f9d7af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 67/72] fix: maildir: numbers of messages which do not exist

---
 src/vmime/net/maildir/maildirFolder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 5522915..0dd43ef 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -644,6 +644,10 @@ void maildirFolder::setMessageFlags(
 		for (std::vector <size_t>::const_iterator it =
 			 nums.begin() ; it != nums.end() ; ++it) {
 
+			if (*it < 1 || *it > m_messageCount) {
+				throw exceptions::message_not_found();
+			}
+
 			const size_t num = *it - 1;
 
 			try {
@@ -1015,6 +1019,11 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 		     nums.begin() ; it != nums.end() ; ++it) {
 
 			const size_t num = *it;
+
+			if (num < 1 || num > m_messageCount) {
+				throw exceptions::message_not_found();
+			}
+
 			const messageInfos& msg = m_messageInfos[num - 1];
 			const int flags = maildirUtils::extractFlags(msg.path);
 
-- 
2.43.0


From f8acb08579355fd3f6ac60a6cf820bfd982d54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 68/72] fix: maildir: flags of the messages when their numbers
 are not given in order

---
 src/vmime/net/maildir/maildirFolder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 0dd43ef..6791231 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -691,7 +691,7 @@ void maildirFolder::setMessageFlags(
 				for (std::vector <maildirMessage*>::iterator it =
 					 m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
+					if (std::find(nums.begin(), nums.end(), (*it)->getNumber()) != nums.end() &&
 						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
 
 						(*it)->m_flags |= flags;
@@ -705,7 +705,7 @@ void maildirFolder::setMessageFlags(
 				for (std::vector <maildirMessage*>::iterator it =
 					 m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
+					if (std::find(nums.begin(), nums.end(), (*it)->getNumber()) != nums.end() &&
 						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
 
 						(*it)->m_flags &= ~flags;
@@ -720,7 +720,7 @@ void maildirFolder::setMessageFlags(
 				for (std::vector <maildirMessage*>::iterator it =
 					 m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
+					if (std::find(nums.begin(), nums.end(), (*it)->getNumber()) != nums.end() &&
 						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
 
 						(*it)->m_flags = flags;
-- 
2.43.0


From b447c8c8aed2fd1449381d45832d45d4ed62bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:20 +0000
Subject: [PATCH 69/72] fix: KMail maildir: renaming a folder into one which
 has no sub-folder

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 07c12a2..6d3c6ba 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -268,6 +268,13 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		const utility::file::path newContPath =
 			folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY);
 
+		// The new parent folder may not have any sub-folder yet
+		shared_ptr <utility::file> newParentDir = fsf->create(
+			folderPathToFileSystemPath(newPath.getParent(), CONTAINER_DIRECTORY)
+		);
+
+		newParentDir->createDirectory(true);
+
 		rootDir->rename(newRootPath);
 
 		// Container directory may not exist, so ignore error when trying to rename it
-- 
2.43.0


From 937dc82437b82ec6a81a02767481879b061cd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:58 +0000
Subject: [PATCH 70/72] fix: courier maildir: names of folders with a dot, a
 slash, a plus sign or an ampersand

---
 .../maildir/format/courierMaildirFormat.cpp   | 39 ++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index efc93ea..77b932b 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -400,6 +400,15 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 
 		const unsigned char c = *it;
 
+		// In UTF-7, any character which is not in the Base64 alphabet ends
+		// the Base64 sequence
+		if (inB64sequence && c != '-' && c != '+' && c != '/' &&
+		    !(c >= 'A' && c <= 'Z') && !(c >= 'a' && c <= 'z') && !(c >= '0' && c <= '9')) {
+
+			inB64sequence = false;
+			out += '-';
+		}
+
 		switch (c) {
 
 			// Beginning of Base64 sequence: replace '+' with '&'
@@ -414,11 +423,16 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 
 				break;
 			}
-			// End of Base64 sequence
+			// End of Base64 sequence (or "+-" --> "+")
 			case '-': {
 
+				if (inB64sequence && out[out.length() - 1] == '&') {
+					out[out.length() - 1] = '+';
+				} else {
+					out += '-';
+				}
+
 				inB64sequence = false;
-				out += '-';
 				break;
 			}
 			// ',' is used instead of '/' in modified Base64,
@@ -428,7 +442,7 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 				if (inB64sequence) {
 					out += ',';
 				} else {
-					out += "&Lw-";
+					out += "&AC8-";
 				}
 
 				break;
@@ -436,7 +450,7 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 			// Encode period (should not happen in a Base64 sequence)
 			case '.': {
 
-				out += "&Lg-";
+				out += "&AC4-";
 				break;
 			}
 			// '&' (0x26) is represented by the two-octet sequence "&-"
@@ -458,6 +472,10 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 		}
 	}
 
+	if (inB64sequence) {
+		out += '-';
+	}
+
 	return out;
 }
 
@@ -494,7 +512,7 @@ const folder::path::component courierMaildirFormat::fromModifiedUTF7(const strin
 			case '-': {
 
 				if (inB64sequence && prev == '&') {
-					out += '&';
+					out[out.length() - 1] = '&';
 				} else {
 					out += '-';
 				}
@@ -508,6 +526,17 @@ const folder::path::component courierMaildirFormat::fromModifiedUTF7(const strin
 				out += (inB64sequence ? '/' : ',');
 				break;
 			}
+			// '+' represents itself, except in a Base64 sequence
+			case '+': {
+
+				out += '+';
+
+				if (!inB64sequence) {
+					out += '-';
+				}
+
+				break;
+			}
 			default: {
 
 				out += c;
-- 
2.43.0


From cb99b6e23917033f49b4d3e661e87507bea34ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:44 +0000
Subject: [PATCH 71/72] fix: maildir: a message whose "deleted" flag was
 removed by another program was expunged

---
 src/vmime/net/maildir/maildirFolder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 6791231..5dacfba 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -359,6 +359,12 @@ void maildirFolder::scanFolder() {
 
 					msgInfos.path = *pos;
 					curMessageFilenames.erase(pos);
+
+					if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
+						msgInfos.type = messageInfos::TYPE_DELETED;
+					} else {
+						msgInfos.type = messageInfos::TYPE_CUR;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 4c94d19c709c7e0f72bebb845e729f8c2fa258d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:21 +0000
Subject: [PATCH 72/72] fix: path: joining a path with itself read past its end

---
 src/vmime/utility/path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 948b8d9..6067cb9 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -76,9 +76,10 @@ path path::operator/(const component& c) const {
 path& path::operator/=(const path& p) {
 
 	const list::size_type size = m_list.size();
+	const list::size_type count = p.m_list.size();  // "p" may be this path
 
-	m_list.resize(size + p.m_list.size());
-	std::copy(p.m_list.begin(), p.m_list.end(), m_list.begin() + size);
+	m_list.resize(size + count);
+	std::copy(p.m_list.begin(), p.m_list.begin() + count, m_list.begin() + size);
 
 	return *this;
 }
-- 
2.43.0

