From dcf0682c64a246b9cbb054f406ac80390ca890c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:52 +0000
Subject: [PATCH 01/38] fix: ToMarker refuses markers outside the text

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 475845e..965251d 100644
--- a/scanner.go
+++ b/scanner.go
@@ -371,7 +371,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 04d3a3cd0e544167071fa78ad79b4b5c1acf8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:53 +0000
Subject: [PATCH 02/38] fix: IfFold and RevIfFold refuse when less text than
 the pattern is left

---
 scanner.go     | 3 +++
 scanner_rev.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scanner.go b/scanner.go
index 965251d..b369449 100644
--- a/scanner.go
+++ b/scanner.go
@@ -102,6 +102,9 @@ func (s *Scanner) To(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
 	i := len(str)
+	if len(s.Tail()) < i {
+		return false
+	}
 	prefix := s.Tail()[:i]
 	if strings.EqualFold(prefix, str) {
 		return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..359cee5 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -53,6 +53,9 @@ func (s *Scanner) RevTo(str string) bool {
 func (s *Scanner) RevIfFold(str string) bool {
 	i := len(str)
 	head := s.Head()
+	if len(head) < i {
+		return false
+	}
 	suffix := head[len(head)-i:]
 	if strings.EqualFold(suffix, str) {
 		return s.Move(-i)
-- 
2.43.0


From f5b86e295a680d3e112b9a253b056b1657187f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:54 +0000
Subject: [PATCH 03/38] fix: RevTo and RevToFold find occurrences like To and
 ToFold do

---
 scanner_rev.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 359cee5..c239aec 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -37,13 +37,10 @@ func (s *Scanner) RevIfAny(strs []string) bool {
 // Moves s to the last appearance of str in Head().
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevTo(str string) bool {
-	itr := makeRevItr(s.Head())
-	for itr.next() {
-		if strings.HasSuffix(itr.Str, str) {
-			return s.Move(-itr.pos())
-		}
+	i := strings.LastIndex(s.Head(), str)
+	if i != -1 {
+		return s.Move(i + len(str) - s.pos)
 	}
-
 	return false
 }
 
@@ -67,14 +64,13 @@ func (s *Scanner) RevIfFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevToFold(str string) bool {
 	i := len(str)
-	itr := makeRevItr(s.Head())
-	for itr.next() {
-		suffix := itr.Str[len(itr.Str)-i:]
+	sub := s.Head()
+	for n := 0; len(sub) >= i+n; n++ {
+		suffix := sub[len(sub)-n-i : len(sub)-n]
 		if strings.EqualFold(suffix, str) {
-			return s.Move(-itr.pos())
+			return s.Move(-n)
 		}
 	}
-
 	return false
 }
 
-- 
2.43.0


From 7ff0a40aba18da14f527d8eb26ec44cb5e6c0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:55 +0000
Subject: [PATCH 04/38] fix: the reverse iterator passes over U+FFFD and
 malformed bytes

---
 intl.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..e2edfe7 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
-- 
2.43.0


From 3b0a03d1c25fcfad2956e4cb5e298e875ba45bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:56 +0000
Subject: [PATCH 05/38] fix: MoveRunes counts a malformed byte as a rune of one
 byte

---
 scanner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index b369449..c8ead15 100644
--- a/scanner.go
+++ b/scanner.go
@@ -337,10 +337,11 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		for i := range s.Tail() {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, l := utf8.DecodeRuneInString(s.Tail()[i:])
+				return s.Move(i + l)
 			}
 		}
 		return false
@@ -349,7 +350,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 1f7f9b56836438783a8d7346c5133d4519f85f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:58 +0000
Subject: [PATCH 06/38] fix: rune scans do not succeed on U+FFFD at the end or
 start of the text

---
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index c8ead15..a06234f 100644
--- a/scanner.go
+++ b/scanner.go
@@ -131,7 +131,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index c239aec..4777655 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -79,7 +79,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -124,7 +124,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From 0c2e367a2c88109d2c01e69368fe93e2b508b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:59 +0000
Subject: [PATCH 07/38] fix: RevIfBetween and RevIfMatch move if the rune
 matches

---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 4777655..7a9011a 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -167,7 +167,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -210,7 +210,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From d96f5a8c4768d6476872aaf10d98b9ddb685981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:00 +0000
Subject: [PATCH 08/38] fix: WhileRune and WhileBetween report false if the
 scanner was not moved

---
 scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scanner.go b/scanner.go
index a06234f..c68b20a 100644
--- a/scanner.go
+++ b/scanner.go
@@ -158,6 +158,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -247,6 +250,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
-- 
2.43.0


From a6dfc5a67c4e76f89f5006188c028d35230504e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:01 +0000
Subject: [PATCH 09/38] fix: WhileMatch moves to the end if all runes match

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index c68b20a..84b10af 100644
--- a/scanner.go
+++ b/scanner.go
@@ -300,7 +300,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
-- 
2.43.0


From d247bbe546ec8694c1e9ac4fa8caea8ad38e9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 10/38] fix: RevWhile functions report false if the scanner was
 not moved

---
 scanner_rev.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 7a9011a..17f8903 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -109,7 +109,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -153,7 +153,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -195,7 +195,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -238,7 +238,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From b8614043eb84abfd9b0433ccbfa40bce7d0a7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 11/38] fix: ReadRune and RevReadRune read U+FFFD

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 0773827..2ecf8c7 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i < 2 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i < 2 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From df688234bc9290329a5ba357dd2da3a112118ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:14 +0000
Subject: [PATCH 12/38] fix: ScanString reads up to the end of the text

---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index e2edfe7..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -42,7 +42,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From 2ef889e7a987339fe5459d83d7d4370451558f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:32 +0000
Subject: [PATCH 13/38] fix: ReadInt and ReadUint do not wrap around at 64 bits

---
 read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index 2ecf8c7..70e54ec 100644
--- a/read.go
+++ b/read.go
@@ -110,12 +110,12 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 
 		if neg {
 			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < min/int64(base) || i64 < tmp || tmp < min {
 				break
 			}
 		} else {
 			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > max/int64(base) || i64 > tmp || tmp > max {
 				break
 			}
 		}
@@ -197,7 +197,7 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 		}
 
 		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > max/uint64(base) || u64 > tmp || tmp > max {
 			break
 		}
 
-- 
2.43.0


From ab85555dc9418164b0bfed32d9243309a424079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:39 +0000
Subject: [PATCH 14/38] fix: Times restores the position if it fails

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 0fddcef..1af0728 100644
--- a/reader.go
+++ b/reader.go
@@ -896,8 +896,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
-- 
2.43.0


From 8c1c83ff0aec638b9123dcb6a243f549459661ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:41 +0000
Subject: [PATCH 15/38] fix: Any tries every alternative at the same position

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 1af0728..2a6e088 100644
--- a/reader.go
+++ b/reader.go
@@ -95,10 +95,10 @@ func (r *anyReader) Read(s *Scanner) error {
 		if e := sub.Read(s); e == nil {
 			return nil
 		} else {
+			s.ToMarker(m)
 			errs = append(errs, e)
 		}
 	}
-	s.ToMarker(m)
 	return getDeepest(errs)
 }
 
-- 
2.43.0


From 5f460b577a0d9d14693786ee8d9523af4af7911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:42 +0000
Subject: [PATCH 16/38] fix: Opt restores the position if its sub reader fails

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 2a6e088..ea07cc9 100644
--- a/reader.go
+++ b/reader.go
@@ -728,7 +728,7 @@ type optReader struct {
 }
 
 func (r *optReader) Read(s *Scanner) error {
-	r.sub.Read(s)
+	s.Use(r.sub)
 	return nil
 }
 
-- 
2.43.0


From d2918dbba2e5eeeb874421ac66d1797f84bdb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:43 +0000
Subject: [PATCH 17/38] fix: Zom and Many stop when the sub reader does not
 move

---
 reader.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index ea07cc9..8355468 100644
--- a/reader.go
+++ b/reader.go
@@ -607,10 +607,12 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	useUntilStop(s, r.sub)
+	if end := s.Mark(); start < end {
+		return nil
 	}
-	end := s.Mark()
-	return s.ErrorIfFalse(start < end, r.What())
+	s.ToMarker(start)
+	return s.ErrorFor(r.What())
 }
 
 func (r manyReader) What() string {
@@ -1006,8 +1008,7 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
-	}
+	useUntilStop(s, r.sub)
 	return nil
 }
 
@@ -1015,6 +1016,14 @@ func (r zomReader) What() string {
 	return "*" + r.sub.What()
 }
 
+// useUntilStop uses r until it fails or does not move the scanner.
+func useUntilStop(s *Scanner, r Reader) {
+	m := s.Mark()
+	for s.Use(r) == nil && s.Mark() != m {
+		m = s.Mark()
+	}
+}
+
 // Zom creates a Reader that expects that i matches zero or more times.
 // The type of i can be rune, string or Reader.
 // See Many for a Reader that expects one or more.
-- 
2.43.0


From 63f2d14ff5d8b924492387470a8b5249d8ff8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:44 +0000
Subject: [PATCH 18/38] fix: Not fails at the end of the text

---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 8355468..0b16a6f 100644
--- a/reader.go
+++ b/reader.go
@@ -711,8 +711,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From fd3f47d96586ae59fff312b0e818beed594e48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:45 +0000
Subject: [PATCH 19/38] fix: To and Past search from rune to rune up to the end

---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index 0b16a6f..3f412ba 100644
--- a/reader.go
+++ b/reader.go
@@ -754,8 +754,8 @@ type pastReader struct {
 
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
-		if e := r.sub.Read(s); e == nil {
+	for ok := true; ok; ok = s.MoveRunes(1) {
+		if e := s.Use(r.sub); e == nil {
 			return nil
 		}
 	}
@@ -925,7 +925,7 @@ func (r *toReader) Read(s *Scanner) error {
 	m := s.Mark()
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		subM := s.Mark()
-		if e := r.sub.Read(s); e == nil {
+		if e := s.Use(r.sub); e == nil {
 			s.ToMarker(subM)
 			return nil
 		}
-- 
2.43.0


From 7bf7127edd40c1e93e592b271b88e477190df25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:46 +0000
Subject: [PATCH 20/38] fix: Body and BodyTail search from rune to rune up to
 the end

---
 reader.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 3f412ba..fca0bb6 100644
--- a/reader.go
+++ b/reader.go
@@ -322,9 +322,9 @@ type bodyReader struct {
 
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
-		if e := r.tail.Read(s); e == nil {
+		if e := s.Use(r.tail); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
@@ -355,9 +355,9 @@ type bodyTailReader struct {
 
 func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
-		if e := r.tail.Read(s); e == nil {
+		if e := s.Use(r.tail); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
-- 
2.43.0


From 028b3b925cb42882e8f252ab7cd56d946ea2c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:17 +0000
Subject: [PATCH 21/38] fix: Holey does not read at the end of the text

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index fca0bb6..751e144 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i > 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
-- 
2.43.0


From 289a2db81628e8b3d84f76c79289f0e41ce76637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:18 +0000
Subject: [PATCH 22/38] fix: Any reports an error of its alternatives

---
 reader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index 751e144..acf14dc 100644
--- a/reader.go
+++ b/reader.go
@@ -78,10 +78,13 @@ type anyReader struct {
 }
 
 func getDeepest(errs []error) error {
-	var deepest ReadError
-	for _, e := range errs {
+	deepest := errs[0]
+	for _, e := range errs[1:] {
 		re, ok := e.(ReadError)
-		if ok && re.Later(deepest) {
+		if !ok {
+			continue
+		}
+		if d, ok := deepest.(ReadError); !ok || re.Later(d) {
 			deepest = re
 		}
 	}
@@ -90,6 +93,9 @@ func getDeepest(errs []error) error {
 
 func (r *anyReader) Read(s *Scanner) error {
 	m := s.Mark()
+	if len(r.readers) == 0 {
+		return s.ErrorFor(r.What())
+	}
 	errs := []error{}
 	for _, sub := range r.readers {
 		if e := sub.Read(s); e == nil {
-- 
2.43.0


From a086a83922ba67a2b6bcda5164fbe6f31da83f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 23/38] fix: Body and BodyTail read the body in place

The body was read by a scanner of its own, so Map and Pick inside the body saw
markers relative to the body instead of markers of the text.
---
 reader.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/reader.go b/reader.go
index acf14dc..c79b3d0 100644
--- a/reader.go
+++ b/reader.go
@@ -331,12 +331,10 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := s.Use(r.tail); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
-			e = sub.Use(r.body)
-			if e != nil || !sub.AtEnd() {
+			s.ToMarker(m)
+			if !s.useUpTo(t, r.body) {
 				break
 			}
-			s.ToMarker(t)
 			return nil
 		}
 	}
@@ -344,6 +342,15 @@ func (r *bodyReader) Read(s *Scanner) error {
 	return s.ErrorFor(r.What())
 }
 
+// useUpTo uses r on the text up to m. Moves s to m if r reads all of it, otherwise s stays where it is.
+func (s *Scanner) useUpTo(m Marker, r Reader) bool {
+	sub := &Scanner{full: s.full[:m], pos: s.pos, Tracker: s.Tracker}
+	if sub.Use(r) != nil || !sub.AtEnd() {
+		return false
+	}
+	return s.ToMarker(m)
+}
+
 func (r *bodyReader) What() string {
 	return "-(" + r.body.What() + "-" + r.tail.What() + ")-"
 }
@@ -364,9 +371,8 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := s.Use(r.tail); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
-			e = sub.Use(r.body)
-			if e != nil || !sub.AtEnd() {
+			s.ToMarker(m)
+			if !s.useUpTo(t, r.body) || s.Use(r.tail) != nil {
 				break
 			}
 			return nil
-- 
2.43.0


From 5c5761c8217a33bde31c41194c82d049f8ff4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:20 +0000
Subject: [PATCH 24/38] fix: the end of a Janus pair keeps what it expects

A successful look-ahead or search with the second reader cleared the expected
string, so that the read that followed accepted any text. MXT resets the salt
at the beginning of a header instead.
---
 grammar/mxt.go | 3 ++-
 reader.go      | 6 +-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..8569bce 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,8 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	// no word can follow the marker, there saltHead forgets the salt of the previous chunk
+	g.Header.Reader = Seq(&g.Marker, saltHead, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
diff --git a/reader.go b/reader.go
index c79b3d0..d0c0611 100644
--- a/reader.go
+++ b/reader.go
@@ -528,11 +528,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From 4453cb147bd6c83877ba2249a69c75a1ca2b290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:37 +0000
Subject: [PATCH 25/38] fix: the log keeps the exit of a monitored reader

Enter returns a pointer into Entries, which moves when entries are added by the
readers below; the exit position and the error were then lost.
---
 monitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..7dfe2c1 100644
--- a/monitor.go
+++ b/monitor.go
@@ -76,8 +76,12 @@ type monitorReader struct {
 }
 
 func (r *monitorReader) Read(s *Scanner) error {
+	i := len(r.log.Entries)
 	entry := r.log.Enter(r.info, s.pos)
 	err := r.sub.Read(s)
+	if i < len(r.log.Entries) {
+		entry = &r.log.Entries[i] // the entries move when the log grows
+	}
 	r.log.Exit(entry, s.pos, err)
 	return err
 }
-- 
2.43.0


From 5ff350a9cc3bb9ebbed06c1117a7fabefb6833cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:21 +0000
Subject: [PATCH 26/38] fix: sorting segments is consistent for equal and empty
 segments

The comparison held in both directions for segments with equal tokens, which
reversed their order, and for an empty segment at the start of another one.
---
 segment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..ac73252 100644
--- a/segment.go
+++ b/segment.go
@@ -51,12 +51,20 @@ func SortSegments(values []Segment) {
 	sorter := &segSorter{
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
+			return sortsBefore(a.Token, b.Token)
 		},
 	}
 	sort.Stable(sorter)
 }
 
+// sortsBefore orders tokens by their start, the longer one first.
+func sortsBefore(a, b Token) bool {
+	if a.from != b.from {
+		return a.from < b.from
+	}
+	return a.to > b.to
+}
+
 // SortSegmentsByOrder sorts like SortSegments with an order as additional tiebreaker.
 // The appearence of an information in the order slice determines the order for segments with equal tokens.
 func SortSegmentsByOrder(values []Segment, order []string) {
@@ -64,7 +72,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return sortsBefore(a.Token, b.Token)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-- 
2.43.0


From c5cfed86adb29cb19932067408ed5ce929085487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 27/38] fix: CheckRuleName checks the name up to its end

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..28d5204 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,7 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	return NewScanner(name).Use(Seq(RuleName(), AtEnd()))
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From 2c018992d49779a58ffb477550888101960d9890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:54 +0000
Subject: [PATCH 28/38] fix: a Lua comment may end with the text

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..2b9bf65 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
-- 
2.43.0


From a0e7a22cae9d17384a2fce5e0765a9e4d7e5a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:55 +0000
Subject: [PATCH 29/38] fix: Lua strings may contain control characters and
 escaped line breaks

---
 grammar/lua.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 2b9bf65..7ab9704 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -26,13 +26,13 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq('\\', Any("\r\n", AnyRune("abfnrtvz\"'\\\r\n"))),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From d6b990d1c592ad092476c1e4c7fb36aa6bc8893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:52 +0000
Subject: [PATCH 30/38] fix: the Lua grammar reads the operators <<, >> and //

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 7ab9704..f43d8e1 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -116,8 +116,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", "not", "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	skiper := Zom(Any(WS(), &g.Comment))
-- 
2.43.0


From 7a54ea2d15b8456dbcf6c29ec637ee9edbeb1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:53 +0000
Subject: [PATCH 31/38] fix: reserved words are no Lua names and end where the
 word ends

---
 grammar/lua.go | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index f43d8e1..434a6fa 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -108,15 +108,23 @@ func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	wordEnd := Any(AtEnd(), At(Not(Set("a-zA-Z0-9", "_"))))
+	word := func(w string) Reader {
+		return Seq(w, wordEnd)
+	}
+	reserved := Seq(Any(
+		"and", "break", "do", "elseif", "else", "end", "false", "for", "function", "goto", "if", "in",
+		"local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while",
+	), wordEnd)
+	g.Name.Reader = Seq(At(Not(reserved)), Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
 	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	g.UnOp.Reader = Any("-", word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
@@ -138,8 +146,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
+	g.FuncDef.Reader = SkipWSSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -149,7 +157,7 @@ func Lua() *LuaReader {
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		word("nil"), word("false"), word("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -173,25 +181,25 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = SkipWSSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Break.Reader = word("break")
+	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
+	g.Do.Reader = SkipWSSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = SkipWSSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = SkipWSSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
 	g.IfElse.Reader = SkipWSSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
-		"end",
+		word("if"), &g.Exp, word("then"), &g.Block,
+		Zom(SkipWSSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(SkipWSSeq(word("else"), &g.Block)),
+		word("end"),
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = SkipWSSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = SkipWSSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = SkipWSSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = SkipWSSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From c9b50621b6c7956acc5231fc873fbf59eba849f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:53 +0000
Subject: [PATCH 32/38] fix: white space and comments may stand between all Lua
 tokens

---
 grammar/lua.go | 53 +++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 434a6fa..adcd49d 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -117,7 +117,6 @@ func Lua() *LuaReader {
 		"local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while",
 	), wordEnd)
 	g.Name.Reader = Seq(At(Not(reserved)), Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -133,21 +132,23 @@ func Lua() *LuaReader {
 		return SkipSeq(skiper, list...)
 	}
 
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
+
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(skipSeq(':', &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
-	g.FuncDef.Reader = SkipWSSeq(word("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -165,44 +166,44 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
+	g.Label.Reader = skipSeq("::", &g.Name, "::")
+	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
-	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
-	g.Do.Reader = SkipWSSeq(word("do"), &g.Block, word("end"))
-	g.While.Reader = SkipWSSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
-	g.Repeat.Reader = SkipWSSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
+	g.Do.Reader = skipSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = skipSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = skipSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		word("if"), &g.Exp, word("then"), &g.Block,
-		Zom(SkipWSSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
-		Opt(SkipWSSeq(word("else"), &g.Block)),
+		Zom(skipSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(skipSeq(word("else"), &g.Block)),
 		word("end"),
 	)
-	g.For.Reader = SkipWSSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
-	g.ForEach.Reader = SkipWSSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
-	g.Func.Reader = SkipWSSeq(word("function"), &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = skipSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = skipSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(word("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
-		Seq(&g.VarList, '=', &g.ExpList),
+		skipSeq(&g.VarList, '=', &g.ExpList),
 		&g.Label,
 		&g.Break,
 		&g.GoTo,
@@ -217,7 +218,7 @@ func Lua() *LuaReader {
 		&g.LocalAtt,
 		&g.FuncCall,
 	)
-	g.Block.Reader = skipSeq(Zom(&g.Stat), Opt(&g.RetStat))
+	g.Block.Reader = skipSeq(Zom(skipSeq(&g.Stat)), Opt(&g.RetStat))
 	g.Chunk.Reader = &g.Block
 	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Block)
 
-- 
2.43.0


From cde4bc7e1aa95ed0661526ca1f7645d202062a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:54 +0000
Subject: [PATCH 33/38] fix: numerals in Lua expressions are read by the
 Numeral rule

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index adcd49d..8429b32 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -159,7 +159,7 @@ func Lua() *LuaReader {
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
 		word("nil"), word("false"), word("true"),
-		LuaNumeral(), &g.LiteralString, "...",
+		&g.Numeral, &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From 8de38e9a04550b191b5d46045c4325be7e6935ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 34/38] fix: Lua expressions are not read again for every
 operator that does not follow

---
 grammar/lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 8429b32..75e0e3f 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -165,10 +165,7 @@ func Lua() *LuaReader {
 		&g.TableConstructor,
 		&g.PrefixExp,
 	)
-	g.Exp.Reader = Any(
-		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
-		&g.FinalExp,
-	)
+	g.Exp.Reader = skipSeq(&g.FinalExp, Opt(skipSeq(&g.BinOp, &g.Exp)))
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-- 
2.43.0


From 31e6fa827625d76caa3b77e8881b9d726aaa2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:10 +0000
Subject: [PATCH 35/38] fix: a range that starts or ends at a single quote is
 described with it

---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index d0c0611..63f7191 100644
--- a/reader.go
+++ b/reader.go
@@ -209,7 +209,8 @@ func (r betweenReader) Read(s *Scanner) error {
 }
 
 func quoteRune(r rune) string {
-	return strings.Trim(strconv.QuoteRuneToGraphic(r), "'")
+	q := strconv.QuoteRuneToGraphic(r)
+	return q[1 : len(q)-1]
 }
 
 func quoteBetween(min, max rune) string {
-- 
2.43.0


From 5238e680a3ef26397f67924d918f864d77eacc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 36/38] fix: the preview of a log entry starts where the entry
 starts in texts with wide characters

---
 monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index 7dfe2c1..6402a04 100644
--- a/monitor.go
+++ b/monitor.go
@@ -60,7 +60,12 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		tail := ""
+		if e.EnterAt < len(str) {
+			tail = str[e.EnterAt:] // EnterAt counts bytes
+		}
+		preview, _ := getPrefix(tail, n)
+		fmt.Println(e, ">", strconv.Quote(preview))
 	}
 }
 
-- 
2.43.0


From a28fa0a78615887060c34722a8536367b63e3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:23 +0000
Subject: [PATCH 37/38] fix: grammars with unexported fields do not panic in
 CollectRules and SetRuleNames

---
 grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 28d5204..69b7ae7 100644
--- a/grammar.go
+++ b/grammar.go
@@ -30,7 +30,7 @@ func SetRuleNames(g Grammar) error {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < t.NumField(); i++ {
 		field := t.Field(i)
-		if field.Type != reflect.TypeOf(Rule{}) {
+		if field.Type != reflect.TypeOf(Rule{}) || !v.Field(i).CanSet() {
 			continue
 		}
 		name := field.Tag.Get("name")
@@ -61,6 +61,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0


From 2079f126695af530f2bf9743b49353397be9e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:34 +0000
Subject: [PATCH 38/38] fix: a log that is reset in the middle of a read keeps
 levels and entries right

---
 monitor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monitor.go b/monitor.go
index 6402a04..d67670a 100644
--- a/monitor.go
+++ b/monitor.go
@@ -21,6 +21,7 @@ func (e LogEntry) String() string {
 type Log struct {
 	Entries []LogEntry
 	level   int
+	resets  int
 }
 
 func MonitorGrammar(g Grammar) *Log {
@@ -43,7 +44,9 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
-	l.level--
+	if l.level > 0 { // 0 if the log was reset since e was entered
+		l.level--
+	}
 }
 
 func (l *Log) Monitor(readers ...*Rule) {
@@ -72,6 +75,7 @@ func (l *Log) PrintWithPreview(str string, n int) {
 func (l *Log) Reset() {
 	l.Entries = []LogEntry{}
 	l.level = 0
+	l.resets++
 }
 
 type monitorReader struct {
@@ -81,10 +85,10 @@ type monitorReader struct {
 }
 
 func (r *monitorReader) Read(s *Scanner) error {
-	i := len(r.log.Entries)
+	i, n := len(r.log.Entries), r.log.resets
 	entry := r.log.Enter(r.info, s.pos)
 	err := r.sub.Read(s)
-	if i < len(r.log.Entries) {
+	if n == r.log.resets && i < len(r.log.Entries) {
 		entry = &r.log.Entries[i] // the entries move when the log grows
 	}
 	r.log.Exit(entry, s.pos, err)
-- 
2.43.0

