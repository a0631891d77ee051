From a27c2c18f598a0781396a08377faa1392d862df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 1/7] fix: keep complete characters when a read ends inside a
 character

The translator threw away everything it had converted when its input
ended with the first byte of a two-byte character, so the reader
withheld (and at the end of the stream or on a source error dropped)
all the text before it, and a stream cut inside a character looked
like a clean end. Report the progress made, and let the reader return
ErrCP949UnexpectedStream for a truncated stream.
---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..fec608e 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..23df64c 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,15 +76,16 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
-		}
 		r.cdata = cdata
 
 		// Ensure that we consume all bytes at eof
 		// if the converter refuses them.
 		if nc == 0 && r.err != nil {
 			nc = len(r.rdata)
+			if cvterr != nil && r.err == io.EOF {
+				// The stream ended inside a character.
+				r.err = cvterr
+			}
 		}
 
 		// Copy unconsumed data to the start of the rdata buffer.
-- 
2.43.0


From 3a0715f2cb5626f9499673bf2710421e0d8d79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 2/7] fix: do not treat an empty read as the end of the stream

A source read of zero bytes without an error means that nothing
happened, not end of file; and a Read with an empty buffer made the
source do just that. Both silently ended the stream.
---
 encoding/cp949/public.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 23df64c..ef8976b 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -38,6 +38,10 @@ func To(in []byte) ([]byte, error) {
 	return out, nil
 }
 
+// maxEmptyReads is how often in a row the source may supply nothing
+// before Read gives up with io.ErrNoProgress.
+const maxEmptyReads = 100
+
 type cp949Reader struct {
 	r     io.Reader
 	tr    translator
@@ -57,6 +61,10 @@ func NewReader(r io.Reader) (io.Reader, error) {
 }
 
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
+	emptyReads := 0
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
@@ -66,9 +74,13 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 		if r.err == nil {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
-			// Guard against non-compliant Readers.
+			// Nothing happened; guard against Readers that do this forever.
 			if n == 0 && err == nil {
-				err = io.EOF
+				emptyReads++
+				if emptyReads >= maxEmptyReads {
+					return 0, io.ErrNoProgress
+				}
+				continue
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From 6301f1c358d98c62e0e770a23ed75a5b40264887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 3/7] fix: encode every unencodable character as exactly one
 '?'

Characters beyond the last table entry (and invalid bytes) became two
question marks, and characters above U+FFFF were cut to 16 bits and
could come out as an unrelated character (U+2AC00 as U+AC00).
---
 encoding/cp949/cp949.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index fec608e..d9da35e 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,11 +89,7 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if fi < len(p.table) && r == rune(p.table[fi].ucs2) {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From 1172c0ae0d6479c0a662226eea812459dbedbb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 4/7] fix: carry an incomplete character over to the next write

A character split over two writes came out as question marks. Keep the
incomplete tail for the next write, also when the sink fails, and
report a short write of the sink instead of losing the rest.
---
 encoding/cp949/public.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index ef8976b..ed407b7 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -6,6 +6,7 @@ package cp949
 
 import (
 	"io"
+	"unicode/utf8"
 )
 
 // From converts cp949 stream to utf-8 stream
@@ -109,7 +110,7 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 type cp949Writer struct {
 	w   io.Writer
 	tr  translator
-	buf []byte // unconsumed data from writer.
+	buf []byte // incomplete character from earlier writes.
 }
 
 // NewWriter creaters io.Writer which write utf8 input src to cp949
@@ -122,18 +123,36 @@ func NewWriter(w io.Writer) (io.Writer, error) {
 	return &cp949Writer{w: w, tr: tr}, nil
 }
 
+// completeLen returns the length of data without an incomplete utf-8
+// character at its end.
+func completeLen(data []byte) int {
+	for i := 1; i < utf8.UTFMax && i <= len(data); i++ {
+		tail := data[len(data)-i:]
+		if utf8.RuneStart(tail[0]) {
+			if !utf8.FullRune(tail) {
+				return len(data) - i
+			}
+			break
+		}
+	}
+	return len(data)
+}
+
 func (w *cp949Writer) Write(data []byte) (int, error) {
 	wdata := data
 	if len(w.buf) > 0 {
-		w.buf = append(w.buf, data...)
-		wdata = w.buf
+		// Copy, so that w.buf is still intact if the sink fails.
+		wdata = append(w.buf[:len(w.buf):len(w.buf)], data...)
 	}
-	n, cdata, err := w.tr.Translate(wdata)
+	n, cdata, err := w.tr.Translate(wdata[:completeLen(wdata)])
 	if err != nil {
 		// TODO
 	}
 	if n > 0 {
-		_, err = w.w.Write(cdata)
+		nw, err := w.w.Write(cdata)
+		if err == nil && nw < len(cdata) {
+			err = io.ErrShortWrite
+		}
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 8fc60b29d31f5c4f5f52bf37570f464e9af535ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 5/7] fix: make the decoder and encoder respect buffer
 boundaries

Transform ignored the size of dst (claiming more output than fits, which
panics the standard reader on inputs over its buffer size) and treated
every src as complete (failing or substituting when a character was
split). Convert a character at a time and report ErrShortDst and
ErrShortSrc as the Transformer interface requires.
---
 encoding/cp949/encoding.go | 57 +++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..07d13c7 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,64 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
+	tr, err := fromCp949()
 	if err != nil {
 		return 0, 0, err
 	}
+	for nSrc < len(src) {
+		size := 1
+		if src[nSrc]&0x80 != 0 {
+			size = 2
+		}
+		if size > len(src)-nSrc {
+			if !atEOF {
+				return nDst, nSrc, transform.ErrShortSrc
+			}
+			size = len(src) - nSrc
+		}
+
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Copy the converted data to dst.
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
+	tr, err := toCp949()
 	if err != nil {
 		return 0, 0, err
 	}
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, size := utf8.DecodeRune(src[nSrc:])
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+
+		// Copy the converted data to dst.
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0


From 119be84d8885b9d38b85a56e0e775ef5da5dc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 6/7] fix: return a copy of the elements of a multi-element
 jamo

The caller got the slice of the package's own table, so writing to it
changed the results of SplitMultiElement and Stroke for everyone.
---
 jamo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..c12d2bd 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,8 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	// Copy, the caller may change what it gets.
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From 90e4d7193f1d5d02cce56fd8422ad63b02e2ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 7/7] fix: count only consecutive empty reads of the source

---
 encoding/cp949/public.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index ed407b7..10ec315 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -83,6 +83,7 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 				}
 				continue
 			}
+			emptyReads = 0
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
 		} else if len(r.rdata) == 0 {
-- 
2.43.0

