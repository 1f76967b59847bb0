From 1b80788f46820f546be4fd77d7aac6d0745cef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:30 +0000
Subject: [PATCH 01/37] fix: size the encoder text buffer for the largest
 dictionary

encodeAlloc sized the shared text buffer for the method of the first file
compressed in the process and kept it, so a later file compressed with a larger
dictionary (lh5 first, lh6 or lh7 next) indexed past its end and panicked.
---
 append.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..39cbb45 100644
--- a/append.go
+++ b/append.go
@@ -90,7 +90,8 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
+	/* the buffers are kept for the next file, which may use a larger dictionary */
+	text = make([]byte, maxDicsiz*2+int(Maxmatch)+1)
 
 	return method, nil
 }
-- 
2.43.0


From 8c8c40f1bc4a612c3b0cb7a81fc34bcdd5eff096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 02/37] fix: mask the whole initial hash, not only its last
 term

& binds tighter than ^ in Go, so initHash returned up to 0xffff for a table of
0x8000 entries: compressing a file whose first byte has bit 5 set panicked.
---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index dd65397..b18ecf5 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From f35eeb2eff32abcf112b5cbb9a734047edba54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:32 +0000
Subject: [PATCH 03/37] fix: encode lh1 with the dynamic Huffman coder

The encoder tables were indexed one off, so a member labelled -lh1- was written
with the static coder of lh5; the escape symbol of the dynamic tree was chosen
with the condition inverted, was shared with the alphabet size of lh3, and the
low bits of codes longer than 16 bits were taken from the wrong end.
---
 dhuf.go  | 15 ++++++++-------
 slide.go | 12 +++---------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..d437329 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -18,6 +18,7 @@ var (
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
+	dynN1       int
 )
 
 const (
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
-	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+	dynN1 = 512
+	if nMax < uint(256+maxmatch-uint16(threshold)+1) {
+		dynN1 = int(nMax) - 1
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - dynN1
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(dynN1)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -299,7 +300,7 @@ func (l *Lha) encodeCDyn(c uint) {
 		_ = l.putcode(byte(cnt), uint16(bits>>16))
 	} else {
 		_ = l.putcode(16, uint16(bits>>16))
-		_ = l.putbits(byte(cnt-16), uint16(bits))
+		_ = l.putcode(byte(cnt-16), uint16(bits))
 	}
 	if d >= 0 {
 		_ = l.putbits(8, uint16(d))
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == dynN1 {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
diff --git a/slide.go b/slide.go
index b18ecf5..49a1b11 100644
--- a/slide.go
+++ b/slide.go
@@ -194,10 +194,8 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 func (l *Lha) encodeStart(method int) {
 	switch method {
-	case 0:
+	case 1: /* lh1 */
 		l.encodeStartFix()
-	case 1:
-		l.encodeStartSt1()
 	case 2:
 		l.encodeStartSt1()
 	case 3:
@@ -215,10 +213,8 @@ func (l *Lha) encodeStart(method int) {
 
 func (l *Lha) encodeEnd(method int) {
 	switch method {
-	case 0:
+	case 1: /* lh1 */
 		l.encodeEndDyn()
-	case 1:
-		l.encodeEndSt1()
 	case 2:
 		l.encodeEndSt1()
 	case 3:
@@ -236,10 +232,8 @@ func (l *Lha) encodeEnd(method int) {
 
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
 	switch method {
-	case 0:
+	case 1: /* lh1 */
 		l.outputDyn(int(code), int(pos))
-	case 1:
-		l.outputSt1(code, pos)
 	case 2:
 		l.outputSt1(code, pos)
 	case 3:
-- 
2.43.0


From 2be446b6e4c55a67039ac98b4ce42a2428d2ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:08 +0000
Subject: [PATCH 04/37] fix: set up the position code of lh4

A Go case does not fall through, so for the 12 bit dictionary of lh4 np and pbit
kept whatever the previous member had left in them.
---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..4d7a657 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From 14e157651d7d280df67cd05a867aacad1a0fe2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:09 +0000
Subject: [PATCH 05/37] fix: decode lh3 members

The long codes of lh3 and lh1 were walked on an int whose sign bit is never set,
the position table was built for 17 symbols instead of 128, and the block size of
the previous member was carried into the next one.
---
 shuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..66a4d95 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
@@ -144,7 +145,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
@@ -154,7 +155,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(12)
 		i = int(l.bitbuf)
 		for {
-			if i < 0 {
+			if i&0x8000 != 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
@@ -186,7 +187,7 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(8)
 		i = int(l.bitbuf)
 		for {
-			if i < 0 {
+			if i&0x8000 != 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
-- 
2.43.0


From f0ad2b29a872ae77cfa0fb6eaf4e3022d28d752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:10 +0000
Subject: [PATCH 06/37] fix: follow one branch per bit in the pm2 code trees

treeGet had already stepped to the right child when it took the left one, and
the trees of the previous member were still there when the next one started.
---
 pm.go     |  2 ++
 pmtree.go | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pm.go b/pm.go
index 880211f..b4b43ab 100644
--- a/pm.go
+++ b/pm.go
@@ -47,6 +47,8 @@ func (l *Lha) decodeStartPm2() {
 	dicsiz1 = (1 << dicbit) - 1
 	_ = l.initGetbits()
 	histInit()
+	treeReset(&tree1)
+	treeReset(&tree2)
 	nextcount = 0
 	lastupdate = 0
 	l.getbits(1) /* discard bit */
diff --git a/pmtree.go b/pmtree.go
index 9c76653..3ba6ca6 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
@@ -110,6 +110,14 @@ func (l *Lha) tree2Get() int {
 	return l.treeGet(&tree2)
 }
 
+func treeReset(t *tree) {
+	t.root = 0
+	for i := range t.leftarr {
+		t.leftarr[i] = 0
+		t.rightarr[i] = 0
+	}
+}
+
 func treeSetsingle(t *tree, value byte) {
 	t.root = 128 | value
 }
-- 
2.43.0


From 21dbded1fc77532e9a89a051630fff824a70a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 07/37] fix: flush the 64 KB dictionary of lh7

The write position was 16 bits wide and wrapped to 0 just before it could reach
65536, so the decoder never wrote out a full lh7 dictionary and returned only the
tail of any file of 64 KB or more.
---
 larc.go | 6 +++---
 lha.go  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..3f3a7ec 100644
--- a/larc.go
+++ b/larc.go
@@ -30,7 +30,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return uint16((l.loc - uint(l.matchpos) - uint(magic0)) & 0x7ff)
 }
 
 /* ------------------------------------------------------------------------ */
@@ -78,7 +78,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return uint16((l.loc - uint(l.matchpos) - uint(magic5)) & 0xfff)
 }
 
 /* ------------------------------------------------------------------------ */
@@ -104,7 +104,7 @@ func (l *Lha) decodeStartLz5( /*void*/ ) {
 	}
 
 	for j := 0; j < (128 - 18); j++ {
-		dtext[256*13+512+128+18] = ' '
+		dtext[256*13+512+128+18+j] = ' '
 	}
 
 	//memset(&dtext[256*13+512+18], 0, 128)
diff --git a/lha.go b/lha.go
index a387124..80f2061 100644
--- a/lha.go
+++ b/lha.go
@@ -60,7 +60,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
-- 
2.43.0


From 08c74c43e2b317df354e8064d4dc365c4a4b26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 08/37] fix: keep the errors met while a member is coded

Read and write errors in the bit stream, the dictionary refill and the output
were dropped, and data that ended early was padded with zeros without end; lz5
read its input past the end of the member.
---
 bitio.go | 20 +++++++++++++++++---
 crcio.go |  4 +++-
 larc.go  | 38 ++++++++++++++++++++------------------
 lha.go   |  9 +++++++++
 slide.go | 14 +++++++++-----
 5 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/bitio.go b/bitio.go
index caa3a96..36cd1ad 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,9 +2,13 @@ package lha
 
 import (
 	"fmt"
+	"io"
 	"os"
 )
 
+/* bytes that may be asked for after the end of the packed data */
+const maxOverrun = 16
+
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
 /*              bitio.c -- bit stream                                       */
@@ -23,13 +27,20 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 		if l.compsize != 0 {
 			l.compsize--
 			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
+			_, err := io.ReadFull(l.infile, c)
 			if err != nil {
-				return fmt.Errorf("cannot read stream")
+				err = fmt.Errorf("cannot read stream: %w", err)
+				l.fail(err)
+				return err
 			}
 			l.subbitbuf = c[0]
 		} else {
 			l.subbitbuf = 0
+			/* the bit buffer is read ahead of the code, but never that far */
+			l.overrun++
+			if l.overrun > maxOverrun {
+				l.fail(fmt.Errorf("unexpected end of packed data"))
+			}
 		}
 		l.bitcount = charBit
 	}
@@ -62,7 +73,9 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				err = fmt.Errorf("write error in bitio.c(putcode): %w", err)
+				l.fail(err)
+				return err
 			}
 			l.compsize++
 		} else {
@@ -85,6 +98,7 @@ func (l *Lha) initGetbits( /* void */ ) error {
 	l.bitbuf = 0
 	l.subbitbuf = 0
 	l.bitcount = 0
+	l.overrun = 0
 	return l.fillbuf(2 * charBit)
 }
 
diff --git a/crcio.go b/crcio.go
index 134446d..0417f64 100644
--- a/crcio.go
+++ b/crcio.go
@@ -106,7 +106,9 @@ func (l *Lha) fwriteCrc(crcp *uint, p []byte, n int, fp *io.Writer) error {
 	}
 	_, err := (*fp).Write(p[:n])
 	if err != nil {
-		return fmt.Errorf("file write error :%v", err.Error())
+		err = fmt.Errorf("file write error :%w", err)
+		l.fail(err)
+		return err
 	}
 	return nil
 }
diff --git a/larc.go b/larc.go
index 3f3a7ec..d2ad64a 100644
--- a/larc.go
+++ b/larc.go
@@ -1,6 +1,9 @@
 package lha
 
-import "io"
+import (
+	"fmt"
+	"io"
+)
 
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
@@ -40,33 +43,32 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 	initCodeCache()
 }
 
+func (l *Lha) readByte() int {
+	var b [1]byte
+	if l.compsize == 0 {
+		l.fail(fmt.Errorf("unexpected end of packed data"))
+		return 0
+	}
+	l.compsize--
+	if _, err := io.ReadFull(l.infile, b[:]); err != nil {
+		l.fail(fmt.Errorf("cannot read stream: %w", err))
+	}
+	return int(b[0])
+}
+
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		l.mFlag = l.readByte()
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	c = l.readByte()
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		c = l.readByte()
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
diff --git a/lha.go b/lha.go
index 80f2061..fe31720 100644
--- a/lha.go
+++ b/lha.go
@@ -61,6 +61,8 @@ type Lha struct {
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
 	loc                            uint
+	overrun                        int
+	ioErr                          error /* first error met while coding a member */
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
@@ -83,6 +85,13 @@ func NewLha(archivename string) *Lha {
 	}
 }
 
+// fail records the first error met while a member is encoded or decoded.
+func (l *Lha) fail(err error) {
+	if l.ioErr == nil {
+		l.ioErr = err
+	}
+}
+
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	var pos int
 	// verify mode here, no extraction
diff --git a/slide.go b/slide.go
index 49a1b11..b68e1ad 100644
--- a/slide.go
+++ b/slide.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 	"strconv"
 )
 
@@ -113,6 +112,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	dicbit = uint16(inter.dicbit)
 	l.origsize = inter.original
 	l.compsize = inter.packed
+	l.ioErr = nil
 
 	initializeCrc(&crc)
 	dicsiz = int(1) << dicbit
@@ -141,7 +141,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	}
 	decodeCount = 0
 	l.loc = 0
-	for decodeCount < l.origsize {
+	for decodeCount < l.origsize && l.ioErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
 		if c < 256 {
 			if l.DumpLzss {
@@ -186,6 +186,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 	if l.loc != 0 {
 		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
 	}
+	if decodeCount != l.origsize {
+		l.fail(fmt.Errorf("unpacked data longer than the %d bytes expected", l.origsize))
+	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
 
@@ -270,7 +273,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
-		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		l.fail(fmt.Errorf("error while freadCrc : %w", err))
 	}
 
 	l.remainder += uint(n)
@@ -393,6 +396,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	l.compsize = 0
 	count = 0
 	l.unpackable = false
+	l.ioErr = nil
 
 	initializeCrc(&crc)
 
@@ -422,7 +426,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.ioErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -457,7 +461,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	inter.packed = l.compsize
 	inter.original = count
 
-	return crc, nil
+	return crc, l.ioErr
 }
 
 func initSlide() {
-- 
2.43.0


From 79e25be6640d4fcd211b19182fcb44153ab758de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:26 +0000
Subject: [PATCH 09/37] fix: report errors from EncodeLzhuf and survive an
 empty source

Errors of the coders were dropped, a source that had become empty divided by zero
and an out of range method produced an invalid method name.
---
 append.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/append.go b/append.go
index 39cbb45..a4edee8 100644
--- a/append.go
+++ b/append.go
@@ -24,6 +24,7 @@ const (
 func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_size_var *int, packed_size_var *int, name []byte, hdr_method []byte) (uint, error) {
 	var method = -1
 	var crc uint
+	var err error
 	inter := &interfacing{}
 
 	if method < 0 {
@@ -40,17 +41,24 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		crc, err = l.encode(inter)
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		inter.method = 0
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
 		*packed_size_var = *original_size_var
 	}
+	if err != nil {
+		return 0, err
+	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	indice := 0
+	if *original_size_var != 0 {
+		indice = ((*packed_size_var * 100) / *original_size_var)
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
-- 
2.43.0


From 1540bd0f63f0fce7c5a17e520aa015e3a25191d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:26 +0000
Subject: [PATCH 10/37] fix: copy exactly the requested bytes in copyfile

It wrote the whole buffer whatever had been read, ignored the size limit, took
a short source for success and never computed the CRC of stored members.
---
 extract.go | 10 +++++++++-
 util.go    | 31 +++++++++++++++++++------------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/extract.go b/extract.go
index 1cf021a..9914355 100644
--- a/extract.go
+++ b/extract.go
@@ -83,7 +83,15 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		l.ioErr = nil
+		if VerifyMode {
+			outfp = nil
+		}
+		var err error
+		*read_sizep, err = copyfile(&infp, &outfp, original_size, 2, &crc)
+		if err != nil {
+			l.fail(err)
+		}
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/util.go b/util.go
index 9c2ee72..89f6457 100644
--- a/util.go
+++ b/util.go
@@ -31,7 +31,7 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	if !TextMode {
 		text_flg = 0
 	}
-	if *crcp != 0 {
+	if crcp != nil {
 		initializeCrc(crcp)
 	}
 	if text_flg != 0 {
@@ -40,26 +40,31 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	for size > 0 {
 		/* read */
 		var err error
-		xsize, err = (*f1).Read(buf)
-
-		if xsize == 0 {
-			break
+		if size < len(buf) {
+			buf = buf[:size]
 		}
-		if err != nil && err != io.EOF {
-			return 0, fmt.Errorf("file read error :%v", err.Error())
+		xsize, err = io.ReadFull(*f1, buf)
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return rsize, fmt.Errorf("file read error :%w", err)
 		}
 
 		/* write */
-		_, err = (*f2).Write(buf)
-		if err != nil {
-			return 0, fmt.Errorf("file write error :%v", err.Error())
+		if *f2 != nil {
+			_, err = (*f2).Write(buf[:xsize])
+			if err != nil {
+				return rsize, fmt.Errorf("file write error :%w", err)
+			}
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
+		if crcp != nil {
 			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		}
 		rsize += xsize
+		size -= xsize
 	}
 	return rsize, nil
 }
@@ -70,13 +75,15 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 
 	save_quiet = Quiet
 	Quiet = true
+	defer func() {
+		Quiet = save_quiet
+	}()
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0


From 039fd9ccbc6f32a65b28da338ba87f65f35e2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:24 +0000
Subject: [PATCH 11/37] fix: reject malformed code tables

The errors of makeTable and treeRebuild were dropped, and the walks through the
trees they had not built ran in circles or out of the arrays.
---
 huf.go     | 40 ++++++++++++++++++++++++++++++++--------
 maketbl.go | 10 ++++++----
 pm.go      |  7 +------
 pmtree.go  | 10 +++++++---
 shuf.go    | 42 ++++++++++++++++++++++++------------------
 5 files changed, 70 insertions(+), 39 deletions(-)

diff --git a/huf.go b/huf.go
index 4d7a657..9527728 100644
--- a/huf.go
+++ b/huf.go
@@ -347,6 +347,10 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 	n = int(l.getbits(byte(nbit)))
 	if n == 0 {
 		c = int(l.getbits(byte(nbit)))
+		if c >= int(nn) {
+			l.fail(errBadTable)
+			c = 0
+		}
 		for i = 0; i < int(nn); i++ {
 			ptLen[i] = 0
 		}
@@ -355,7 +359,7 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 		}
 	} else {
 		i = 0
-		for i < min(n, int(Npt)) {
+		for i < min(n, int(Npt)) && l.ioErr == nil {
 			c = int(l.peekbits(3))
 			if c != 7 {
 				_ = l.fillbuf(3)
@@ -384,7 +388,9 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		if err := makeTable(nn, &ptLen, 8, &ptTable); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -395,6 +401,10 @@ func (l *Lha) readCLen( /* void */ ) {
 	n = int16(l.getbits(cbit))
 	if n == 0 {
 		c = int16(l.getbits(cbit))
+		if c >= int16(Nc) {
+			l.fail(errBadTable)
+			c = 0
+		}
 		for i = 0; i < int16(Nc); i++ {
 			cLen[i] = 0
 		}
@@ -403,7 +413,7 @@ func (l *Lha) readCLen( /* void */ ) {
 		}
 	} else {
 		i = 0
-		for i < min16(n, int16(Nc)) {
+		for i < min16(n, int16(Nc)) && l.ioErr == nil {
 			c = int16(ptTable[l.peekbits(8)])
 			if c >= int16(Nt) {
 				var mask uint16 = 1 << (16 - 9)
@@ -414,12 +424,16 @@ func (l *Lha) readCLen( /* void */ ) {
 						c = int16(left[c])
 					}
 					mask >>= 1
-					if c >= int16(Nt) && (mask != 0 || c != int16(left[c])) {
+					if c >= int16(Nt) && mask != 0 {
 						continue
 					} else {
 						break
 					}
 				} // for (c >= NT && (mask || c != left[c])); /* CVE-2006-4338 */
+				if c >= int16(Nt) {
+					l.fail(errBadTable)
+					return
+				}
 			}
 			_ = l.fillbuf(ptLen[c])
 			if c <= 2 {
@@ -433,7 +447,7 @@ func (l *Lha) readCLen( /* void */ ) {
 					}
 				}
 				c--
-				for c >= 0 {
+				for c >= 0 && i < int16(Nc) {
 					cLen[i] = 0
 					i++
 					c--
@@ -447,7 +461,9 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		if err := makeTable(int16(Nc), &cLen, 12, &cTable); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -476,13 +492,17 @@ func (l *Lha) decodeCSt1( /*void*/ ) uint16 {
 				j = left[j]
 			}
 			mask >>= 1
-			if j >= Nc && (mask != 0 || j != left[j]) {
+			if j >= Nc && mask != 0 {
 				continue
 			} else {
 				break
 			}
 			//for (j >= NC && (mask || j != left[j])); /* CVE-2006-4338 */
 		} //for (j >= NC && (mask || j != left[j])); /* CVE-2006-4338 */
+		if j >= Nc {
+			l.fail(errBadTable)
+			return 0
+		}
 		_ = l.fillbuf(cLen[j] - 12)
 	}
 	return j
@@ -499,7 +519,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 	} else {
 		_ = l.fillbuf(8)
 		mask = 1 << (16 - 1)
-		for uint(j) >= np && (mask != 0 || j != left[j]) {
+		for uint(j) >= np && mask != 0 {
 			if (l.bitbuf & mask) != 0 {
 				j = right[j]
 			} else {
@@ -508,6 +528,10 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 			mask >>= 1
 			//for (j >= np && (mask || j != left[j])); /* CVE-2006-4338 */
 		} //for (j >= np && (mask || j != left[j])); /* CVE-2006-4338 */
+		if uint(j) >= np {
+			l.fail(errBadTable)
+			return 0
+		}
 		_ = l.fillbuf(ptLen[j] - 8)
 	}
 	if j != 0 {
diff --git a/maketbl.go b/maketbl.go
index e9d06bd..aafec5e 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -2,6 +2,8 @@ package lha
 
 import "fmt"
 
+var errBadTable = fmt.Errorf("bad table")
+
 type assignmentType int
 
 const (
@@ -15,7 +17,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +45,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint(weight[i]) * uint(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if (total != 0 && total != 0x10000) || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
diff --git a/pm.go b/pm.go
index b4b43ab..fbdafa7 100644
--- a/pm.go
+++ b/pm.go
@@ -1,10 +1,5 @@
 package lha
 
-import (
-	"fmt"
-	"os"
-)
-
 /***********************************************************
 	pm2.c -- extract pmext2 coding
 ***********************************************************/
@@ -107,7 +102,7 @@ func (l *Lha) decodeCPm2() uint16 {
 	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		l.fail(errBadTable)
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 3ba6ca6..9478148 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -39,7 +39,9 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		if err := treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -81,7 +83,9 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			if err := treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]); err != nil {
+				l.fail(err)
+			}
 		}
 	}
 	// Note: count == 0 is possible!
@@ -92,7 +96,7 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
-	for i < 0x80 {
+	for i < 0x80 && l.ioErr == nil {
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
 		} else {
diff --git a/shuf.go b/shuf.go
index 66a4d95..66af72b 100644
--- a/shuf.go
+++ b/shuf.go
@@ -74,7 +74,7 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 	var i, c int
 
 	i = 0
-	for i < n1 {
+	for i < n1 && l.ioErr == nil {
 		if l.getbits(1) != 0 {
 			cLen[i] = byte(l.getbits(byte(lenfield))) + 1
 		} else {
@@ -83,6 +83,10 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 		i++
 		if i == 3 && cLen[0] == 1 && cLen[1] == 1 && cLen[2] == 1 {
 			c = int(l.getbits(cbit))
+			if c >= n1 {
+				l.fail(errBadTable)
+				c = 0
+			}
 			for i = 0; i < n1; i++ {
 				cLen[i] = 0
 			}
@@ -92,7 +96,9 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	if err := makeTable(int16(n1), &cLen, 12, &cTable); err != nil {
+		l.fail(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
@@ -100,7 +106,7 @@ func (l *Lha) readTreeP( /*void*/ ) { /* read tree from file */
 	var i, c int
 
 	i = 0
-	for i < Np_ {
+	for i < Np_ && l.ioErr == nil {
 		ptLen[i] = byte(l.getbits(byte(lenfield)))
 		i++
 		if i == 3 && ptLen[0] == 1 && ptLen[1] == 1 && ptLen[2] == 1 {
@@ -145,7 +151,9 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np_), &ptLen, 8, &ptTable)
+		if err := makeTable(int16(Np_), &ptLen, 8, &ptTable); err != nil {
+			l.fail(err)
+		}
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
@@ -153,18 +161,17 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(cLen[j])
 	} else {
 		_ = l.fillbuf(12)
-		i = int(l.bitbuf)
-		for {
-			if i&0x8000 != 0 {
+		for i = 0x8000; i != 0 && j >= n1; i >>= 1 {
+			if int(l.bitbuf)&i != 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
 			}
-			i <<= 1
-			if j < n1 {
-				break
-			}
 		} //while (j >= N1);
+		if j >= n1 {
+			l.fail(errBadTable)
+			return 0
+		}
 		_ = l.fillbuf(cLen[j] - 12)
 	}
 	if j == n1-1 {
@@ -185,17 +192,16 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(ptLen[j])
 	} else {
 		_ = l.fillbuf(8)
-		i = int(l.bitbuf)
-		for {
-			if i&0x8000 != 0 {
+		for i = 0x8000; i != 0 && j >= int(np); i >>= 1 {
+			if int(l.bitbuf)&i != 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
 			}
-			i <<= 1
-			if j < int(np) {
-				break
-			}
+		}
+		if j >= int(np) {
+			l.fail(errBadTable)
+			return 0
 		}
 		_ = l.fillbuf(ptLen[j] - 8)
 	}
-- 
2.43.0


From 5422b469ec0858b948233e36d37d716f187f2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:58 +0000
Subject: [PATCH 12/37] fix: read the headers of every level as they are
 written

Headers were read with single Read calls that may return less, extended headers
were looped over with the size of the base header, names lost their last byte,
directories were dropped, group and user ids were taken for names, the header CRC
of levels 2 and 3 indexed out of the buffer, a padded level 2 header never ended,
0xff separators were not recognised, and a header object read twice kept fields
of the first member and cut the name of the second to its length.
---
 header.go | 123 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 73 insertions(+), 50 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..a3eaf6e 100644
--- a/header.go
+++ b/header.go
@@ -298,23 +298,26 @@ func wintimeToUnixStamp() uint64 {
 func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint) (error, int) {
 	data := make([]byte, lzheaderStorage)
 	var nameLength int
-	dirname := make([]byte, FilenameLength)
+	dirname := make([]byte, 0)
 	var dirLength, i int
 	wholeSize := headerSize
 	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if len(data) < headerSize {
+			return fmt.Errorf("header size (%d) too large", headerSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
-		if err != nil || nb == 0 {
-			return fmt.Errorf("invalid header (LHA file ?)"), 0
+		if headerSize < n {
+			return fmt.Errorf("header size (%d) too small", headerSize), 0
+		}
+		_, err := io.ReadFull(*fp, data[:headerSize])
+		if err != nil {
+			return fmt.Errorf("invalid header (LHA file ?): %w", err), 0
 		}
 		extType = int(getByte())
 		switch extType {
@@ -324,14 +327,14 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
+			skipBytes(headerSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name, nameLength = getBytes(headerSize-n, FilenameLength-1)
+			l.Name = append(l.Name[:nameLength], 0)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			dirname, dirLength = getBytes(headerSize-n, FilenameLength-1)
+			dirname = dirname[:lengthOfStringInByte(dirname[:dirLength])]
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -355,13 +358,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX gid and uid */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group, i = getBytes(headerSize-n, 255)
+			l.Group = append(l.Group[:i], 0)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User, i = getBytes(headerSize-n, 255)
+			l.User = append(l.User[:i], 0)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -387,10 +394,10 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			         (level 3 on UNLHA32) */
 			skipBytes(headerSize - n)
 		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
-		}
+		*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
 
+		/* the size of the next header ends this one */
+		getPtr = headerSize - l.SizeFieldLength
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
 			wholeSize += headerSize
@@ -400,6 +407,11 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	/* concatenate dirname and filename */
+	if len(dirname) > 0 {
+		l.Name = append(dirname, l.Name...)
+	}
+
 	return nil, wholeSize
 }
 
@@ -484,6 +496,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	l.HeaderSize = int(getByte())
 	headerSize = l.HeaderSize
 	checksum = int(getByte())
+	l.HeaderSize += 2
 
 	/* The data variable has been already read as COMMON_HEADER_SIZE bytes.
 	So we must read the remaining header size by the headerSize. */
@@ -492,10 +505,10 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
-	if err != nil || nb == 0 {
-		return fmt.Errorf("invalid header (LHarc file ?)"), false
+	if err != nil {
+		return fmt.Errorf("invalid header (LHarc file ?): %w", err), false
 	}
 
 	if calcSum(&data, iMethod, headerSize) != checksum {
@@ -509,9 +522,8 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	l.Attribute = getByte() /* MS-DOS attribute */
 	l.HeaderLevel = getByte()
 	nameLength = int(getByte())
-	l.Name, i = getBytes(nameLength+1, len(l.Name)) // sizeof l.name
-	l.Name[i-1] = 0
-	getPtr--
+	l.Name, i = getBytes(nameLength, FilenameLength-1) // sizeof l.name
+	l.Name = append(l.Name[:i], 0)
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
 	l.UnixGid = 0
@@ -557,7 +569,6 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		skipBytes(extendSize)
 	}
 
-	l.HeaderSize += 2
 	return nil, true
 }
 
@@ -611,9 +622,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
-	if err != nil || nb == 0 {
-		return fmt.Errorf("invalid header (LHarc file ?)"), false
+	_, err = io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
+	if err != nil {
+		return fmt.Errorf("invalid header (LHarc file ?): %w", err), false
 	}
 
 	if calcSum(&data, iMethod, headerSize) != checksum {
@@ -630,8 +641,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
-	l.Name[i-1] = 0
+	l.Name, i = getBytes(nameLength, FilenameLength-1) // sizeof(l.name)
+	l.Name = append(l.Name[:i], 0)
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -643,6 +654,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	l.ExtendType = getByte()
 
 	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
+	if dummy < 0 {
+		return fmt.Errorf("unkonwn header (lha file?)"), false
+	}
 	if dummy > 0 {
 		skipBytes(dummy) /* skip old style extend header */
 	}
@@ -711,9 +725,9 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
-	if err != nil || n == 0 {
-		return fmt.Errorf("invalid header (LHarc file ?)"), false
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
+	if err != nil {
+		return fmt.Errorf("invalid header (LHarc file ?): %w", err), false
 	}
 
 	l.Method, _ = getBytes(5, len(l.Method)) // sizeof(l.method)
@@ -735,7 +749,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, iLevel2HeaderSize)
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -746,12 +760,12 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
 	for padding != 0 {
+		padding--
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
-			return err, false
+			return fmt.Errorf("invalid header (LHarc file ?): %w", err), false
 		}
 		hcrc = updateCrc(hcrc, buf[0])
 	}
@@ -798,9 +812,12 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
-	if err != nil || nb == 0 {
-		return fmt.Errorf("invalid header (LHarc file ?)"), false
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("invalid size field length (%d)", l.SizeFieldLength), false
+	}
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
+	if err != nil {
+		return fmt.Errorf("invalid header (LHarc file ?): %w", err), false
 	}
 
 	l.Method, _ = getBytes(5, len(l.Method)) //sizeof(l.method)
@@ -827,7 +844,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, iLevel3HeaderSize)
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
@@ -858,9 +875,10 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	var filenameCase int = none
 	var endMark byte
 
+	*l = *NewLzHeader()
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -868,9 +886,9 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
-	if err != nil || nb == 0 {
-		return fmt.Errorf("invalid header (LHarc file ?)"), false
+	_, err = io.ReadFull(*fp, data[1:commonHeaderSize])
+	if err != nil {
+		return fmt.Errorf("invalid header (LHarc file ?): %w", err), false
 	}
 
 	switch data[iHeaderLevel] {
@@ -898,6 +916,10 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		return fmt.Errorf("unknown level header (level %d)", data[iHeaderLevel]), false
 	}
 
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid packed size (%d)", l.PackedSize), false
+	}
+
 	/* filename conversion */
 	switch l.ExtendType {
 	case ExtendMsdos:
@@ -921,7 +943,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	case ExtendAmiga:
 		{
 			/* workaround */
-			lenName := len(l.Name)
+			lenName := lengthOfStringInByte(l.Name)
 			if lenName > 0 && l.Name[lenName-1] == lhaPathsep && string(l.Method[:]) == Lzhuff0Method {
 				/* replace with "-lhd-" */
 				copy(l.Method[:], LzhdirsMethod)
@@ -962,7 +984,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
+			l.Realname = l.Name[p+1:]
+			l.Name = append(append([]byte{}, l.Name[:p]...), 0)
 			/* ok */
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
@@ -986,7 +1009,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
-- 
2.43.0


From f6fb3e082514ce537c48ec43a37bffc9ba9922c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:59 +0000
Subject: [PATCH 13/37] fix: convert the MS-DOS time stamp of level 0 and 1
 headers

The year was counted from 80 instead of 1980 when written, and the packed fields
were taken for seconds since 1970 when read.
---
 header.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index a3eaf6e..d667285 100644
--- a/header.go
+++ b/header.go
@@ -216,13 +216,19 @@ func putBytes(buf []byte, len int) {
 	}
 }
 
-// nolint: unused, deadcode
 func subbits(n, off, len int) int {
 	return (((n) >> (off)) & ((1 << (len)) - 1))
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	/* MS-DOS date and time, in local time */
+	return time.Date(
+		subbits(int(t), 25, 7)+1980,
+		time.Month(subbits(int(t), 21, 4)),
+		subbits(int(t), 16, 5),
+		subbits(int(t), 11, 5),
+		subbits(int(t), 5, 6),
+		subbits(int(t), 0, 5)*2, 0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -239,7 +245,10 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	if tm.Year() < 1980 {
+		tm = time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)
+	}
+	us := ((tm.Year() - 1980) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
-- 
2.43.0


From 370591eb455a24abe1a6ab074a4e5402f09dcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 14/37] fix: write level 1 and level 2 headers that can be read
 back

Level 1 headers indexed out of their buffer, level 2 headers stored the name
without its type and with the wrong size, the last separator of a path was taken
for its first, symbolic links could not be written, and the mode of a file was
added to a decimal number.
---
 header.go | 83 ++++++++++++++++++++-----------------------------------
 1 file changed, 30 insertions(+), 53 deletions(-)

diff --git a/header.go b/header.go
index d667285..5e9cc4b 100644
--- a/header.go
+++ b/header.go
@@ -1,6 +1,7 @@
 package lha
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -95,17 +96,11 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
 
-	info, err := os.Stat(name)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "Error while getting informations from %s: error :%v\n", name, err)
-		info = vStat
-	}
-
 	// we are not in linux, this won't work anyway in windows,
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(UnixFileRegular) | uint16(vStat.Mode().Perm())
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
@@ -114,12 +109,13 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		if name[len(name)-1] != '/' {
 			name += "/"
 		}
-		hdr.UnixMode += 40000
+		hdr.UnixMode = uint16(UnixFileDirectory) | uint16(vStat.Mode().Perm())
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.UnixMode = uint16(UnixFileSymlink) | uint16(vStat.Mode().Perm())
 		realname, err := os.Readlink(name)
 		if err == nil {
 			copy(hdr.Realname, []byte(realname))
@@ -1181,14 +1177,12 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
-		}
-		pathname = append(pathname, hdr.Name...)
+		/* the name ends at the first '|' */
+		name := hdr.Name[:lengthOfStringInByte(hdr.Name)]
+		pathname = append(pathname, bytes.ReplaceAll(name, []byte("|"), []byte("_"))...)
 		pathname = append(pathname, '|')
 		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, 0)
 	} else {
 		pathname = append(pathname, hdr.Name...)
 		//	copy(pathname, hdr.Name)
@@ -1236,14 +1230,14 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixUID))
 
 	if l.Group[0] != 0 {
-		length := len(l.Group)
+		length := lengthOfStringInByte(l.Group)
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
 	if l.User[0] != 0 {
-		length := len(l.User)
+		length := lengthOfStringInByte(l.User)
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
@@ -1316,22 +1310,14 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
-
-	if index != 0 {
-		basename = pathname[0:index]
-		index++
-		nameLength = lengthOfStringInByte(basename)
-		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
-	} else {
-		basename = pathname
-		nameLength = lengthOfStringInByte(basename)
-		dirname = []byte("")
-		dirLength = 0
-	}
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
+
+	basename = pathname[index+1:]
+	nameLength = lengthOfStringInByte(basename)
+	dirname = pathname[:index+1]
+	dirLength = len(dirname)
 
 	setupPut(&data, 0)
 
@@ -1362,9 +1348,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
+	headerSize = extendHeaderTop - 2
 
 	/* write filename and dirname */
 
@@ -1386,12 +1371,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
@@ -1415,20 +1399,13 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
-
-	if index != -1 {
-		basename = pathname[0:index]
-		index++
-		nameLength = lengthOfStringInByte(basename)
-		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
-	} else {
-		basename = pathname
-		nameLength = lengthOfStringInByte(basename)
-		dirname = []byte("")
-		dirLength = 0
-	}
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
+
+	basename = pathname[index+1:]
+	nameLength = lengthOfStringInByte(basename)
+	dirname = pathname[:index+1]
+	dirLength = len(dirname)
+
 	setupPut(&data, 0)
 
 	putWord(0x0000) /* header size */
@@ -1465,8 +1442,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
-- 
2.43.0


From 5939f389d6621aa85fa99ef74e987e31fc72ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:19 +0000
Subject: [PATCH 15/37] fix: rebuild the archive without losing members, errors
 or the old archive

Adding to an archive dropped or duplicated members, ignored every error met on
the way, left its temporary file behind, followed -u, -n and -m only in part and
replaced the archive with a file that was not complete or not yet on the disk.
---
 header.go |  17 +-
 lha.go    |  35 +--
 lhext.go  | 779 +++++++++++++++++++-----------------------------------
 3 files changed, 300 insertions(+), 531 deletions(-)

diff --git a/header.go b/header.go
index 5e9cc4b..3dcea52 100644
--- a/header.go
+++ b/header.go
@@ -80,7 +80,7 @@ func NewLzHeader() *LzHeader {
 	}
 }
 
-func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
+func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 	//var len int
 	n := copy(hdr.Method[:], []byte(Lzhuff0Method))
 	if n != methodTypeStorage {
@@ -117,13 +117,12 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		hdr.OriginalSize = 0
 		hdr.UnixMode = uint16(UnixFileSymlink) | uint16(vStat.Mode().Perm())
 		realname, err := os.Readlink(name)
-		if err == nil {
-			copy(hdr.Realname, []byte(realname))
-		} else {
-			fmt.Fprintf(os.Stderr, "error while reading symlink error : %v\n", err.Error())
+		if err != nil {
+			return fmt.Errorf("error while reading symlink error : %w", err)
 		}
+		copy(hdr.Realname, []byte(realname))
 	}
-
+	return nil
 }
 
 func calcSum(p *[]byte, start, len int) int {
@@ -1382,6 +1381,12 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	return headerSize + extendHeaderSize + 2
 }
+
+/* the string that ends at the first NUL */
+func cString(b []byte) string {
+	return string(b[:lengthOfStringInByte(b)])
+}
+
 func lengthOfStringInByte(b []byte) int {
 	l := 0
 	for i := 0; i < len(b); i++ {
diff --git a/lha.go b/lha.go
index fe31720..9ea15fe 100644
--- a/lha.go
+++ b/lha.go
@@ -65,6 +65,7 @@ type Lha struct {
 	ioErr                          error /* first error met while coding a member */
 	ExtractDirectory               string
 
+	adding               map[string]bool /* names of the members being added */
 	ExcludeFiles         []string
 	CmdFilev             []string
 	CmdFilec             int
@@ -156,33 +157,35 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
+	defer l.setFile(filename)()
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	defer l.setFile(fileToAdd)()
 	return CommandAdd(l.archiveName, l)
 }
+
+// setFile makes name the only file of the command, until the returned function is called.
+func (l *Lha) setFile(name string) func() {
+	filec, filev := l.CmdFilec, l.CmdFilev
+	l.CmdFilev = []string{name}
+	l.CmdFilec = 1
+	return func() {
+		l.CmdFilec, l.CmdFilev = filec, filev
+	}
+}
diff --git a/lhext.go b/lhext.go
index 97ac92d..04c405f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -148,8 +148,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -168,7 +169,8 @@ func buildStandardArchiveName(buffer, original []byte, size int) []byte {
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
-	f, err := os.CreateTemp("./", "lh")
+	/* beside the archive, which it is renamed to */
+	f, err := os.CreateTemp(filepath.Dir(l.newArchiveName), "lh")
 	if err != nil {
 		return nil, err
 	}
@@ -177,23 +179,86 @@ func buildTemporaryFile(l *Lha) (*os.File, error) {
 }
 func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
 	if !l.Noexec {
-		var v uint
 		l.readingFilename = l.archiveName
 		l.writingFilename = l.temporaryName
-		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, nil)
 		if err != nil {
 			return err
 		}
 
 		/* directory and symlink are ignored for time-stamp archiving */
-		copy(hdr.Method, "-lhd-")
-		if l.mostRecent < hdr.UnixLastModifiedStamp {
+		if string(hdr.Method) != LzhdirsMethod && l.mostRecent < hdr.UnixLastModifiedStamp {
 			l.mostRecent = hdr.UnixLastModifiedStamp
 		}
 	}
 	return nil
 }
 
+// copyOldOnes copies the members of the old archive that are not replaced, all of
+// them or, when the contents are sorted, those that come before the member name.
+func (l *Lha) copyOldOnes(oafp *io.Reader, nafp *io.Writer, name string) error {
+	ahdr := NewLzHeader()
+	for *oafp != nil {
+		old := (*oafp).(io.Seeker)
+		oldHeader, err := old.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if !hasHeader {
+			if err != nil && err != io.EOF {
+				return fmt.Errorf("cannot read archive \"%s\": %w", l.archiveName, err)
+			}
+			*oafp = nil /* end of the old archive */
+			break
+		}
+		ahdrName := cString(ahdr.Name)
+		if l.adding[ahdrName] { /* REPLACE */
+			/* drop old archive's */
+			if _, err = old.Seek(int64(ahdr.PackedSize), io.SeekCurrent); err != nil {
+				return err
+			}
+			continue
+		}
+		if _, err = old.Seek(oldHeader, io.SeekStart); err != nil {
+			return err
+		}
+		if l.SortContents && name != "" && ahdrName > name { /* INSERT */
+			break
+		}
+		/* copy old to new */
+		if err = copyOldOne(oafp, nafp, ahdr, l); err != nil {
+			return fmt.Errorf("cannot copy \"%s\": %w", ahdrName, err)
+		}
+	}
+	return nil
+}
+
+// oldStamps returns the time stamps of the members of the old archive.
+func (l *Lha) oldStamps(oafp *io.Reader) (map[string]int64, error) {
+	stamps := make(map[string]int64)
+	ahdr := NewLzHeader()
+	if *oafp == nil {
+		return stamps, nil
+	}
+	old := (*oafp).(io.Seeker)
+	for {
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if !hasHeader {
+			if err != nil && err != io.EOF {
+				return stamps, fmt.Errorf("cannot read archive \"%s\": %w", l.archiveName, err)
+			}
+			break
+		}
+		stamps[cString(ahdr.Name)] = ahdr.UnixLastModifiedStamp
+		if _, err = old.Seek(int64(ahdr.PackedSize), io.SeekCurrent); err != nil {
+			return stamps, err
+		}
+	}
+	_, err := old.Seek(0, io.SeekStart)
+	return stamps, err
+}
+
 func initSP(sp *stringPool) {
 	sp.Size = 1024 - 0
 	sp.Used = 0
@@ -205,8 +270,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
-	copy(sp.Buffer[sp.N], name)
+	sp.Buffer = append(sp.Buffer, append([]byte{}, name[:size]...))
 	sp.Used += size
 	sp.N++
 }
@@ -215,60 +279,29 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	*vCount = len(*vVector)
 }
 
-func findUpdateFiles(oafp *io.Reader, l *Lha) {
-	name := make([]byte, FilenameLength)
+func findUpdateFiles(stamps map[string]int64, l *Lha) {
 	sp := stringPool{}
-	hdr := NewLzHeader()
-	var lenName int
 
 	initSP(&sp)
 
-	for {
-		err, hasHeader := hdr.GetHeader(oafp)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "error while getting header : %v\n", err.Error())
-			break
-		}
-		if !hasHeader {
-			break
-		}
-		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
-
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
-			}
-		} else {
-			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
-				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
-				if lenName > 0 && name[lenName-1] == '/' {
-					lenName--
-					name[lenName] = 0 /* strip tail '/' */
-				}
-				_, err = os.Lstat(string(name))
-
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
-				}
-			}
+	for name := range stamps {
+		if _, err := os.Lstat(name); err == nil { /* exist ? */
+			addSP(&sp, []byte(name), len(name))
 		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
 	}
 
-	//fseeko(oafp, pos, SEEK_SET)
-
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
-
+	sort.Strings(l.CmdFilev)
 }
 
-// nolint: unused, deadcode
 func buildBackupName(buffer, original string) []byte {
 	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
 }
 func buildBackupFile(l *Lha) error {
+	l.backupArchiveName = buildBackupName("", l.archiveName)
 	return os.Rename(l.archiveName, string(l.backupArchiveName))
 }
 
@@ -278,14 +311,16 @@ func reportArchiveNameIfDifferent(l *Lha) {
 	}
 }
 
-func removeFiles(filec int, filev []string) {
+func removeFiles(filec int, filev []string) error {
 	for i := 0; i < filec; i++ {
-		os.Remove(filev[i])
+		if err := os.Remove(filev[i]); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
-	//var next_pos int
 	var vOriginalSize, vPackedSize int
 
 	l.readingFilename = string(hdr.Name)
@@ -298,7 +333,21 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	out, ok := (*nafp).(*os.File)
+	if !ok {
+		return fmt.Errorf("archive is not a file")
+	}
+	headerPos, err := out.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
+	dataPos, err := out.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
@@ -312,43 +361,47 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
 		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	if err != nil {
+		return err
+	}
 
 	if vPackedSize < vOriginalSize {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
-		var err error
+		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if _, err = out.Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
-		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return err
+		}
+		if err = out.Truncate(dataPos + int64(vPackedSize)); err != nil {
+			return fmt.Errorf("cannot truncate archive error :%w", err)
 		}
-		//}
-
-		//if chsize(fileno(nafp), next_pos) == -1 {
-		//	return fmt.Errorf("cannot truncate archive")
-		//}
 
 		copy(hdr.Method, []byte(Lzhuff0Method))
 	}
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
 	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	if _, err = out.Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = out.Seek(0, io.SeekEnd)
+	return err
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-	ahdr := NewLzHeader()
+func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	var stbuf os.FileInfo
 	var err error
 
@@ -356,107 +409,100 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 
 	stbuf, err = os.Lstat(name)
 	if err != nil {
-		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		return fmt.Errorf("cannot access file \"%s\" error :%w", name, err)
 	}
 
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
-	if !directory && !symlink && !l.Noexec {
-		fp, err = os.Open(name)
+	if !directory && !symlink {
+		f, err := os.Open(name)
 		if err != nil {
-			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
+			return fmt.Errorf("cannot open file \"%s\": %w", name, err)
 		}
+		defer f.Close()
+		fp = f
 	}
 
-	l.initHeader(name, stbuf, hdr)
+	if err = l.initHeader(name, stbuf, hdr); err != nil {
+		return err
+	}
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
+	if err = l.copyOldOnes(oafp, nafp, cString(hdr.Name)); err != nil {
+		return err
+	}
 
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
+	return l.addOne(&fp, nafp, hdr)
+}
+
+// filesToAdd returns the files named in the command, with what directories hold
+// when archiving recursively, without those that are excluded, missing or, when
+// updating, not newer than the member they would replace.
+func (l *Lha) filesToAdd(names []string, stamps map[string]int64) ([]string, error) {
+	var files []string
+	for _, name := range names {
+		if name == l.archiveName {
+			/* exclude target archive */
+			fmt.Printf("specified file \"%s\" is the generating archive. skip", name)
 			continue
 		}
 
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
+		/* exclude files specified by -x option */
+		if l.isExcluded(name) {
+			continue
 		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
 
-				break
-			} else { /* cmp > 0, INSERT */
-
-				break
-			}
+		stbuf, err := os.Lstat(name)
+		if os.IsNotExist(err) {
+			fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
+			continue
+		}
+		if err != nil {
+			return files, fmt.Errorf("cannot access file \"%s\" error :%w", name, err)
 		}
-	}
 
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
+		stamp, found := stamps[filepath.Base(name)]
+		if !l.UpdateIfNewer || !found || stamp < stbuf.ModTime().Unix() {
+			files = append(files, name)
 		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
+
+		if stbuf.IsDir() && l.RecursiveArchiving { /* recursive call */
+			var filec int
+			var filev []string
+			if err = findFiles(name, &filec, &filev, l); err != nil {
+				return files, err
 			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			filev, err = l.filesToAdd(filev, stamps)
+			if err != nil {
+				return files, err
 			}
+			files = append(files, filev...)
 		}
 	}
+	return files, nil
+}
 
-	fp.(*os.File).Close()
-	//fp.Close()
-
-	if directory && l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendIt(filev[i], oafp, nafp)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
+func (l *Lha) isExcluded(name string) bool {
+	for j := 0; j < len(l.ExcludeFiles); j++ {
+		a := strings.ToUpper(l.ExcludeFiles[j])
+		b := strings.ToUpper(filepath.Base(name))
+		if a == b {
+			return true
 		}
 	}
-	return oafp, nil
+	return false
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
+	return l.commandAdd(archiveFilepath, nil)
+}
+
+// commandAdd adds the files of the command or, if there is a body, one member that
+// holds it.
+func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
-	var i int
-	//	var old_header int
 	var oldArchiveExist bool
 	var fw *os.File
 
@@ -470,8 +516,12 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return fmt.Errorf("cannot open archive file \"%s\": %w", l.archiveName, err)
+		}
 		oldArchiveExist = false
 	} else {
+		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
 	}
@@ -483,8 +533,13 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	stamps, err := l.oldStamps(&oafp)
+	if err != nil {
+		return err
+	}
+
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -497,123 +552,101 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		l.newArchiveName = l.archiveName
 	}
 
-	/* build temporary file */
-	/* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		var err error
-		fw, err = buildTemporaryFile(l)
+	/* find needed files when automatic update */
+	if l.UpdateIfNewer && l.CmdFilec == 0 {
+		findUpdateFiles(stamps, l)
+	}
+
+	files := l.CmdFilev[:l.CmdFilec]
+	if body == nil {
+		/* cleaning arguments */
+		files, err = l.filesToAdd(files, stamps)
 		if err != nil {
 			return err
 		}
-		nafp = fw
 	}
-
-	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
+	l.adding = make(map[string]bool)
+	for _, name := range files {
+		l.adding[filepath.Base(name)] = true
 	}
 
-	/* build new archive file */
-	/* cleaning arguments */
-	//cleaningFiles(&CmdFilec, &CmdFilev)
-	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
+	if l.Noexec {
+		for _, name := range files {
+			if _, found := stamps[filepath.Base(name)]; found {
+				fmt.Printf("REPLACE %s\n", name)
+			} else {
+				fmt.Printf("ADD %s\n", name)
+			}
 		}
 		return nil
 	}
 
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
-			continue
+	/* build temporary file */
+	fw, err = buildTemporaryFile(l)
+	if err != nil {
+		return err
+	}
+	renamed := false
+	defer func() {
+		if !renamed {
+			fw.Close()
+			os.Remove(l.temporaryName)
 		}
+	}()
+	nafp = fw
 
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
-			}
+	/* build new archive file */
+	for _, name := range files {
+		if body != nil {
+			err = l.appendBytes(name, &oafp, &nafp, *body)
 		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
+			err = l.appendIt(name, &oafp, &nafp)
 		}
-
-	}
-
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
+		if err != nil {
+			return err
 		}
-		fr.Close()
 	}
 
-	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		//	var tmp int
+	if err = l.copyOldOnes(&oafp, &nafp, ""); err != nil {
+		return err
+	}
 
-		writeArchiveTail(&nafp)
-		//	tmp = ftello(nafp)
-		//	if tmp == -1 {
-		//		warning("ftello(): %s", strerror(errno))
-		//		new_archive_size = 0
-		//	} else {
-		//		new_archive_size = tmp
-		//	}
-		//	fclose(nafp)
-		fw.Close()
+	if err = writeArchiveTail(&nafp); err != nil {
+		return err
+	}
+	/* the new archive must be on the disk before it takes the place of the old one */
+	if err = fw.Sync(); err != nil {
+		return err
+	}
+	if err = fw.Close(); err != nil {
+		return err
 	}
 
 	/* build backup archive file */
 	if oldArchiveExist && l.BackupOldArchive {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %w", err)
 		}
 	}
 
 	reportArchiveNameIfDifferent(l)
 
 	/* copy temporary file to new archive file */
-	if !l.Noexec {
-
-		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
-			if err != nil {
-				return fmt.Errorf("error while renaming file error : %v", err.Error())
-				//	temporaryToNewArchiveFile(newArchiveSize)
-			}
+	err = os.Rename(l.temporaryName, l.newArchiveName)
+	if err != nil {
+		if oldArchiveExist && l.BackupOldArchive {
+			_ = os.Rename(string(l.backupArchiveName), l.archiveName)
 		}
-
-		/* set new archive file mode/group */
-		setArchiveFileMode()
+		return fmt.Errorf("error while renaming file error : %w", err)
 	}
+	renamed = true
+
+	/* set new archive file mode/group */
+	setArchiveFileMode()
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
+	if l.DeleteAfterAppend && body == nil {
+		return removeFiles(len(files), files)
 	}
 
 	return nil
@@ -651,267 +684,30 @@ func (s *StreamFileInfo) Sys() interface{} {
 	return nil
 }
 
-func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) (*io.Reader, error) {
-	ahdr := NewLzHeader()
+func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	stbuf := &StreamFileInfo{
 		name:    name,
 		size:    int64(len(body)),
 		modTime: time.Now(),
 		//sys:     &syscall.Stat_t{Gid: 100, Uid: 100, Mode: 33188},
 	}
-	var err error
 
 	fp = bytes.NewReader(body)
-	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
-
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-				break
-			}
-		}
+	if err := l.initHeader(name, stbuf, hdr); err != nil { // @Todo fill stbuf
+		return err
 	}
 
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-		}
+	if err := l.copyOldOnes(oafp, nafp, cString(hdr.Name)); err != nil {
+		return err
 	}
 
-	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
-		}
-	}
-	return oafp, nil
+	return l.addOne(&fp, nafp, hdr)
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
-	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
-	var oafp io.Reader
-	var nafp io.Writer
-	var i int
-	//	var old_header int
-	var oldArchiveExist bool
-	var fw *os.File
-
-	l.mostRecent = 0
-
-	/* exit if no operation */
-	if !l.UpdateIfNewer && l.CmdFilec == 0 {
-		return fmt.Errorf("no files given in argument, do nothing")
-	}
-
-	/* open old archive if exist */
-	fr, err := openOldArchive(l)
-	if err != nil {
-		oldArchiveExist = false
-	} else {
-		oldArchiveExist = true
-		oafp = fr
-	}
-
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		fmt.Printf("no files given in argument")
-		if err != nil {
-			return fmt.Errorf("archive file \"%s\" does not exists", l.archiveName)
-		}
-	}
-
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
-	}
-
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
-	} else {
-		l.newArchiveName = l.archiveName
-	}
-
-	/* build temporary file */
-	/* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		var err error
-		fw, err = buildTemporaryFile(l)
-		if err != nil {
-			return err
-		}
-		nafp = fw
-	}
-
-	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
-	}
-
-	/* build new archive file */
-	/* cleaning arguments */
-	//cleaningFiles(&CmdFilec, &CmdFilev)
-	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
-		return nil
-	}
-
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
-			continue
-		}
-
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
-		}
-
-	}
-
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
-	}
-
-	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		//	var tmp int
-
-		writeArchiveTail(&nafp)
-		//	tmp = ftello(nafp)
-		//	if tmp == -1 {
-		//		warning("ftello(): %s", strerror(errno))
-		//		new_archive_size = 0
-		//	} else {
-		//		new_archive_size = tmp
-		//	}
-		//	fclose(nafp)
-		fw.Close()
-	}
-
-	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
-		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
-		}
-	}
-
-	reportArchiveNameIfDifferent(l)
-
-	/* copy temporary file to new archive file */
-	if !l.Noexec {
-
-		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
-			if err != nil {
-				return fmt.Errorf("error while renaming file error : %v", err.Error())
-				//	temporaryToNewArchiveFile(newArchiveSize)
-			}
-		}
-
-		/* set new archive file mode/group */
-		setArchiveFileMode()
-	}
-
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
-	}
-
-	return nil
+	return l.commandAdd(archiveFilepath, &body)
 }
 
 func Copy(src, dst string) error {
@@ -1883,56 +1679,21 @@ func printSize(packedSize, originalSize int, l *Lha) {
 	}
 }
 
-func freeFiles(filec int, filev *[]string) {
-	freeSp(filev)
-}
-
-func freeSp(filev *[]string) {
-	(*filev) = (*filev)[:0]
-}
-
-func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
+func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) error {
 
 	sp := &stringPool{}
-	newname := make([]byte, FilenameLength)
-
-	copy(newname, []byte(name))
-	length := len(newname)
-	if length > 0 && newname[length-1] != '/' {
-		newname = append(newname, '/')
-	}
-
-	fileinfo, _ := os.Lstat(name)
-	if !fileinfo.IsDir() {
-		return false
-	}
 
 	initSP(sp)
 	files, err := os.ReadDir(name)
 	if err != nil {
-		return false
-	}
-	if len(files) == 0 {
-		return false
+		return err
 	}
 	for j := 0; j < len(files); j++ {
-		var toExclude bool
-		// are they excluded ?
-		for i := 0; i < len(l.ExcludeFiles); i++ {
-			a := strings.ToUpper(l.ExcludeFiles[i])
-			b := strings.ToUpper(files[j].Name())
-			if a == b {
-				toExclude = true
-				break
-			}
-		}
-		if !toExclude {
-			newname := filepath.Join(name, files[j].Name())
-			addSP(sp, []byte(newname), len(newname))
-		}
+		newname := filepath.Join(name, files[j].Name())
+		addSP(sp, []byte(newname), len(newname))
 	}
 	finishSP(sp, vfilec, vfilev)
 	sort.Strings(*vfilev)
 	//cleaningFiles(vfilec, vfilev)
-	return true
+	return nil
 }
-- 
2.43.0


From ab7d31db622efa438f772a6fbfde3c9fb1e84f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:34 +0000
Subject: [PATCH 16/37] fix: extract members where and only if they may be, and
 report failures

Extraction dropped the directories of a name, followed links, skipped or
overwrote files whatever the answer, ignored errors and CRCs of files, skipped
members without checking that they are there, read past the end of a member, and
operations on two archives at a time shared the state of the coders.
---
 header.go |  35 ++--
 lha.go    |  60 ++++---
 lhext.go  | 528 +++++++++++++++++++++++++-----------------------------
 util.go   |   2 +-
 4 files changed, 300 insertions(+), 325 deletions(-)

diff --git a/header.go b/header.go
index 3dcea52..ecd88da 100644
--- a/header.go
+++ b/header.go
@@ -1036,15 +1036,18 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
 	var n int
-	n, err := (*fp).Read(buffer)
-	if err != nil {
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		return err, 0
 	}
+	f, ok := (*fp).(io.Seeker)
+	if !ok {
+		return fmt.Errorf("cannot seek header"), 1
+	}
 
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	for i := 0; i+commonHeaderSize <= n; i++ {
+		p := buffer[i:n]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
@@ -1052,27 +1055,21 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		/* found "-[lp]??-" keyword (as METHOD type string) */
 
 		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 &&
+			int(p[iHeaderSize])+2 <= len(p) && int(p[iHeaderChecksum]) == calcSum(&p, 2, int(p[iHeaderSize])) {
+			_, err = f.Seek(int64(i-n), io.SeekCurrent)
+			return err, 0
 		}
 
 		/* level 2 header */
 		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+			_, err = f.Seek(int64(i-n), io.SeekCurrent)
+			return err, 0
 		}
 	}
 
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
-	return nil, -1
+	_, err = f.Seek(int64(-n), io.SeekCurrent)
+	return err, -1
 }
 
 // nolint: unused, deadcode
diff --git a/lha.go b/lha.go
index 9ea15fe..1913668 100644
--- a/lha.go
+++ b/lha.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 )
 
 type StringPool struct {
@@ -93,12 +94,28 @@ func (l *Lha) fail(err error) {
 	}
 }
 
+// operation is held by the operation under way: they share the tables of the coders.
+var operation sync.Mutex
+
+// begin starts an operation, which the returned function ends.
+func (l *Lha) begin() func() {
+	operation.Lock()
+	force := l.Force
+	l.skipFlg = false
+	return func() {
+		/* an answer to the questions of an operation is not one to those of the next */
+		l.Force = force
+		operation.Unlock()
+	}
+}
+
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
-	var pos int
+	defer l.begin()()
 	// verify mode here, no extraction
+	verifyMode := VerifyMode
 	VerifyMode = true
 	defer func() {
-		VerifyMode = false
+		VerifyMode = verifyMode
 	}()
 	MakeCrcTable()
 	headers = make([]*LzHeader, 0)
@@ -108,52 +125,54 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	}
 	defer fr.Close()
 	var or io.Reader = fr
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		if err, _ = NewLzHeader().SeekLhaHeader(&or); err != nil {
+			return headers, err
+		}
+	}
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
+		if err == io.EOF {
 			break
 		}
 		if err != nil {
+			return headers, err
+		}
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
-		pos = 0
 		// seek io.reader to + file size
-		if l.needFile(string(h.Name[:])) {
-			readSize, err := l.extractOne(&or, h)
+		member := &io.LimitedReader{R: or, N: int64(h.PackedSize)}
+		var body io.Reader = member
+		if l.needFile(cString(h.Name)) {
+			_, err := l.extractOne(&body, h)
 			if err != nil {
 				return headers, err
 			}
-			if readSize != h.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&or, pos, h.PackedSize, readSize); err != nil {
-					return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
-				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
-			}
+		}
+		if err := skipToNextpos(&or, int(member.N)); err != nil {
+			return headers, fmt.Errorf("cannot seek to next header position from \"%s\": %w", h.Name, err)
 		}
 	}
 	return headers, nil
 }
 
 func (l *Lha) Decompress(header *LzHeader) (err error) {
-	l.HeaderLevel = 2
+	defer l.begin()()
 	MakeCrcTable()
 	return extractWithHeader(header, l)
 }
 
 func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
-	l.HeaderLevel = 2
+	defer l.begin()()
 	MakeCrcTable()
 	return extractBytesWithHeader(header, l)
 }
 
 func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, headerLevel int) (err error) {
+	defer l.begin()()
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
@@ -168,6 +187,7 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
+	defer l.begin()()
 	_, err = os.Stat(l.archiveName)
 	if err != nil && !os.IsNotExist(err) {
 		return err
@@ -177,7 +197,7 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
 	defer l.setFile(fileToAdd)()
-	return CommandAdd(l.archiveName, l)
+	return l.commandAdd(l.archiveName, nil)
 }
 
 // setFile makes name the only file of the command, until the returned function is called.
diff --git a/lhext.go b/lhext.go
index 04c405f..9c302af 100644
--- a/lhext.go
+++ b/lhext.go
@@ -38,57 +38,37 @@ type stringPool struct {
 }
 
 func isDirectoryTraversal(path string) bool {
-	var state int = 0
-
-	for i := 0; i < len(path); i++ {
-		switch state {
-		case 0:
-			if path[i] == '.' {
-				state = 1
-			} else {
-				state = 3
-			}
-
-		case 1:
-			if path[i] == '.' {
-				state = 2
-
-			} else {
-				if path[i] == '/' {
-					state = 0
-				} else {
-					state = 3
-				}
-			}
-
-		case 2:
-			if path[i] == '/' {
-				return true
-			} else {
-				state = 3
-			}
-
-		case 3:
-			if path[i] == '/' {
-				state = 0
-			}
-
+	for _, element := range strings.Split(path, "/") {
+		if element == ".." {
+			return true
 		}
 	}
-	return state == 2
+	return false
 }
 
 func inquire(msg string, name string, selective string) int {
-	reader := bufio.NewReader(os.Stdin)
-
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
-
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
+		/* no more than the answer is read, there may be other questions */
+		var response []byte
+		c := make([]byte, 1)
+		for {
+			n, err := os.Stdin.Read(c)
+			if n > 0 {
+				response = append(response, c[0])
 			}
+			if err != nil {
+				if len(response) == 0 {
+					return strings.Index(selective, "\n") /* no answer */
+				}
+				break
+			}
+			if n > 0 && c[0] == '\n' {
+				break
+			}
+		}
+		if i := strings.IndexByte(selective, response[0]); i != -1 {
+			return i
 		}
 	}
 	/* NOTREACHED */
@@ -107,38 +87,32 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 		return false, err
 	}
 
-	if !stbuf.Mode().IsRegular() {
+	if !stbuf.Mode().IsRegular() && !l.Force {
 		return false, fmt.Errorf("\"%s\" already exists (not a file)", name)
 	}
 
 	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
+		fmt.Printf("EXTRACT %s but file is exist\n", name)
+		return false, nil
 	} else {
 		if !l.Force {
 
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
-
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
-				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 0, 1: /* Y/y */
+
+			case 2, 3, /* N/n */
+				8: /* Return */
+				return false, nil
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
 			}
 		}
 	}
 
-	if l.Noexec {
-		fmt.Printf("EXTRACT %s\n", name)
-	}
 	return true, nil
 }
 
@@ -367,7 +341,7 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return err
 	}
 
-	if vPackedSize < vOriginalSize {
+	if !l.unpackable && vPackedSize < vOriginalSize {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
 		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
@@ -494,6 +468,7 @@ func (l *Lha) isExcluded(name string) bool {
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
+	defer l.begin()()
 	return l.commandAdd(archiveFilepath, nil)
 }
 
@@ -735,10 +710,10 @@ func setArchiveFileMode() {
 }
 
 func CommandList(archiveFilepath string, l *Lha) error {
+	defer l.begin()()
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -750,8 +725,9 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
 	if err != nil {
-		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
+		return fmt.Errorf("cannot open archive \"%s\": %w", l.archiveName, err)
 	}
+	defer f.Close()
 	afp = f
 
 	/* print header message */
@@ -764,23 +740,23 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	for {
 		err, hasHeader = hdr.GetHeader(&afp)
 		if !hasHeader {
+			if err == io.EOF {
+				err = nil
+			}
 			break
 		}
-		if l.needFile(string(hdr.Name[:])) {
+		if l.needFile(cString(hdr.Name)) {
 			l.listOne(hdr)
 			listFiles++
 			packedSizeTotal += hdr.PackedSize
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		if err = skipToNextpos(&afp, hdr.PackedSize); err != nil {
+			return fmt.Errorf("cannot seek to next header position from \"%s\": %w", hdr.Name, err)
+		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* print tailer message */
 	if !Quiet {
 		listTailer(listFiles, packedSizeTotal, originalSizeTotal, l)
@@ -844,24 +820,27 @@ func listHeader(l *Lha) {
 func CommadDelete(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 
-	return nil
+	return fmt.Errorf("cannot delete from \"%s\": not implemented", archiveFilepath)
 }
 
 func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	hdr := NewLzHeader()
-	var pos int
+	var found bool
 	var afp io.Reader
 	var outputData []byte
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
 	if err != nil {
-		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
+		return outputData, fmt.Errorf("cannot open archive file \"%s\": %w", l.archiveName, err)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ = hdr.SeekLhaHeader(&afp); err != nil {
+			return outputData, err
+		}
 	}
 
 	/* extract each files */
@@ -874,55 +853,53 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
-		pos = 0
+		member := &io.LimitedReader{R: afp, N: int64(hdr.PackedSize)}
+		var body io.Reader = member
 
-		if string(hdr.Name) == string(header.Name) {
-			var readSize int
-			readSize, outputData, err = l.extractOneStream(&afp, hdr)
+		if cString(hdr.Name) == cString(header.Name) {
+			found = true
+			_, outputData, err = l.extractOneStream(&body, hdr)
 			if err != nil {
 				return outputData, err
 			}
-			if readSize != hdr.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
-			}
+		}
+		if err := skipToNextpos(&afp, int(member.N)); err != nil {
+			return outputData, fmt.Errorf("cannot seek to next header position from \"%s\": %w", hdr.Name, err)
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
-	/* adjust directory information */
-	l.adjustDirinfo()
+	if !found {
+		return outputData, fmt.Errorf("no member \"%s\" in \"%s\"", header.Name, l.archiveName)
+	}
 
 	return outputData, nil
 }
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
+	var found bool
 	var afp io.Reader
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
 	if err != nil {
-		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
+		return fmt.Errorf("cannot open archive file \"%s\": %w", l.archiveName, err)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ = hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
 	}
 
+	/* adjust directory information */
+	l.dirinfo = nil
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -933,41 +910,33 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
-		pos = 0
+		member := &io.LimitedReader{R: afp, N: int64(hdr.PackedSize)}
+		var body io.Reader = member
 
-		if string(hdr.Name) == string(header.Name) {
-			readSize, err := l.extractOne(&afp, hdr)
+		if cString(hdr.Name) == cString(header.Name) {
+			found = true
+			_, err := l.extractOne(&body, hdr)
 			if err != nil {
 				return err
 			}
-			if readSize != hdr.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
-			}
+		}
+		if err := skipToNextpos(&afp, int(member.N)); err != nil {
+			return fmt.Errorf("cannot seek to next header position from \"%s\": %w", hdr.Name, err)
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
-	/* adjust directory information */
-	l.adjustDirinfo()
+	if !found {
+		return fmt.Errorf("no member \"%s\" in \"%s\"", header.Name, l.archiveName)
+	}
 
 	return nil
 }
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
+	defer l.begin()()
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 	//var read_size int
 
@@ -976,14 +945,21 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
 	if err != nil {
-		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
+		return fmt.Errorf("cannot open archive file \"%s\": %w", l.archiveName, err)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ = hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
 	}
 
+	/* adjust directory information */
+	l.dirinfo = nil
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -994,34 +970,21 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
-		pos = 0
-		if l.needFile(string(hdr.Name[:])) {
-			readSize, err := l.extractOne(&afp, hdr)
+		member := &io.LimitedReader{R: afp, N: int64(hdr.PackedSize)}
+		var body io.Reader = member
+		if l.needFile(cString(hdr.Name)) {
+			_, err := l.extractOne(&body, hdr)
 			if err != nil {
 				return err
 			}
-			if readSize != hdr.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
-			}
+		}
+		if err := skipToNextpos(&afp, int(member.N)); err != nil {
+			return fmt.Errorf("cannot seek to next header position from \"%s\": %w", hdr.Name, err)
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	return nil
 }
 
@@ -1036,14 +999,14 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
+		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
 			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid))
 
 	}
 
@@ -1057,61 +1020,47 @@ func (l *Lha) adjustDirinfo() {
 	}
 }
 
-func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
+func skipToNextpos(fp *io.Reader, off int) error {
+	_, err := io.CopyN(io.Discard, *fp, int64(off))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
-	return nil
+	return err
 }
 
-func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
+func makeNameWithPathcheck(q string, l *Lha) (string, error) {
 
-	var offset int
+	var name string
 	if len(l.ExtractDirectory) > 0 {
 		name = l.ExtractDirectory + "/"
-		offset += len(name)
 	}
-	var p int
-	p = strings.Index(q, "/")
-	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
+	for p := 0; p < len(q); p++ {
+		if q[p] != '/' {
+			continue
+		}
+		st, err := os.Lstat(name + q[:p])
+		if os.IsNotExist(err) {
+			break
 		}
-		_, err = filepath.EvalSymlinks(name)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
-			return false, []byte(name), nil
+			return name, err
+		}
+		if st.Mode()&os.ModeSymlink != 0 {
+			return name, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
 		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
 	}
-	name = q[offset:last]
-	return true, []byte(name), nil
+	return name + q, nil
 }
 
 func makeParentPath(name string) (bool, error) {
 	st, err := os.Lstat(name)
-	if err != nil {
+	if err != nil && !os.IsNotExist(err) {
 		return false, err
 	}
-	if st.IsDir() {
+	if err == nil {
+		if !st.IsDir() {
+			return false, fmt.Errorf("\"%s\" already exists (not a directory)", name)
+		}
 		return true, nil
 	}
 	err = os.MkdirAll(name, 0777)
@@ -1122,52 +1071,64 @@ func makeParentPath(name string) (bool, error) {
 }
 
 func openWithMakePath(name string) (io.Writer, error) {
+	if err := removeOldFile(name); err != nil {
+		return nil, err
+	}
+	if err := os.MkdirAll(filepath.Dir(name), 0777); err != nil {
+		return nil, err
+	}
 	f, err := os.Create(name)
 	if err != nil {
-		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
+		return nil, fmt.Errorf("cannot extract a file \"%s\": %w", name, err)
 	}
 
 	return f, nil
 }
 
+// removeOldFile makes room for the file name: what it replaces may be a link.
+func removeOldFile(name string) error {
+	st, err := os.Lstat(name)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	if st.IsDir() {
+		return fmt.Errorf("\"%s\" is a directory", name)
+	}
+	return os.Remove(name)
+}
+
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
 	var p, tmp, top *LzHeaderList
 
-	(*p) = LzHeaderList{}
 	if string((*hdr).Method[:]) != LzhdirsMethod {
 		return
 	}
-	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
+	p = &LzHeaderList{Hdr: &LzHeader{}}
+	*(*p).Hdr = *hdr
+	(*p).Hdr.Name = []byte(name)
+	top = &LzHeaderList{Next: l.dirinfo}
+	/* what a directory holds comes before it */
 	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
-		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
-			(*p).Next = (*tmp).Next
-			(*tmp).Next = p
+		if string((*p).Hdr.Name) >= string((*tmp).Next.Hdr.Name) {
 			break
 		}
 	}
-
-	if (*tmp).Next == nil {
-		(*p).Next = nil
-		(*tmp).Next = p
-	}
+	(*p).Next = (*tmp).Next
+	(*tmp).Next = p
 	l.dirinfo = (*top).Next
 }
 
-func symlinkWithMakePath(realname string, name string) int {
-	var lCode int
-
-	err := os.Symlink(realname, name)
-	if err != nil {
-		_, _ = makeParentPath(name)
-		err = os.Symlink(realname, name)
-		if err != nil {
-			lCode = 1
-		}
+func symlinkWithMakePath(realname string, name string) error {
+	if err := removeOldFile(name); err != nil {
+		return err
 	}
-
-	return lCode
+	if err := os.MkdirAll(filepath.Dir(name), 0777); err != nil {
+		return err
+	}
+	return os.Symlink(realname, name)
 }
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
@@ -1209,8 +1170,11 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			method,
 			&readSize))
 
+		if l.ioErr != nil {
+			return 0, nil, fmt.Errorf("cannot extract \"%s\": %w", cString(hdr.Name), l.ioErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
-			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
+			return 0, nil, fmt.Errorf("CRC error: \"%s\"", cString(hdr.Name))
 		}
 		b.Flush()
 		return readSize, outputData.Bytes(), nil
@@ -1222,52 +1186,39 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 
 func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
 	var crc uint
 	var method int
 	var saveQuiet, saveVerbose, upFlag bool
-	var q = hdr.Name
-	var c byte
+	var q = cString(hdr.Name)
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
+	/* nothing is written when verifying or to the standard output */
+	writing := !l.OutputToStdout && !VerifyMode
+	if writing && isDirectoryTraversal(q) {
+		return 0, fmt.Errorf("possible directory traversal hack attempt in %s", q)
 	}
 	if l.IgnoreDirectory {
-		p++
+		q = q[strings.LastIndex(q, "/")+1:]
 	} else {
 
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
-		}
-
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
-				p++
-			}
+		if strings.HasPrefix(q, "/") {
+			q = strings.TrimLeft(q, "/")
 
 			/*
 			 * if OSK then strip device name
 			 */
 			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
-				for {
-					c = hdr.Name[p]
-					p++
-					if p >= len(hdr.Name) || c == '/' {
-						break
-					}
-				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
-				}
+				q = strings.TrimLeft(q[strings.Index(q+"/", "/"):], "/")
 			}
 		}
+		if q == "" { /* root or device name only */
+			q = "."
+		}
 
 	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
-	if err != nil || !ok {
-		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
+	name, err := makeNameWithPathcheck(q, l)
+	if writing && err != nil {
+		return 0, err
 	}
 
 	/* LZHDIRS_METHODを持つヘッダをチェックする */
@@ -1281,14 +1232,20 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
+	fileType := int(hdr.UnixMode) & UnixFileTypemask
+	regular := fileType == UnixFileRegular
+	if l.Force && fileType != UnixFileDirectory && fileType != UnixFileSymlink {
+		regular = true /* force extract */
+	}
+
+	if regular && method != LzhdirsMethodNum {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
-		l.writingFilename = string(name[:])
+		l.writingFilename = name
 		if l.OutputToStdout || VerifyMode {
 			/* "Icon\r" should be a resource fork file encoded in MacBinary
 			   format, so that it should be skipped. */
-			if hdr.ExtendType == ExtendMacos && l.DecodeMacbinaryContents && filepath.Base(string(name[:])) == "Icon\r" {
+			if hdr.ExtendType == ExtendMacos && l.DecodeMacbinaryContents && filepath.Base(name) == "Icon\r" {
 				return readSize, nil
 			}
 
@@ -1304,7 +1261,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			saveQuiet = Quiet
 			saveVerbose = l.Verbose
 			if !Quiet && l.OutputToStdout {
-				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", string(name[:]))
+				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name)
 				Quiet = true
 				l.Verbose = false
 			} else {
@@ -1317,7 +1274,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				os.Stdout,
 				hdr.OriginalSize,
 				hdr.PackedSize,
-				string(name[:]),
+				name,
 				method,
 				&readSize))
 			Quiet = saveQuiet
@@ -1325,20 +1282,20 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, _ = inquireExtract(string(name[:]), l)
-				if !upFlag && !l.Force {
-					return readSize, nil
+				upFlag, err = inquireExtract(name, l)
+				if err != nil || !upFlag {
+					return readSize, err
 				}
 			}
 
 			if l.skipFlg {
-				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
+				_, err := os.Lstat(name)
+				if err != nil && !os.IsNotExist(err) {
 					return 0, err
 				}
-				if !l.Force {
+				if err == nil && !l.Force {
 					if !Quiet {
-						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
+						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", name)
 					}
 					return readSize, nil
 				}
@@ -1346,86 +1303,87 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			if l.Noexec {
 				return readSize, nil
 			}
-			var err error
-			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			fp, err = openWithMakePath(name)
+			if err != nil {
+				return readSize, err
+			}
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				name,
+				method,
+				&readSize))
+			if err = fp.(*os.File).Close(); err != nil {
+				l.fail(err)
 			}
-
-			return readSize, nil
 		}
 
+		if l.ioErr != nil {
+			return 0, fmt.Errorf("cannot extract \"%s\": %w", name, l.ioErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, fmt.Errorf("CRC error: \"%s\"", name)
 		}
 	} else {
 		if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileDirectory) || (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) || method == LzhdirsMethodNum {
 			/* ↑これで、Symbolic Link は、大丈夫か？ */
-			if !l.IgnoreDirectory && !VerifyMode && !l.OutputToStdout {
+			if l.IgnoreDirectory || !writing {
+				return readSize, nil
+			} else {
 				if l.Noexec {
 					if !Quiet {
-						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", string(name[:]))
+						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", name)
 					}
 					return readSize, nil
 				}
 				/* NAME has trailing SLASH '/', (^_^) */
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
-					var lcode int
 					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
-						if !upFlag && !l.Force {
-							return readSize, nil
+						upFlag, err = inquireExtract(name, l)
+						if err != nil || !upFlag {
+							return readSize, err
 						}
 					}
 
 					if l.skipFlg {
-						_, err := os.Lstat(string(name[:]))
+						_, err := os.Lstat(name)
+						if err != nil && !os.IsNotExist(err) {
+							return 0, err
+						}
 						if err == nil && !l.Force {
 							if !Quiet {
-								fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
+								fmt.Fprintf(os.Stderr, "%s : Skipped...\n", name)
 							}
 							return readSize, nil
 						}
 					}
 
-					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
-					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+					err = symlinkWithMakePath(cString(hdr.Realname), name)
+					if err != nil {
+						return 0, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\": %w", name, hdr.Realname, err)
 					}
 					if !Quiet {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
 					}
 				} else { /* make directory */
-					ok, err := makeParentPath(string(name[:]))
-					if err != nil || !ok {
-						return readSize, nil
+					_, err = makeParentPath(name)
+					if err != nil {
+						return readSize, err
 					}
 					/* save directory information */
-					l.addDirinfo(string(name[:]), hdr)
+					l.addDirinfo(name, hdr)
 				}
 			}
 		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
-			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
-			}
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
-	if !l.OutputToStdout && !VerifyMode {
+	if writing {
 		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileDirectory) {
-			adjustInfo(string(name[:]), hdr)
+			adjustInfo(name, hdr)
 		}
 	}
 
diff --git a/util.go b/util.go
index 89f6457..26e568a 100644
--- a/util.go
+++ b/util.go
@@ -101,7 +101,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From 2cdbbdf1cf214f9437d1ef3e2f517b8a4dbac67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:35 +0000
Subject: [PATCH 17/37] fix: obey the options and report the failures of the
 commands

---
 cmd/lharc.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..aa24d68 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -90,9 +90,9 @@ func main() {
 	case lha.CmdList:
 		globalError = lha.CommandList(*archiveNameOption, l) // to be tested
 	case lha.CmdDelete:
-		_ = lha.CommadDelete(*archiveNameOption, l) // to implemennt
+		globalError = lha.CommadDelete(*archiveNameOption, l) // to implemennt
 	default:
-		fmt.Fprintf(os.Stderr, "option unknown.")
+		globalError = fmt.Errorf("option unknown")
 		printVersion()
 	}
 
@@ -107,6 +107,9 @@ func main() {
 Parse LHA command and options.
 */
 func parseOption() {
+	l.Verbose = *verbosemodeoption
+	l.Noexec = *nonexecuteoption
+	l.Force = *forceoption
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -125,6 +128,7 @@ func parseOption() {
 
 	if *createfile != "" {
 		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -144,12 +148,14 @@ func parseOption() {
 	if *updatefile {
 		cmd = lha.CmdAdd
 		updateIfNewer = true
+		l.UpdateIfNewer = true
 
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
 		deleteAfterAppend = true
+		l.DeleteAfterAppend = true
 
 	}
 
-- 
2.43.0


From 7e3c377f63f0a8f5f273dab66166b4e918a1ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:52 +0000
Subject: [PATCH 18/37] fix: look for the files to update in a fixed order and
 report failures

---
 lhext.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lhext.go b/lhext.go
index 9c302af..f98a43b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -256,19 +256,29 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	*vCount = len(*vVector)
 }
 
-func findUpdateFiles(stamps map[string]int64, l *Lha) {
+func findUpdateFiles(stamps map[string]int64) ([]string, error) {
+	var filec int
+	var filev []string
 	sp := stringPool{}
 
 	initSP(&sp)
 
+	names := make([]string, 0, len(stamps))
 	for name := range stamps {
-		if _, err := os.Lstat(name); err == nil { /* exist ? */
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		_, err := os.Lstat(name)
+		if err == nil { /* exist ? */
 			addSP(&sp, []byte(name), len(name))
+		} else if !os.IsNotExist(err) {
+			return nil, err
 		}
 	}
 
-	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
-	sort.Strings(l.CmdFilev)
+	finishSP(&sp, &filec, &filev)
+	return filev, nil
 }
 
 func buildBackupName(buffer, original string) []byte {
@@ -527,12 +537,15 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 		l.newArchiveName = l.archiveName
 	}
 
+	files := l.CmdFilev[:l.CmdFilec]
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(stamps, l)
+		files, err = findUpdateFiles(stamps)
+		if err != nil {
+			return err
+		}
 	}
 
-	files := l.CmdFilev[:l.CmdFilec]
 	if body == nil {
 		/* cleaning arguments */
 		files, err = l.filesToAdd(files, stamps)
-- 
2.43.0


From 2e8ce7874a1f6c4a7d27b4012cbd89e73e73ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:36 +0000
Subject: [PATCH 19/37] fix: make the CRC table before the commands use it

---
 lhext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lhext.go b/lhext.go
index f98a43b..29d1543 100644
--- a/lhext.go
+++ b/lhext.go
@@ -479,6 +479,7 @@ func (l *Lha) isExcluded(name string) bool {
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
 	defer l.begin()()
+	MakeCrcTable()
 	return l.commandAdd(archiveFilepath, nil)
 }
 
@@ -724,6 +725,7 @@ func setArchiveFileMode() {
 
 func CommandList(archiveFilepath string, l *Lha) error {
 	defer l.begin()()
+	MakeCrcTable()
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
@@ -949,6 +951,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
 	defer l.begin()()
+	MakeCrcTable()
 	hdr := NewLzHeader()
 	var afp io.Reader
 	//var read_size int
-- 
2.43.0


From 246c96c0a8eb4a5596c662e99c206b6a017c3908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 20/37] fix: name the member even when its path cannot be
 checked

With -t and -p the name printed for a member was the extraction directory
alone when a part of its path was a link or could not be looked at.
---
 lhext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lhext.go b/lhext.go
index 29d1543..ebacf86 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1059,10 +1059,10 @@ func makeNameWithPathcheck(q string, l *Lha) (string, error) {
 			break
 		}
 		if err != nil {
-			return name, err
+			return name + q, err
 		}
 		if st.Mode()&os.ModeSymlink != 0 {
-			return name, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
+			return name + q, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
 		}
 	}
 	return name + q, nil
-- 
2.43.0


From d9e1330007fbacb7488455c3dea6fcbefcdd7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:57 +0000
Subject: [PATCH 21/37] fix: report that the title of a member could not be
 printed

---
 lhext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index ebacf86..569f7af 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1277,7 +1277,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			saveQuiet = Quiet
 			saveVerbose = l.Verbose
 			if !Quiet && l.OutputToStdout {
-				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name)
+				if _, err = fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", name); err != nil {
+					return 0, err
+				}
 				Quiet = true
 				l.Verbose = false
 			} else {
-- 
2.43.0


From d4264920b46e20e41c983ca72cbb6d30dae1c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:30 +0000
Subject: [PATCH 22/37] fix: do not keep the mark of a new archive for the next
 operation

A CommandAdd with an object that had created an archive with Compress or
CompressBytes threw away the members of the archive.
---
 lha.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lha.go b/lha.go
index 1913668..26c56d1 100644
--- a/lha.go
+++ b/lha.go
@@ -102,6 +102,7 @@ func (l *Lha) begin() func() {
 	operation.Lock()
 	force := l.Force
 	l.skipFlg = false
+	l.newArchive = false
 	return func() {
 		/* an answer to the questions of an operation is not one to those of the next */
 		l.Force = force
-- 
2.43.0


From 5d1909b03299b0e979569743a161e5a305f5ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:08 +0000
Subject: [PATCH 23/37] fix: stop decoding at the code that cannot be decoded

---
 slide.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slide.go b/slide.go
index b68e1ad..06c493b 100644
--- a/slide.go
+++ b/slide.go
@@ -143,6 +143,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 	l.loc = 0
 	for decodeCount < l.origsize && l.ioErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
+		if l.ioErr != nil { /* c is not a code of the member */
+			break
+		}
 		if c < 256 {
 			if l.DumpLzss {
 				b := c
@@ -165,6 +168,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 			match.len = int(c - adjust)
 			match.off = uint(l.decodeMethodP(inter.method)) + 1
+			if l.ioErr != nil {
+				break
+			}
 			matchpos = (uint(l.loc) - match.off) & dicsiz1
 			if l.DumpLzss {
 				fmt.Printf("%d <%d %d>\n",
-- 
2.43.0


From 9cad2b3245894c44e49fc8270d2077ec153ef55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:43 +0000
Subject: [PATCH 24/37] fix: clear the tables of lh3 before a member is decoded

---
 shuf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shuf.go b/shuf.go
index 66af72b..2a06dd2 100644
--- a/shuf.go
+++ b/shuf.go
@@ -23,6 +23,13 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
 	blocksize = 0
+	/* a table without codes must not mean the codes of another member */
+	for i := range cTable {
+		cTable[i] = 0
+	}
+	for i := range ptTable {
+		ptTable[i] = 0
+	}
 }
 
 /* ------------------------------------------------------------------------ */
-- 
2.43.0


From d12de84e6f2181ea6309f09b3b233b458d49d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:16 +0000
Subject: [PATCH 25/37] fix: do not read on after the end of a source that
 grows

---
 slide.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/slide.go b/slide.go
index 06c493b..2cd94db 100644
--- a/slide.go
+++ b/slide.go
@@ -277,12 +277,15 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	copy(text[0:], text[dicsiz:txtsiz])
 
-	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
-	if err != nil && io.EOF != err {
-		l.fail(fmt.Errorf("error while freadCrc : %w", err))
-	}
+	/* after the end of the file, what is appended to it meanwhile is not read */
+	if *pos+l.remainder >= uint(txtsiz) {
+		n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
+		if err != nil && io.EOF != err {
+			l.fail(fmt.Errorf("error while freadCrc : %w", err))
+		}
 
-	l.remainder += uint(n)
+		l.remainder += uint(n)
+	}
 
 	*pos -= uint(dicsiz)
 	for i = 0; i < hshsiz; i++ {
-- 
2.43.0


From 4d4dd8d0ceec7845eace0f01ce6e2c291071c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 26/37] fix: refuse names that the header cannot hold

---
 header.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index ecd88da..5246221 100644
--- a/header.go
+++ b/header.go
@@ -91,6 +91,9 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 	hdr.Attribute = genericAttribute
 	hdr.HeaderLevel = byte(l.HeaderLevel)
 	filename := filepath.Base(name)
+	if len(filename) >= len(hdr.Name) {
+		return fmt.Errorf("the length of pathname \"%s\" is too long", filename)
+	}
 	copy(hdr.Name[:], filename)
 	hdr.Crc = 0x0000
 	hdr.ExtendType = ExtendUnix
@@ -120,6 +123,9 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 		if err != nil {
 			return fmt.Errorf("error while reading symlink error : %w", err)
 		}
+		if len(realname) >= len(hdr.Realname) {
+			return fmt.Errorf("the target of the symlink \"%s\" is too long", name)
+		}
 		copy(hdr.Realname, []byte(realname))
 	}
 	return nil
@@ -1197,6 +1203,9 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	switch hdr.HeaderLevel {
 	case 0:
 		headerSize = hdr.writeHeaderLevel0(data, pathname)
+		if headerSize < 0 {
+			return fmt.Errorf("the length of pathname \"%s\" is too long", cString(pathname))
+		}
 	case 1:
 		headerSize = hdr.writeHeaderLevel1(data, pathname)
 	case 2:
@@ -1273,8 +1282,7 @@ func (l *LzHeader) writeHeaderLevel0(data []byte, pathname []byte) int {
 	}
 
 	if nameLength > limit {
-		fmt.Fprintf(os.Stderr, "the length of pathname \"%s\" is too long.", pathname)
-		nameLength = limit
+		return -1
 	}
 	putByte(byte(nameLength))
 	putBytes(pathname, nameLength)
-- 
2.43.0


From 409295786f9831fa482fcf412a65f60eb0c307cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:02 +0000
Subject: [PATCH 27/37] fix: do not take the archive for one of its sources,
 however it is spelled

---
 lhext.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 569f7af..079a6e7 100644
--- a/lhext.go
+++ b/lhext.go
@@ -422,7 +422,7 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) error {
 // filesToAdd returns the files named in the command, with what directories hold
 // when archiving recursively, without those that are excluded, missing or, when
 // updating, not newer than the member they would replace.
-func (l *Lha) filesToAdd(names []string, stamps map[string]int64) ([]string, error) {
+func (l *Lha) filesToAdd(names []string, stamps map[string]int64, archive os.FileInfo) ([]string, error) {
 	var files []string
 	for _, name := range names {
 		if name == l.archiveName {
@@ -444,6 +444,10 @@ func (l *Lha) filesToAdd(names []string, stamps map[string]int64) ([]string, err
 		if err != nil {
 			return files, fmt.Errorf("cannot access file \"%s\" error :%w", name, err)
 		}
+		if archive != nil && os.SameFile(stbuf, archive) {
+			fmt.Printf("specified file \"%s\" is the generating archive. skip", name)
+			continue
+		}
 
 		stamp, found := stamps[filepath.Base(name)]
 		if !l.UpdateIfNewer || !found || stamp < stbuf.ModTime().Unix() {
@@ -456,7 +460,7 @@ func (l *Lha) filesToAdd(names []string, stamps map[string]int64) ([]string, err
 			if err = findFiles(name, &filec, &filev, l); err != nil {
 				return files, err
 			}
-			filev, err = l.filesToAdd(filev, stamps)
+			filev, err = l.filesToAdd(filev, stamps, archive)
 			if err != nil {
 				return files, err
 			}
@@ -549,7 +553,13 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 
 	if body == nil {
 		/* cleaning arguments */
-		files, err = l.filesToAdd(files, stamps)
+		var archive os.FileInfo
+		if fr != nil {
+			if archive, err = fr.Stat(); err != nil {
+				return fmt.Errorf("cannot access archive file \"%s\": %w", l.archiveName, err)
+			}
+		}
+		files, err = l.filesToAdd(files, stamps, archive)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 20c9bb98f5c835a4b50ae39e993edb8db2de1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:55 +0000
Subject: [PATCH 28/37] fix: add a file that is named twice once

---
 lhext.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lhext.go b/lhext.go
index 079a6e7..c31b901 100644
--- a/lhext.go
+++ b/lhext.go
@@ -563,6 +563,20 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 		if err != nil {
 			return err
 		}
+		/* a file named twice is one member */
+		named := make(map[string]bool)
+		once := files[:0:0]
+		for _, name := range files {
+			path, err := filepath.Abs(name)
+			if err != nil {
+				return err
+			}
+			if !named[path] {
+				named[path] = true
+				once = append(once, name)
+			}
+		}
+		files = once
 	}
 	l.adding = make(map[string]bool)
 	for _, name := range files {
-- 
2.43.0


From 733fd67e904955b9242f0ceccc5f0554bd675c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:10 +0000
Subject: [PATCH 29/37] fix: update members that lie in directories under their
 own names

---
 header.go |  3 +--
 lhext.go  | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 5246221..7a5485c 100644
--- a/header.go
+++ b/header.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"os"
 	"path"
-	"path/filepath"
 	"strings"
 
 	"time"
@@ -90,7 +89,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 	hdr.OriginalSize = int(vStat.Size())
 	hdr.Attribute = genericAttribute
 	hdr.HeaderLevel = byte(l.HeaderLevel)
-	filename := filepath.Base(name)
+	filename := l.memberName(name)
 	if len(filename) >= len(hdr.Name) {
 		return fmt.Errorf("the length of pathname \"%s\" is too long", filename)
 	}
diff --git a/lhext.go b/lhext.go
index c31b901..deae6a6 100644
--- a/lhext.go
+++ b/lhext.go
@@ -449,7 +449,7 @@ func (l *Lha) filesToAdd(names []string, stamps map[string]int64, archive os.Fil
 			continue
 		}
 
-		stamp, found := stamps[filepath.Base(name)]
+		stamp, found := stamps[l.memberName(name)]
 		if !l.UpdateIfNewer || !found || stamp < stbuf.ModTime().Unix() {
 			files = append(files, name)
 		}
@@ -470,6 +470,15 @@ func (l *Lha) filesToAdd(names []string, stamps map[string]int64, archive os.Fil
 	return files, nil
 }
 
+// memberName returns the name of the member that holds a file. When the members of
+// the archive are what is updated, the files have their names.
+func (l *Lha) memberName(name string) string {
+	if l.UpdateIfNewer && l.CmdFilec == 0 {
+		return name
+	}
+	return filepath.Base(name)
+}
+
 func (l *Lha) isExcluded(name string) bool {
 	for j := 0; j < len(l.ExcludeFiles); j++ {
 		a := strings.ToUpper(l.ExcludeFiles[j])
@@ -580,12 +589,12 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	}
 	l.adding = make(map[string]bool)
 	for _, name := range files {
-		l.adding[filepath.Base(name)] = true
+		l.adding[l.memberName(name)] = true
 	}
 
 	if l.Noexec {
 		for _, name := range files {
-			if _, found := stamps[filepath.Base(name)]; found {
+			if _, found := stamps[l.memberName(name)]; found {
 				fmt.Printf("REPLACE %s\n", name)
 			} else {
 				fmt.Printf("ADD %s\n", name)
-- 
2.43.0


From bf07248cf11f3cb17727e15d7d1bc06bd222c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:51 +0000
Subject: [PATCH 30/37] fix: remove moved directories after what they hold

---
 lhext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lhext.go b/lhext.go
index deae6a6..636ad00 100644
--- a/lhext.go
+++ b/lhext.go
@@ -296,6 +296,9 @@ func reportArchiveNameIfDifferent(l *Lha) {
 }
 
 func removeFiles(filec int, filev []string) error {
+	/* what lies in a directory goes before it */
+	filev = append([]string{}, filev[:filec]...)
+	sort.SliceStable(filev, func(i, j int) bool { return len(filev[i]) > len(filev[j]) })
 	for i := 0; i < filec; i++ {
 		if err := os.Remove(filev[i]); err != nil {
 			return err
-- 
2.43.0


From f9524008c7980f1244fe5eb2dad84d7d5e92c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:09 +0000
Subject: [PATCH 31/37] fix: fail on an invalid compression method or header
 level

---
 cmd/lharc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index aa24d68..206ce89 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -193,7 +193,8 @@ func parseSubOption() {
 		case 7:
 			l.CompressMethod = lha.Lzhuff7MethodNum
 		default:
-			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'", *compressionmethod)
+			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'\n", *compressionmethod)
+			cmd = lha.CmdUnknown
 			return
 		}
 	}
@@ -208,6 +209,9 @@ func parseSubOption() {
 			l.HeaderLevel = 0
 		case 1:
 			l.HeaderLevel = 1
+		default:
+			fmt.Fprintf(os.Stderr, "invalid header level %d\n", *headerlevel)
+			cmd = lha.CmdUnknown
 		}
 	}
 }
-- 
2.43.0


From 83e2f8dbea4719ffcd78a3dade53beacffacfbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:14 +0000
Subject: [PATCH 32/37] fix: keep the permissions of an archive that is updated

---
 lhext.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/lhext.go b/lhext.go
index 636ad00..da77fce 100644
--- a/lhext.go
+++ b/lhext.go
@@ -506,6 +506,7 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	var oafp io.Reader
 	var nafp io.Writer
 	var oldArchiveExist bool
+	var archive os.FileInfo
 	var fw *os.File
 
 	l.mostRecent = 0
@@ -526,6 +527,9 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
+		if archive, err = fr.Stat(); err != nil {
+			return fmt.Errorf("cannot access archive file \"%s\": %w", l.archiveName, err)
+		}
 	}
 
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -565,12 +569,6 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 
 	if body == nil {
 		/* cleaning arguments */
-		var archive os.FileInfo
-		if fr != nil {
-			if archive, err = fr.Stat(); err != nil {
-				return fmt.Errorf("cannot access archive file \"%s\": %w", l.archiveName, err)
-			}
-		}
 		files, err = l.filesToAdd(files, stamps, archive)
 		if err != nil {
 			return err
@@ -639,6 +637,10 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	if err = writeArchiveTail(&nafp); err != nil {
 		return err
 	}
+	/* set new archive file mode */
+	if err = setArchiveFileMode(fw, archive); err != nil {
+		return err
+	}
 	/* the new archive must be on the disk before it takes the place of the old one */
 	if err = fw.Sync(); err != nil {
 		return err
@@ -666,9 +668,6 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	}
 	renamed = true
 
-	/* set new archive file mode/group */
-	setArchiveFileMode()
-
 	/* remove archived files */
 	if l.DeleteAfterAppend && body == nil {
 		return removeFiles(len(files), files)
@@ -755,8 +754,12 @@ func Copy(src, dst string) error {
 	return out.Close()
 }
 
-func setArchiveFileMode() {
-
+// setArchiveFileMode gives the new archive the permissions of the old one.
+func setArchiveFileMode(f *os.File, old os.FileInfo) error {
+	if old == nil {
+		return nil
+	}
+	return f.Chmod(old.Mode().Perm())
 }
 
 func CommandList(archiveFilepath string, l *Lha) error {
-- 
2.43.0


From d1dd34996ab7c8ca9791cb2d71d7e5701399fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:47 +0000
Subject: [PATCH 33/37] fix: list and update self-extracting archives

---
 header.go |  2 +-
 lhext.go  | 54 +++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/header.go b/header.go
index 7a5485c..0b2676e 100644
--- a/header.go
+++ b/header.go
@@ -1067,7 +1067,7 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		}
 
 		/* level 2 header */
-		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
+		if p[iHeaderLevel] == 2 && int(p[iHeaderSize])|int(p[iHeaderChecksum])<<8 >= iLevel2HeaderSize && p[iAttribute] == 0x20 {
 			_, err = f.Seek(int64(i-n), io.SeekCurrent)
 			return err, 0
 		}
diff --git a/lhext.go b/lhext.go
index da77fce..56d0c58 100644
--- a/lhext.go
+++ b/lhext.go
@@ -137,9 +137,9 @@ func modifyFilenameExtenstion(buffer, ext []byte, size int) []byte {
 
 }
 
-func buildStandardArchiveName(buffer, original []byte, size int) []byte {
-	copy(buffer, original[:size])
-	return modifyFilenameExtenstion(buffer, []byte(archiveNameExtension), size)
+func buildStandardArchiveName(original string) string {
+	name := strings.TrimSuffix(original, filepath.Ext(original))
+	return string(modifyFilenameExtenstion([]byte(name), []byte(archiveNameExtension), len(name)))
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
@@ -216,6 +216,10 @@ func (l *Lha) oldStamps(oafp *io.Reader) (map[string]int64, error) {
 		return stamps, nil
 	}
 	old := (*oafp).(io.Seeker)
+	start, err := old.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return stamps, err
+	}
 	for {
 		err, hasHeader := ahdr.GetHeader(oafp)
 		if !hasHeader {
@@ -229,7 +233,7 @@ func (l *Lha) oldStamps(oafp *io.Reader) (map[string]int64, error) {
 			return stamps, err
 		}
 	}
-	_, err := old.Seek(0, io.SeekStart)
+	_, err = old.Seek(start, io.SeekStart)
 	return stamps, err
 }
 
@@ -290,7 +294,7 @@ func buildBackupFile(l *Lha) error {
 }
 
 func reportArchiveNameIfDifferent(l *Lha) {
-	if !Quiet && l.newArchiveName == string(l.newArchiveNameBuffer) {
+	if !Quiet && l.newArchiveName != l.archiveName {
 		fmt.Printf("New archive file is \"%s\"", l.newArchiveName)
 	}
 }
@@ -539,6 +543,26 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 		}
 	}
 
+	l.newArchiveName = l.archiveName
+	if oafp != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		if err, _ = NewLzHeader().SeekLhaHeader(&oafp); err != nil {
+			return err
+		}
+		start, err := fr.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+		if start > 0 && !l.newArchive && !l.NewArchive { /* the program stays as it is */
+			l.newArchiveName = buildStandardArchiveName(l.archiveName)
+			if _, err = os.Lstat(l.newArchiveName); !os.IsNotExist(err) {
+				if err == nil {
+					err = os.ErrExist
+				}
+				return fmt.Errorf("cannot make archive file \"%s\": %w", l.newArchiveName, err)
+			}
+		}
+	}
+
 	stamps, err := l.oldStamps(&oafp)
 	if err != nil {
 		return err
@@ -548,16 +572,6 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 		oafp = nil
 	}
 
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
-	} else {
-		l.newArchiveName = l.archiveName
-	}
-
 	files := l.CmdFilev[:l.CmdFilec]
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -650,7 +664,7 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && l.newArchiveName == l.archiveName {
 		if err := buildBackupFile(l); err != nil {
 			return fmt.Errorf("error while buildBackupFile : %w", err)
 		}
@@ -661,7 +675,7 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 	/* copy temporary file to new archive file */
 	err = os.Rename(l.temporaryName, l.newArchiveName)
 	if err != nil {
-		if oldArchiveExist && l.BackupOldArchive {
+		if oldArchiveExist && l.BackupOldArchive && l.newArchiveName == l.archiveName {
 			_ = os.Rename(string(l.backupArchiveName), l.archiveName)
 		}
 		return fmt.Errorf("error while renaming file error : %w", err)
@@ -784,6 +798,12 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	defer f.Close()
 	afp = f
 
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		if err, _ = hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
+	}
+
 	/* print header message */
 	if !Quiet {
 		listHeader(l)
-- 
2.43.0


From a9da75d9fa81626aae4542355ea7b39852bed816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 34/37] fix: list the permissions of OS-9/68K members

---
 lhext.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 56d0c58..58089f2 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1553,9 +1553,7 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 		fmt.Printf("%s ", modebits)
 
-	case ExtendOs68k:
-		/**/
-	case ExtendXosk: /**/
+	case ExtendOs68k, ExtendXosk:
 		mode = int(hdr.UnixMode)
 		if mode&oskDirectoryPerm != 0 {
 			modebits[0] = 'd'
-- 
2.43.0


From 485e8d05e24f63553b50aaccb225c79d4ecc2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:59 +0000
Subject: [PATCH 35/37] fix: read long names of directories and links whole

---
 header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 0b2676e..193b9e2 100644
--- a/header.go
+++ b/header.go
@@ -339,10 +339,10 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			skipBytes(headerSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(headerSize-n, FilenameLength-1)
+			l.Name, nameLength = getBytes(headerSize-n, headerSize-n)
 			l.Name = append(l.Name[:nameLength], 0)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, FilenameLength-1)
+			dirname, dirLength = getBytes(headerSize-n, headerSize-n)
 			dirname = dirname[:lengthOfStringInByte(dirname[:dirLength])]
 		case 0x40:
 			/* MS-DOS attribute */
-- 
2.43.0


From b89a7e511437e3ca752ab110123316a91e3fbfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:28 +0000
Subject: [PATCH 36/37] fix: move what a directory holds before it, however the
 two are named

---
 lhext.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lhext.go b/lhext.go
index 58089f2..a6f2f2b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -300,9 +300,17 @@ func reportArchiveNameIfDifferent(l *Lha) {
 }
 
 func removeFiles(filec int, filev []string) error {
-	/* what lies in a directory goes before it */
+	/* what lies in a directory goes before it, however the two are spelled */
 	filev = append([]string{}, filev[:filec]...)
-	sort.SliceStable(filev, func(i, j int) bool { return len(filev[i]) > len(filev[j]) })
+	depth := make(map[string]int)
+	for _, name := range filev {
+		path, err := filepath.Abs(name)
+		if err != nil {
+			return err
+		}
+		depth[name] = len(path)
+	}
+	sort.SliceStable(filev, func(i, j int) bool { return depth[filev[i]] > depth[filev[j]] })
 	for i := 0; i < filec; i++ {
 		if err := os.Remove(filev[i]); err != nil {
 			return err
-- 
2.43.0


From d0fcf996b3b10e93d92f9182207233ba14ece16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:28 +0000
Subject: [PATCH 37/37] fix: keep a sorted archive sorted when files of several
 directories are added

---
 lhext.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lhext.go b/lhext.go
index a6f2f2b..c6ba3f6 100644
--- a/lhext.go
+++ b/lhext.go
@@ -609,6 +609,11 @@ func (l *Lha) commandAdd(archiveFilepath string, body *[]byte) error {
 			}
 		}
 		files = once
+		if l.SortContents {
+			sort.SliceStable(files, func(i, j int) bool {
+				return l.memberName(files[i]) < l.memberName(files[j])
+			})
+		}
 	}
 	l.adding = make(map[string]bool)
 	for _, name := range files {
-- 
2.43.0

