From e2dd60ce90411ccf94cfaebaf2ec2971c01d51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 01/15] fix: take the buffer lock before the bounds checks and
 release it on panic (v1, v2)

The bounds checks read cap/bcap before the lock was taken, so a concurrent
Grow or Reset could invalidate them, and write and grow paths that panicked
(an empty slice, for example) left the mutex locked for ever.
---
 v1/buffer.go |  31 +++++++--------
 v2/buffer.go | 108 ++++++++++++++++++++++++---------------------------
 2 files changed, 66 insertions(+), 73 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..00f875a 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -65,6 +65,9 @@ func NewBuffer(slices ...[]byte) (buf *Buffer) {
 // readbit reads a bit from the bitfield at the specified offset
 func (b *Buffer) readbit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverreadError)
@@ -77,9 +80,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -99,6 +99,9 @@ func (b *Buffer) readbits(off, n int64) (v uint64) {
 // setbit sets a bit in the bitfield to the specified value
 func (b *Buffer) setbit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverwriteError)
@@ -111,9 +114,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -143,6 +143,9 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 // flipbit flips a bit in the bitfield
 func (b *Buffer) flipbit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverwriteError)
@@ -155,9 +158,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -239,6 +239,9 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -251,8 +254,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	i := int64(0)
 	n := int64(len(data))
 
@@ -267,8 +268,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeComplex writes a slice of bytes to the buffer at the specified offset with the specified endianness and integer type
@@ -343,6 +342,9 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n) > b.cap {
 
 		panic(BufferOverreadError)
@@ -355,9 +357,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..e50fbdb 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -62,6 +62,9 @@ func NewBuffer(slices ...[]byte) (buf *Buffer) {
 // readbit reads a bit from the bitfield at the specified offset
 func (b *Buffer) readbit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverreadError)
@@ -74,9 +77,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -104,6 +104,9 @@ func (b *Buffer) readbits(off, n int64) (out uint64) {
 // setbit sets a bit in the bitfield to the specified value
 func (b *Buffer) setbit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverwriteError)
@@ -116,9 +119,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -155,6 +155,9 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 // flipbit flips a bit in the bitfield
 func (b *Buffer) flipbit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverwriteError)
@@ -167,9 +170,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -279,6 +279,9 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -291,8 +294,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = int64(0)
 		n = int64(len(data))
@@ -308,13 +309,14 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))*2) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -327,8 +329,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -346,13 +346,14 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))*2) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -365,8 +366,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -384,13 +383,14 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))*4) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -403,8 +403,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -424,13 +422,14 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))*4) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -443,8 +442,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -464,13 +461,14 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))*8) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -483,8 +481,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -508,13 +504,14 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + int64(len(data))*8) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -527,8 +524,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -552,13 +547,14 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n) > b.cap {
 
 		panic(BufferOverreadError)
@@ -571,9 +567,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -581,6 +574,9 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n*2) > b.cap {
 
 		panic(BufferOverreadError)
@@ -595,9 +591,6 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -619,6 +612,9 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n*2) > b.cap {
 
 		panic(BufferOverreadError)
@@ -633,9 +629,6 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -657,6 +650,9 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n*4) > b.cap {
 
 		panic(BufferOverreadError)
@@ -671,9 +667,6 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -697,6 +690,9 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n*4) > b.cap {
 
 		panic(BufferOverreadError)
@@ -711,9 +707,6 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -737,6 +730,9 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n*8) > b.cap {
 
 		panic(BufferOverreadError)
@@ -751,9 +747,6 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -781,6 +774,9 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	if (off + n*8) > b.cap {
 
 		panic(BufferOverreadError)
@@ -795,8 +791,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
 	i := int64(0)
 	{
 	read_loop:
-- 
2.43.0


From bd3cc1b98e48e0596ead46a785e080b557005522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 02/15] fix: make Buffer.Grow atomic and release its lock on
 panic (v1, v2)

grow unlocked between extending the storage and updating the cached sizes,
and an impossible amount panicked inside make with the mutex still held.
---
 v1/buffer.go | 7 +++----
 v2/buffer.go | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 00f875a..2e5451f 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -444,12 +444,11 @@ func (b *Buffer) after(off ...int64) int64 {
 func (b *Buffer) grow(n int64) {
 
 	b.Lock()
+	defer b.Unlock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
-
-	b.Unlock()
-
-	b.refresh()
+	b.cap = int64(len(b.buf))
+	b.bcap = b.cap * 8
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index e50fbdb..5fad1a6 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -851,12 +851,11 @@ func (b *Buffer) after(off ...int64) int64 {
 func (b *Buffer) grow(n int64) {
 
 	b.Lock()
+	defer b.Unlock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
-
-	b.Unlock()
-
-	b.refresh()
+	b.cap = int64(len(b.buf))
+	b.bcap = b.cap * 8
 
 }
 
-- 
2.43.0


From ba43e793910c70983c9cb686f3e1e67c4f426311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/15] fix: read single bytes under the lock (v1, v2)

ReadByte and ReadByteNext dereferenced the window returned by read after
the lock had been released, racing with concurrent writers.
---
 v1/buffer.go | 26 ++++++++++++++++++++++++--
 v2/buffer.go | 26 ++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 2e5451f..fe591d7 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -361,6 +361,28 @@ func (b *Buffer) read(off, n int64) []byte {
 
 }
 
+// readbyte reads a byte from the buffer at the specified offset
+func (b *Buffer) readbyte(off int64) byte {
+
+	b.Lock()
+	defer b.Unlock()
+
+	if off > (b.cap - 1) {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
+	return b.buf[off]
+
+}
+
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
@@ -579,7 +601,7 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
-	return b.read(off, 1)[0]
+	return b.readbyte(off)
 
 }
 
@@ -600,7 +622,7 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
-	out = b.read(b.off, 1)[0]
+	out = b.readbyte(b.off)
 	b.seek(1, true)
 	return
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 5fad1a6..25f4b38 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -571,6 +571,28 @@ func (b *Buffer) read(off, n int64) []byte {
 
 }
 
+// readbyte reads a byte from the buffer at the specified offset
+func (b *Buffer) readbyte(off int64) byte {
+
+	b.Lock()
+	defer b.Unlock()
+
+	if off > (b.cap - 1) {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
+	return b.buf[off]
+
+}
+
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
@@ -1007,7 +1029,7 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
-	return b.read(off, 1)[0]
+	return b.readbyte(off)
 
 }
 
@@ -1063,7 +1085,7 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
-	out = b.read(b.off, 1)[0]
+	out = b.readbyte(b.off)
 	b.seek(1, true)
 	return
 
-- 
2.43.0


From 4e71252626374a6d46603313aa7b12c6d68c5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 04/15] fix: bounds-check ReadComplex by bytes and decode a
 locked copy (v1)

The check compared the element count instead of the byte count with the
buffer's size, so a read could stray into the storage's spare capacity, and
the bytes were decoded after the lock had been released. An invalid size is
now refused whatever the offset.
---
 v1/buffer.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index fe591d7..69551ae 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -361,6 +361,28 @@ func (b *Buffer) read(off, n int64) []byte {
 
 }
 
+// readcopy reads a copy of n bytes from the buffer at the specified offset
+func (b *Buffer) readcopy(off, n int64) []byte {
+
+	b.Lock()
+	defer b.Unlock()
+
+	if (off + n) > b.cap {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
+	return append([]byte{}, b.buf[off:off+n]...)
+
+}
+
 // readbyte reads a byte from the buffer at the specified offset
 func (b *Buffer) readbyte(off int64) byte {
 
@@ -386,12 +408,21 @@ func (b *Buffer) readbyte(off int64) byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
-
 	switch size {
 
 	case Unsigned8:
-		return data
+		return b.read(off, n)
+
+	case Unsigned16, Unsigned32, Unsigned64:
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	data := b.readcopy(off, n*int64(size))
+
+	switch size {
 
 	case Unsigned16:
 		idata := make([]uint16, n)
-- 
2.43.0


From 2a05c5cffea0bf3e458c6ff028291f3438d86d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 05/15] fix: make multi-bit access atomic and all-or-nothing
 (v1, v2, v3)

SetBits wrote the leading bits of a field that did not fit before refusing
it, and in the concurrent buffers each bit took the lock separately, so
fields could be torn.
---
 v1/buffer.go           | 30 ++++++++++++++++++++++++++++--
 v2/buffer.go           | 30 ++++++++++++++++++++++++++++--
 v3/_buffer.go          |  6 ++++++
 v3/buffer.generated.go |  6 ++++++
 4 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 69551ae..df4a85a 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -68,6 +68,13 @@ func (b *Buffer) readbit(off int64) byte {
 	b.Lock()
 	defer b.Unlock()
 
+	return b.getbit(off)
+
+}
+
+// getbit reads a bit from the bitfield at the specified offset. the buffer must be locked
+func (b *Buffer) getbit(off int64) byte {
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverreadError)
@@ -87,9 +94,12 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (v uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	for i := int64(0); i < n; i++ {
 
-		v = (v << uint64(1)) | uint64(b.readbit(off+i))
+		v = (v << uint64(1)) | uint64(b.getbit(off+i))
 
 	}
 	return
@@ -102,6 +112,13 @@ func (b *Buffer) setbit(off int64, data byte) {
 	b.Lock()
 	defer b.Unlock()
 
+	b.putbit(off, data)
+
+}
+
+// putbit sets a bit in the bitfield to the specified value. the buffer must be locked
+func (b *Buffer) putbit(off int64, data byte) {
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverwriteError)
@@ -132,9 +149,18 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
-		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
+		b.putbit(off+i, byte((data>>uint64(n-i-1))&1))
 
 	}
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 25f4b38..55ff4c1 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -65,6 +65,13 @@ func (b *Buffer) readbit(off int64) byte {
 	b.Lock()
 	defer b.Unlock()
 
+	return b.getbit(off)
+
+}
+
+// getbit reads a bit from the bitfield at the specified offset. the buffer must be locked
+func (b *Buffer) getbit(off int64) byte {
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverreadError)
@@ -84,11 +91,14 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	i := int64(0)
 
 	{
 	read_loop:
-		out = (out << uint64(1)) | uint64(b.readbit(off+i))
+		out = (out << uint64(1)) | uint64(b.getbit(off+i))
 		i++
 		if i < n {
 
@@ -107,6 +117,13 @@ func (b *Buffer) setbit(off int64, data byte) {
 	b.Lock()
 	defer b.Unlock()
 
+	b.putbit(off, data)
+
+}
+
+// putbit sets a bit in the bitfield to the specified value. the buffer must be locked
+func (b *Buffer) putbit(off int64, data byte) {
+
 	if off > (b.bcap - 1) {
 
 		panic(BufferOverwriteError)
@@ -137,11 +154,20 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
 	write_loop:
-		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
+		b.putbit(off+i, byte((data>>uint64(n-i-1))&1))
 		i++
 		if i < n {
 
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..ff42028 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -191,6 +191,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..27487f9 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -191,6 +191,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
-- 
2.43.0


From e06130575350bae41c9db53ab811dc80bd56829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 06/15] fix: make zero-length accesses no-ops (v1, v2)

The loops run their body at least once: empty writes and reads panicked or
touched one element, a zero-bit SetBits cleared a bit, and the whole-buffer
bit operations panicked on an empty buffer.
---
 v1/buffer.go  |  5 +++
 v1/minibuf.go |  5 +++
 v2/buffer.go  | 90 +++++++++++++++++++++++++++++++++++++++++++++++++++
 v2/minibuf.go | 90 +++++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 190 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index df4a85a..9f5f99e 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -283,6 +283,11 @@ func (b *Buffer) write(off int64, data []byte) {
 	i := int64(0)
 	n := int64(len(data))
 
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..b2608da 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -188,6 +188,11 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 	i := int64(0)
 	n := int64(len(data))
 
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
diff --git a/v2/buffer.go b/v2/buffer.go
index 55ff4c1..e21c4be 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -96,6 +96,11 @@ func (b *Buffer) readbits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.getbit(off+i))
@@ -165,6 +170,11 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.putbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -210,6 +220,11 @@ func (b *Buffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -233,6 +248,11 @@ func (b *Buffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -256,6 +276,11 @@ func (b *Buffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -324,6 +349,11 @@ func (b *Buffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -359,6 +389,11 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -396,6 +431,11 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -433,6 +473,11 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -472,6 +517,11 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -511,6 +561,11 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -554,6 +609,11 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -640,6 +700,11 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 	out = make([]uint16, n)
 
 	i := int64(0)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) |
@@ -678,6 +743,11 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 	out = make([]uint16, n)
 
 	i := int64(0)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) |
@@ -716,6 +786,11 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 	out = make([]uint32, n)
 
 	i := int64(0)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) |
@@ -756,6 +831,11 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 	out = make([]uint32, n)
 
 	i := int64(0)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) |
@@ -796,6 +876,11 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 	out = make([]uint64, n)
 
 	i := int64(0)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) |
@@ -840,6 +925,11 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 	out = make([]uint64, n)
 
 	i := int64(0)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) |
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..b83bdaa 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,11 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		b.readbit(&bout, off+i)
@@ -112,6 +117,11 @@ func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -139,6 +149,11 @@ func (b *MiniBuffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -159,6 +174,11 @@ func (b *MiniBuffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -179,6 +199,11 @@ func (b *MiniBuffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -230,6 +255,11 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -250,6 +280,11 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -272,6 +307,11 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -294,6 +334,11 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -318,6 +363,11 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -342,6 +392,11 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -370,6 +425,11 @@ func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -402,6 +462,11 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) |
@@ -421,6 +486,11 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) |
@@ -440,6 +510,11 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) |
@@ -461,6 +536,11 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) |
@@ -482,6 +562,11 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) |
@@ -507,6 +592,11 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) |
-- 
2.43.0


From aa2f72ab56a7e38c1548272eb0bd580c7c2ba888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 07/15] fix: make zero-length accesses no-ops (v3, generator)

As in v1 and v2: the emitted and hand-written loops run their body at least
once, so empty typed reads and writes panicked or touched one element, a
zero-bit SetBits cleared a bit, and the whole-buffer bit operations panicked
on an empty buffer.
---
 generation/complex.go   |   5 ++
 v3/_buffer.go           |  25 +++++++++
 v3/_minibuf.go          |  25 +++++++++
 v3/buffer.generated.go  | 121 ++++++++++++++++++++++++++++++++++++++++
 v3/minibuf.generated.go | 121 ++++++++++++++++++++++++++++++++++++++++
 5 files changed, 297 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..f26f928 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -215,6 +215,9 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 						body.Var().Id("u").Id(strings.Join([]string{"uint", arguments[3]}, ""))
 					}
 
+					body.If(jen.Id("n").Op("<=").Lit(0)).
+						Block(jen.Return())
+
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("read_loop:")
 
@@ -309,6 +312,8 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					// write generation code
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
+					body.If(jen.Id("n").Op("==").Lit(0)).
+						Block(jen.Return())
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("write_loop:")
 						if arguments[4] == "BE" {
diff --git a/v3/_buffer.go b/v3/_buffer.go
index ff42028..bff0bf2 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -104,6 +104,11 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
@@ -199,6 +204,11 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -265,6 +275,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -285,6 +300,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -305,6 +325,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..372df74 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,11 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
@@ -155,6 +160,11 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -209,6 +219,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +244,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +269,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 27487f9..1a39fce 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -104,6 +104,11 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
@@ -199,6 +204,11 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -265,6 +275,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -285,6 +300,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -305,6 +325,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -415,6 +440,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -446,6 +474,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -477,6 +508,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -510,6 +544,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -543,6 +580,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -580,6 +620,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -617,6 +660,9 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -648,6 +694,9 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -679,6 +728,9 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -712,6 +764,9 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -745,6 +800,9 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -782,6 +840,9 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -819,6 +880,9 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -852,6 +916,9 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -885,6 +952,9 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -922,6 +992,9 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -1007,6 +1080,9 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
@@ -1039,6 +1115,9 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
@@ -1071,6 +1150,9 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
@@ -1103,6 +1185,9 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
@@ -1135,6 +1220,9 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
@@ -1167,6 +1255,9 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
@@ -1199,6 +1290,9 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
@@ -1231,6 +1325,9 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
@@ -1263,6 +1360,9 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
@@ -1295,6 +1395,9 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
@@ -1327,6 +1430,9 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
@@ -1359,6 +1465,9 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
@@ -1392,6 +1501,9 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
@@ -1426,6 +1538,9 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 	out = make([]float32, n)
 	i := int64(0)
 	var u uint32
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24)
@@ -1460,6 +1575,9 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56)
@@ -1494,6 +1612,9 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 	out = make([]float64, n)
 	i := int64(0)
 	var u uint64
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..5b885aa 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,11 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
@@ -155,6 +160,11 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n <= 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -209,6 +219,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +244,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +269,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -325,6 +350,9 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -350,6 +378,9 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -375,6 +406,9 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -402,6 +436,9 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -429,6 +466,9 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -460,6 +500,9 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -491,6 +534,9 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -516,6 +562,9 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -541,6 +590,9 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -568,6 +620,9 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -595,6 +650,9 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -626,6 +684,9 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -657,6 +718,9 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -684,6 +748,9 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -711,6 +778,9 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -742,6 +812,9 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -789,6 +862,9 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
@@ -812,6 +888,9 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
@@ -835,6 +914,9 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
@@ -858,6 +940,9 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
@@ -881,6 +966,9 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
@@ -904,6 +992,9 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
@@ -927,6 +1018,9 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
@@ -950,6 +1044,9 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
@@ -973,6 +1070,9 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
@@ -996,6 +1096,9 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
@@ -1019,6 +1122,9 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
@@ -1042,6 +1148,9 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
 	i := int64(0)
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
@@ -1066,6 +1175,9 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
 	i := int64(0)
 	var u uint32
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24)
@@ -1091,6 +1203,9 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
 	i := int64(0)
 	var u uint32
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24)
@@ -1116,6 +1231,9 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
 	i := int64(0)
 	var u uint64
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56)
@@ -1141,6 +1259,9 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
 	i := int64(0)
 	var u uint64
+	if n <= 0 {
+		return
+	}
 	{
 	read_loop:
 		u = (uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56)
-- 
2.43.0


From 97345c67dd87b9df718e4056338dfece0f88ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 08/15] fix: MiniBuffer.ReadBits overwrites its result (v1, v2,
 v3)

The field was shifted into whatever the caller's variable held before.
---
 v1/minibuf.go           | 2 ++
 v2/minibuf.go           | 2 ++
 v3/_minibuf.go          | 2 ++
 v3/minibuf.generated.go | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index b2608da..ac39e26 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -73,6 +73,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	var bout byte
 	for i := int64(0); i < n; i++ {
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index b83bdaa..6d5dd51 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	var (
 		bout byte
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 372df74..09ad5eb 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	var (
 		bout byte
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 5b885aa..8a7d022 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	var (
 		bout byte
 
-- 
2.43.0


From cf4f4ccf257f5fa1fcddaf9390b124791f9bf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 09/15] fix: zero the bytes that Grow takes from spare capacity
 (v3)

Growing after TruncateRight or Reset, or over the spare capacity of the
wrapped slice, exposed stale bytes instead of zeros.
---
 v3/_buffer.go           | 5 +++++
 v3/_minibuf.go          | 5 +++++
 v3/buffer.generated.go  | 5 +++++
 v3/minibuf.generated.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index bff0bf2..e18a8b7 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -618,6 +618,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 09ad5eb..93a703d 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -488,6 +488,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 1a39fce..b74c764 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1714,6 +1714,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 8a7d022..9c7bdea 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1344,6 +1344,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
-- 
2.43.0


From 94f0e6935a0772d93fd85b0de75cf2a3e00d9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 10/15] fix: truncate generated files before writing them

A longer previous output left its tail behind the new contents.
---
 generation/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..429e31a 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -103,7 +103,7 @@ func main() {
 	}
 
 	for name, contents := range generated {
-		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
+		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
 			continue
-- 
2.43.0


From 9ccab4ff3968a78d307ac938140608ba270838c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 11/15] fix: reject 16-bit floating-point directives in the
 generator

There is no such type, so the expansion did not compile.
---
 generation/complex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index f26f928..70e2603 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -108,6 +108,11 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 				return []byte(fmt.Sprint("// invalid argument provided in position three:", arguments[3]))
 			}
 
+			if arguments[2] == "F" && arguments[3] == "16" {
+				fmt.Println("! invalid argument for position 3:", arguments[3])
+				return []byte(fmt.Sprint("// invalid argument provided in position three:", arguments[3]))
+			}
+
 			if arguments[4] != "BE" && arguments[4] != "LE" {
 				fmt.Println("! invalid argument for position 4:", arguments[4])
 				return []byte(fmt.Sprint("// invalid argument provided in position four:", arguments[4]))
-- 
2.43.0


From 46468d73d0f4fac04627031bc42aa10db1207bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 12/15] fix: make sequential operations atomic with their
 cursor movement (v1, v2)

The Next operations read the offset without any lock, used it, and moved it
later, so concurrent sequential writers overwrote each other, readers got
elements twice, and the offsets were racy.
---
 v1/buffer.go | 48 +++++++++++++++++++++++++++++++
 v2/buffer.go | 81 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 129 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 9f5f99e..257a0a6 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -24,6 +24,9 @@ type Buffer struct {
 	boff int64
 	bcap int64
 
+	// cursor is held across operations that use and move an offset. it is always acquired before the embedded mutex
+	cursor sync.Mutex
+
 	sync.Mutex
 }
 
@@ -621,6 +624,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -628,6 +634,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -635,6 +644,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.alignbit()
 
 }
@@ -642,6 +654,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.alignbyte()
 
 }
@@ -684,6 +699,9 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readbyte(b.off)
 	b.seek(1, true)
 	return
@@ -693,6 +711,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -702,6 +723,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadComplexNext returns the next n uint8/uint16/uint32/uint64-s from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOrder) (out interface{}) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readComplex(b.off, n, size, endian)
 	b.seek(n*int64(size), true)
 	return
@@ -732,6 +756,9 @@ func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, end
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -740,6 +767,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -748,6 +778,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteComplexNext writes a uint8/uint16/uint32/uint64 to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeComplex(b.off, data, size, endian)
 
 	switch size {
@@ -785,6 +818,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -794,6 +830,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -817,6 +856,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -825,6 +867,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -840,6 +885,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
diff --git a/v2/buffer.go b/v2/buffer.go
index e21c4be..6059024 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -21,6 +21,9 @@ type Buffer struct {
 	boff int64
 	bcap int64
 
+	// cursor is held across operations that use and move an offset. it is always acquired before the embedded mutex
+	cursor sync.Mutex
+
 	sync.Mutex
 }
 
@@ -1089,6 +1092,9 @@ func (b *Buffer) Refresh() {
 // Reset resets the entire buffer
 func (b *Buffer) Reset() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.reset()
 
 }
@@ -1103,6 +1109,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -1110,6 +1119,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -1117,6 +1129,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.alignbit()
 
 }
@@ -1124,6 +1139,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.alignbyte()
 
 }
@@ -1201,6 +1219,9 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readbyte(b.off)
 	b.seek(1, true)
 	return
@@ -1210,6 +1231,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -1219,6 +1243,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadU16LENext reads a slice of uint16s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readU16LE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1228,6 +1255,9 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // ReadU16BENext reads a slice of uint16s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readU16BE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1237,6 +1267,9 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // ReadU32LENext reads a slice of uint32s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readU32LE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1246,6 +1279,9 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // ReadU32BENext reads a slice of uint32s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readU32BE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1255,6 +1291,9 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // ReadU64LENext reads a slice of uint64s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readU64LE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1264,6 +1303,9 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // ReadU64BENext reads a slice of uint64s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readU64BE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1329,6 +1371,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -1337,6 +1382,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -1345,6 +1393,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteU16LENext writes a slice of uint16s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16LENext(data []uint16) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeU16LE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1353,6 +1404,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // WriteU16BENext writes a slice of uint16s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16BENext(data []uint16) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeU16BE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1361,6 +1415,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // WriteU32LENext writes a slice of uint32s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32LENext(data []uint32) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeU32LE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1369,6 +1426,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // WriteU32BENext writes a slice of uint32s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32BENext(data []uint32) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeU32BE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1377,6 +1437,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // WriteU64LENext writes a slice of uint64s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64LENext(data []uint64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeU64LE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1385,6 +1448,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // WriteU64BENext writes a slice of uint64s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64BENext(data []uint64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.writeU64BE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1407,6 +1473,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -1416,6 +1485,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -1439,6 +1511,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -1447,6 +1522,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -1462,6 +1540,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.cursor.Lock()
+	defer b.cursor.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
-- 
2.43.0


From c02034dac34666597c6f55b9641b27b3b106e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 13/15] fix: keep bounds checks exact when offset and count
 overflow (v1, v2, v3, generator)

---
 generation/complex.go  | 11 +++++--
 v1/buffer.go           | 14 ++++-----
 v1/utils.go            |  7 +++++
 v2/buffer.go           | 28 ++++++++---------
 v2/utils.go            |  7 +++++
 v3/_buffer.go          |  4 +--
 v3/buffer.generated.go | 68 +++++++++++++++++++++---------------------
 7 files changed, 79 insertions(+), 60 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index 70e2603..5320fe6 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -192,13 +192,18 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").Op("||").Id("uint64").
+							Call(jen.Id("n")).Op(">").
+							Parens(jen.Id("uint64").Call(jen.Id("b").Dot("cap")).Op("-").Id("uint64").Call(jen.Id("off"))).
+							Op("/").Lit(intBytes)).
 							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
 					} else {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
-							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").Op("||").Id("uint64").
+							Call(jen.Len(jen.Id("data"))).Op(">").
+							Parens(jen.Id("uint64").Call(jen.Id("b").Dot("cap")).Op("-").Id("uint64").Call(jen.Id("off"))).
+							Op("/").Lit(intBytes)).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderwriteError")))
diff --git a/v1/buffer.go b/v1/buffer.go
index 257a0a6..3257db5 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -271,7 +271,7 @@ func (b *Buffer) write(off int64, data []byte) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))) > b.cap {
+	if exceeds(off, int64(len(data)), 1, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -379,7 +379,7 @@ func (b *Buffer) read(off, n int64) []byte {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n) > b.cap {
+	if exceeds(off, n, 1, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -395,13 +395,13 @@ func (b *Buffer) read(off, n int64) []byte {
 
 }
 
-// readcopy reads a copy of n bytes from the buffer at the specified offset
-func (b *Buffer) readcopy(off, n int64) []byte {
+// readcopy reads a copy of n elements of the given size from the buffer at the specified offset
+func (b *Buffer) readcopy(off, n, size int64) []byte {
 
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n) > b.cap {
+	if exceeds(off, n, size, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -413,7 +413,7 @@ func (b *Buffer) readcopy(off, n int64) []byte {
 
 	}
 
-	return append([]byte{}, b.buf[off:off+n]...)
+	return append([]byte{}, b.buf[off:off+n*size]...)
 
 }
 
@@ -454,7 +454,7 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 
 	}
 
-	data := b.readcopy(off, n*int64(size))
+	data := b.readcopy(off, n, int64(size))
 
 	switch size {
 
diff --git a/v1/utils.go b/v1/utils.go
index 495d054..e5453f2 100644
--- a/v1/utils.go
+++ b/v1/utils.go
@@ -22,3 +22,10 @@ func atob(b bool) byte {
 	return 0
 
 }
+
+// exceeds returns whether n elements of the given size at off extend past end. it is not affected by integer overflow, and a negative n never fits
+func exceeds(off, n, size, end int64) bool {
+
+	return off > end || uint64(n) > (uint64(end)-uint64(off))/uint64(size)
+
+}
diff --git a/v2/buffer.go b/v2/buffer.go
index 6059024..92ec583 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -336,7 +336,7 @@ func (b *Buffer) write(off int64, data []byte) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))) > b.cap {
+	if exceeds(off, int64(len(data)), 1, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -376,7 +376,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))*2) > b.cap {
+	if exceeds(off, int64(len(data)), 2, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -418,7 +418,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))*2) > b.cap {
+	if exceeds(off, int64(len(data)), 2, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -460,7 +460,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))*4) > b.cap {
+	if exceeds(off, int64(len(data)), 4, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -504,7 +504,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))*4) > b.cap {
+	if exceeds(off, int64(len(data)), 4, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -548,7 +548,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))*8) > b.cap {
+	if exceeds(off, int64(len(data)), 8, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -596,7 +596,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + int64(len(data))*8) > b.cap {
+	if exceeds(off, int64(len(data)), 8, b.cap) {
 
 		panic(BufferOverwriteError)
 
@@ -644,7 +644,7 @@ func (b *Buffer) read(off, n int64) []byte {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n) > b.cap {
+	if exceeds(off, n, 1, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -688,7 +688,7 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n*2) > b.cap {
+	if exceeds(off, n, 2, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -731,7 +731,7 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n*2) > b.cap {
+	if exceeds(off, n, 2, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -774,7 +774,7 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n*4) > b.cap {
+	if exceeds(off, n, 4, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -819,7 +819,7 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n*4) > b.cap {
+	if exceeds(off, n, 4, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -864,7 +864,7 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n*8) > b.cap {
+	if exceeds(off, n, 8, b.cap) {
 
 		panic(BufferOverreadError)
 
@@ -913,7 +913,7 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 	b.Lock()
 	defer b.Unlock()
 
-	if (off + n*8) > b.cap {
+	if exceeds(off, n, 8, b.cap) {
 
 		panic(BufferOverreadError)
 
diff --git a/v2/utils.go b/v2/utils.go
index 6ceec9c..4c0dfd7 100644
--- a/v2/utils.go
+++ b/v2/utils.go
@@ -22,3 +22,10 @@ func atob(b bool) byte {
 	return 0
 
 }
+
+// exceeds returns whether n elements of the given size at off extend past end. it is not affected by integer overflow, and a negative n never fits
+func exceeds(off, n, size, end int64) bool {
+
+	return off > end || uint64(n) > (uint64(end)-uint64(off))/uint64(size)
+
+}
diff --git a/v3/_buffer.go b/v3/_buffer.go
index e18a8b7..2513f33 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -386,7 +386,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || uint64(len(data)) > uint64(b.cap)-uint64(off) {
 
 		panic(BufferOverwriteError)
 
@@ -464,7 +464,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || uint64(n) > uint64(b.cap)-uint64(off) {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index b74c764..8760a16 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -386,7 +386,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || uint64(len(data)) > uint64(b.cap)-uint64(off) {
 
 		panic(BufferOverwriteError)
 
@@ -432,7 +432,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -466,7 +466,7 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -500,7 +500,7 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -536,7 +536,7 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -572,7 +572,7 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -612,7 +612,7 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -652,7 +652,7 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -686,7 +686,7 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -720,7 +720,7 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -756,7 +756,7 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -792,7 +792,7 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -832,7 +832,7 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -872,7 +872,7 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -908,7 +908,7 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -944,7 +944,7 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -984,7 +984,7 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || uint64(len(data)) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -1024,7 +1024,7 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || uint64(n) > uint64(b.cap)-uint64(off) {
 
 		panic(BufferOverreadError)
 
@@ -1072,7 +1072,7 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1107,7 +1107,7 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1142,7 +1142,7 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1177,7 +1177,7 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1212,7 +1212,7 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1247,7 +1247,7 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1282,7 +1282,7 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1317,7 +1317,7 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1352,7 +1352,7 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1387,7 +1387,7 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1422,7 +1422,7 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1457,7 +1457,7 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1492,7 +1492,7 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1529,7 +1529,7 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1566,7 +1566,7 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1603,7 +1603,7 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || uint64(n) > (uint64(b.cap)-uint64(off))/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
-- 
2.43.0


From 0f65298f96db872874a1dd0ce9eb032bff0ce575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 14/15] fix: v1 and v2 byte writes whose data overlaps the
 addressed range store the given data

---
 v1/buffer.go  | 19 +------------------
 v1/minibuf.go | 13 +------------
 v2/buffer.go  | 20 +-------------------
 v2/minibuf.go | 16 ++--------------
 4 files changed, 5 insertions(+), 63 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 3257db5..ad824e6 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -283,24 +283,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	i := int64(0)
-	n := int64(len(data))
-
-	if n == 0 {
-
-		return
-
-	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v1/minibuf.go b/v1/minibuf.go
index ac39e26..82551fe 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -187,24 +187,13 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	i := int64(0)
 	n := int64(len(data))
-
 	if n == 0 {
 
 		return
 
 	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:off+n:len(b.buf)], data)
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 92ec583..ec9fbcf 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -348,25 +348,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-	if n == 0 {
-
-		return
-
-	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 6d5dd51..6f7233a 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -253,25 +253,13 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
+	n := int64(len(data))
 	if n == 0 {
 
 		return
 
 	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:off+n:len(b.buf)], data)
 
 }
 
-- 
2.43.0


From 798d72a88aa6e4aadd9e6651687be37770508faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 15/15] fix: keep the output of a template that cannot be read

---
 generation/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generation/main.go b/generation/main.go
index 429e31a..06f5c77 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -78,13 +78,14 @@ func main() {
 				continue
 			}
 
-			files[fileInfo.Name()], err = ioutil.ReadAll(file)
+			contents, err := ioutil.ReadAll(file)
+			_ = file.Close()
 			if err != nil {
 				fmt.Printf("! unable to read file contents. (%v)\n", err)
 				continue
 			}
 
-			_ = file.Close()
+			files[fileInfo.Name()] = contents
 		}
 	}
 
-- 
2.43.0

