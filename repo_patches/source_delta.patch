From d7ac07518e5bcdf32fe57138a550293777c2d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:26 +0000
Subject: [PATCH 01/56] fix: library use without setting Verbose crashed in
 Debug

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From 758591dca4b602447b10ff35a102f4f6596e11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:27 +0000
Subject: [PATCH 02/56] fix: second and later decimals of real numbers had the
 wrong weight

---
 pdf/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..6fb00e2 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -880,14 +880,14 @@ func (parser *Parser) ReadNumber() Number {
 
 	// parse real part
 	if isReal {
-		for i := 1; true; i++ {
+		for scale := 10.0; true; scale *= 10 {
 			b, err = parser.ReadByte()
 			if err != nil {
 				break
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				number = Number(float64(number) + float64(b - '0') / scale)
 			} else {
 				parser.UnreadByte()
 				break
-- 
2.43.0


From 403d9b50cc3d066756bd7f7389ee6199ec13629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:28 +0000
Subject: [PATCH 03/56] fix: xref repair replaced good entries and kept broken
 ones

---
 pdf/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 6fb00e2..34b89e7 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -60,8 +60,9 @@ func (parser *Parser) Load(password string) error {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
 			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
+			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
 				xref_entry.Offset = object.Offset
+				xref_entry.Generation = object.Generation
 			}
 		} else {
 			// add missing object to xref
-- 
2.43.0


From 5a5604564484c60f21a47917ac7561612e926695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:29 +0000
Subject: [PATCH 04/56] fix: errors.txt was never closed

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From d86096797cae6a34bf67ecc80687310c6b25c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:30 +0000
Subject: [PATCH 05/56] fix: short U entry in encryption dictionary caused a
 panic

---
 pdf/encryption.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..e104e10 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -257,6 +257,11 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 			return EncryptionPasswordError
 		}
 	} else if sh.r >= 3 { // for revision 3+ use algorithm 5
+		// U entry must hold at least the 16 bytes that are compared
+		if len(sh.u) < 16 {
+			return EncryptionError
+		}
+
 		// step b, c
 		hash := md5.New()
 		hash.Write(padding_string)
-- 
2.43.0


From b2972c8664f42f342dcee8c0ab4a3f8791ad3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:31 +0000
Subject: [PATCH 06/56] fix: crypt filter Length given in bits or out of range
 caused a panic

---
 pdf/encryption.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index e104e10..95a3443 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -303,6 +303,16 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 						length = sh.length
 					}
 
+					// length is in bytes but some writers give bits
+					if length >= 40 {
+						length = length/8
+					}
+					if length < 5 {
+						length = 5
+					} else if length > 16 {
+						length = 16
+					}
+
 					// create filter entry
 					if method == "None" {
 						sh.crypt_filters[k] = noFilter
-- 
2.43.0


From 6a6ef529d0a7eb548a3dee2e62f69d6442a939f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:32 +0000
Subject: [PATCH 07/56] fix: crypt filters given by indirect reference were
 ignored

---
 pdf/encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 95a3443..89d89b3 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -294,8 +294,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
-- 
2.43.0


From 268223d59b5f43599f747dc84574ac894419ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 08/56] fix: AES decrypted data kept initialization vector and
 padding

---
 pdf/encryption.go | 22 +++++++++++++++++-----
 pdf/parser.go     | 12 ++++++------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 89d89b3..57302ed 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,9 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte {
+	return data
+}
 
 // AES
 type CryptFilterAES struct {
@@ -73,7 +75,10 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
+func (d *DecryptorAES) Decrypt(data []byte) (decrypted []byte) {
+	// return data as is if it can not be decrypted
+	decrypted = data
+
 	// catch crypt block panic
 	defer func() {
 		if err := recover(); err != nil {
@@ -86,7 +91,7 @@ func (d *DecryptorAES) Decrypt(data []byte) {
 
 	// no data to decrypt, first block is initialization vector
 	if len(data) <= aes.BlockSize {
-		return
+		return decrypted
 	}
 
 	// set iv to first block and decrypt remaining blocks with cbc decryptor
@@ -94,6 +99,12 @@ func (d *DecryptorAES) Decrypt(data []byte) {
 	data = data[aes.BlockSize:]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// remove padding
+	if padding := int(data[len(data)-1]); padding >= 1 && padding <= aes.BlockSize {
+		data = data[:len(data)-padding]
+	}
+	return data
 }
 
 // RC4
@@ -136,9 +147,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index 34b89e7..fc1ac56 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -692,7 +692,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 			if !IsHex(b) {
@@ -979,7 +979,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 
 	// decrypt stream
 	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes = decryptor.Decrypt(stream_data_bytes)
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1015,7 +1015,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
+			s_data = decryptor.Decrypt(s_data)
 			return String(s_data)
 		}
 
@@ -1027,7 +1027,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
+				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
 
@@ -1041,7 +1041,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
+					s_data = decryptor.Decrypt(s_data)
 					return String(s_data)
 				}
 				// if byte is not a new line then unread it
@@ -1128,7 +1128,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
+	s_data = decryptor.Decrypt(s_data)
 	return String(s_data)
 }
 
-- 
2.43.0


From 36813ac8e8c9cd91300788531814e03e5af75d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:34 +0000
Subject: [PATCH 09/56] fix: default crypt filters of strings, streams and
 embedded files

---
 pdf/encryption.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 57302ed..07e3118 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -304,7 +304,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	sh.crypt_filters["Identity"] = noFilter
 
 	// load additional crypt filters
-	if sh.r == 4 {
+	if sh.v == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
 		for k := range cf {
 			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
@@ -342,13 +342,20 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.stream_filter = filter
 			}
+		} else {
+			sh.stream_filter = noFilter
 		}
 		if name, ok := encrypt.GetName("StrF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.string_filter = filter
 			}
+		} else {
+			sh.string_filter = noFilter
 		}
-		if name, ok := encrypt.GetName("EEF"); ok {
+
+		// embedded files use the stream filter by default
+		sh.file_filter = sh.stream_filter
+		if name, ok := encrypt.GetName("EFF"); ok {
 			if filter, exists := sh.crypt_filters[name]; exists {
 				sh.file_filter = filter
 			}
-- 
2.43.0


From 066dbda37b988de26b2515b02e561a45b4cd71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:35 +0000
Subject: [PATCH 10/56] fix: filters that refer back to their own stream
 recursed without end

---
 pdf/parser.go    |  7 ++++++-
 pdf/reference.go | 10 +++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index fc1ac56..401b369 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -369,6 +369,11 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
+	return parser.getObject(number, true)
+}
+
+// getObject reads the value of an object and its stream if with_stream is true
+func (parser *Parser) getObject(number int, with_stream bool) *IndirectObject {
 	object := NewIndirectObject(number)
 
 	if xref_entry, ok := parser.Xref[number]; ok {
@@ -393,7 +398,7 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 			object.Value, _ = parser.ReadObject(string_decryptor)
 
 			// get next keyword
-			if keyword := parser.ReadKeyword(); keyword == KEYWORD_STREAM {
+			if keyword := parser.ReadKeyword(); with_stream && keyword == KEYWORD_STREAM {
 				// get stream dictionary
 				d, ok := object.Value.(Dictionary)
 				if !ok {
diff --git a/pdf/reference.go b/pdf/reference.go
index 20fd52b..fe24ae8 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -24,7 +24,7 @@ func (reference *Reference) Resolve() Object {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, false)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -38,7 +38,7 @@ func (reference *Reference) ResolveStream() []byte {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, true)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -47,7 +47,7 @@ func (reference *Reference) ResolveStream() []byte {
 	return object.Stream
 }
 
-func (reference *Reference) resolve(resolved_references map[int]interface{}) *IndirectObject {
+func (reference *Reference) resolve(resolved_references map[int]interface{}, with_stream bool) *IndirectObject {
 	// prevent infinite loop
 	if _, ok := resolved_references[reference.Number]; ok {
 		return NewIndirectObject(reference.Number)
@@ -55,11 +55,11 @@ func (reference *Reference) resolve(resolved_references map[int]interface{}) *In
 	resolved_references[reference.Number] = nil
 
 	// use parser to get object
-	object := reference.parser.GetObject(reference.Number)
+	object := reference.parser.getObject(reference.Number, with_stream)
 
 	// recursively resolve references
 	if ref, ok := object.Value.(*Reference); ok {
-		return ref.resolve(resolved_references)
+		return ref.resolve(resolved_references, with_stream)
 	}
 
 	// return the object
-- 
2.43.0


From a9c6bc6439cf4f40fe74936f2c9600bcfadfadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:36 +0000
Subject: [PATCH 11/56] fix: negative or huge xref stream field widths caused a
 panic

---
 pdf/utility.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/utility.go b/pdf/utility.go
index a1fe09f..3a9c9e6 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -12,6 +12,10 @@ func ReadInt(reader io.Reader, width int) (int, bool) {
 
 // ReadInt reads width bytes from reader and returns the int64 value
 func ReadInt64(reader io.Reader, width int) (int64, bool) {
+	// value must fit in 64 bits
+	if width < 0 || width > 8 {
+		return 0, false
+	}
 	data := make([]byte, width)
 	bytes_read, _ := reader.Read(data)
 	if bytes_read != width {
-- 
2.43.0


From c80fe7712612fe1cdfeaf6d09c2d37dd1a02edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:37 +0000
Subject: [PATCH 12/56] fix: xref stream with only zero width fields looped
 over Index or Size

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 401b369..1c187d3 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -327,6 +327,11 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 		return
 	}
 
+	// entries without any data would never reach the end of the stream
+	if type_width == 0 && offset_width == 0 && generation_width == 0 {
+		return
+	}
+
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
 	for i := 0; i < len(index) - 1; i += 2 {
-- 
2.43.0


From 12e3d1eced7b663fb87dc935f509d20160ed72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:38 +0000
Subject: [PATCH 13/56] fix: xref stream entries without type field were
 treated as free

---
 pdf/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 1c187d3..9736338 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -351,6 +351,10 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			if !ok {
 				return
 			}
+			if type_width == 0 {
+				// type defaults to in use when field is not present
+				xref_type = XrefTypeIndirectObject
+			}
 			offset, ok := ReadInt64(data_reader, offset_width)
 			if !ok {
 				return
-- 
2.43.0


From 60a39ba3d4fae76a19686db30821d1c4401a54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 14/56] fix: short reads at buffer boundaries lost
 dictionaries, streams and startxref

---
 pdf/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 9736338..d290a2b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -167,7 +167,7 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	io.ReadFull(parser, buffer)
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -641,7 +641,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -952,7 +952,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
-- 
2.43.0


From efbff6a4bc0af165a3e97458d2c96ca3492bcfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:40 +0000
Subject: [PATCH 15/56] fix: last byte of partial ASCII85 groups was off by one

---
 pdf/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..f15d6f7 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -106,10 +106,10 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by adding the highest digit
 			if n > 1 {
 				for m := n; m < 5; m++ {
-					v *= 85
+					v = v * 85 + 84
 				}
 
 				// write result in big endian order
-- 
2.43.0


From 776672e487a49836c3e5c5a58f2fda9b5fad181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:41 +0000
Subject: [PATCH 16/56] fix: huge Colors or Columns of a predictor overflowed
 and caused a panic

---
 pdf/filters.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index f15d6f7..ba37ad7 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -276,6 +276,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure colors and columns are acceptable, row width must not overflow
+	if colors <= 0 || colors > math.MaxUint16 || columns <= 0 || columns > math.MaxInt32 {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
-- 
2.43.0


From 5efdbf4913998a1e9e4887d62a466aca20d1e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:42 +0000
Subject: [PATCH 17/56] fix: row tags of PNG predictors 10 to 14 were ignored

---
 pdf/filters.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index ba37ad7..98126a8 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -323,15 +323,10 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
-		// determine the method
-		method := predictor - 10
-
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// the algorithm tag of each row determines the method
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
-- 
2.43.0


From 1e7ec1854f673c51b0841858913ce15da0e0bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:43 +0000
Subject: [PATCH 18/56] fix: PNG predictors used the previous byte instead of
 the previous pixel

---
 pdf/filters.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 98126a8..c66939d 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -321,6 +321,9 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 
 		// png row includes an algorithm tag as first byte of each row
 		d_row_width := row_width
+
+		// left neighbour is the same component of the previous pixel
+		pixel_width := (bits_per_component * colors + 7) / 8
 		row_width++
 
 		// for each row
@@ -342,8 +345,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -356,8 +359,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -368,16 +371,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr + dc - d_row_width - pixel_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0


From ed914211f12f999ba1829e497a458648487cf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 19/56] fix: huge bfrange in ToUnicode map caused endless loop
 and memory exhaustion

---
 pdf/font.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..aad3d9e 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -22,6 +22,9 @@ func NewFont(d Dictionary) *Font {
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
 
+	// number of codes mapped by ranges
+	entries := 0
+
 	for {
 		// read next command
 		command, operands, err := parser.ReadCommand()
@@ -50,8 +53,10 @@ func NewFont(d Dictionary) *Font {
 					break
 				}
 
-				for j := start; j <= end; j++ {
-					font.Cmap[j] = string(value)
+				// limit size of the map, a range can not cover more than all two byte codes
+				for j := 0; j <= end - start && j <= 0xffff && entries < 0x100000; j++ {
+					font.Cmap[start + j] = string(value)
+					entries++
 				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
-- 
2.43.0


From 34c14461e10294e7bf5b65156177cd7502578924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:21 +0000
Subject: [PATCH 20/56] fix: bfrange mapped all codes to the value of the first
 code

---
 pdf/font.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdf/font.go b/pdf/font.go
index aad3d9e..8053858 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -55,7 +55,14 @@ func NewFont(d Dictionary) *Font {
 
 				// limit size of the map, a range can not cover more than all two byte codes
 				for j := 0; j <= end - start && j <= 0xffff && entries < 0x100000; j++ {
-					font.Cmap[start + j] = string(value)
+					// value counts up with the code
+					b := []byte(value)
+					for k, carry := len(b) - 1, j; k >= 0 && carry > 0; k-- {
+						carry += int(b[k])
+						b[k] = byte(carry)
+						carry /= 256
+					}
+					font.Cmap[start + j] = string(b)
 					entries++
 				}
 			}
-- 
2.43.0


From fac94d7749f43756d0d264d7979aa003b915e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:23 +0000
Subject: [PATCH 21/56] fix: bfrange with an array of values was not supported

---
 pdf/font.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pdf/font.go b/pdf/font.go
index 8053858..0aef218 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -48,7 +48,17 @@ func NewFont(d Dictionary) *Font {
 				}
 				end := BytesToInt([]byte(end_b))
 
-				value := parser.ReadHexString(noDecryptor)
+				// read value of first code or array with one value per code
+				object, _ := parser.ReadObject(noDecryptor)
+				if values, ok := object.(Array); ok {
+					for j := 0; j <= end - start && j < len(values); j++ {
+						if value, ok := values.GetString(j); ok {
+							font.Cmap[start + j] = value
+						}
+					}
+					continue
+				}
+				value, _ := object.(String)
 				if value == "" {
 					break
 				}
-- 
2.43.0


From 7baeb49394cdbf43eeee1631b385af09a3fd37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:24 +0000
Subject: [PATCH 22/56] fix: TJ lost strings not at even positions of the array

---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..1678830 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := 0; i < len(a); i++ {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From 7944b246b5e896385feb9d9d982636511f20683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 23/56] fix: page text was lost if Contents is a reference to
 an array

---
 pdf/page.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf/page.go b/pdf/page.go
index 1678830..0f6edbf 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -21,14 +21,14 @@ func (page Page) Extract(output *Output) {
 	}
 
 	// get contents
-	if contents, ok := d.GetStream("Contents"); ok {
-		page.extract(output, font_map, contents)
-	} else if contents_array, ok := d.GetArray("Contents"); ok {
+	if contents_array, ok := d.GetArray("Contents"); ok {
 		for i := range contents_array {
 			if contents, ok := contents_array.GetStream(i); ok {
 				page.extract(output, font_map, contents)
 			}
 		}
+	} else if contents, ok := d.GetStream("Contents"); ok {
+		page.extract(output, font_map, contents)
 	}
 }
 
-- 
2.43.0


From 90bd4c5b0deeb56b838ba113399f16167cbd8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:26 +0000
Subject: [PATCH 24/56] fix: form data was lost if XFA is a reference to an
 array

---
 pdf/object.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..76fa8aa 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -59,9 +59,7 @@ func extract(o Object, output *Output) {
 		}
 
 		// dump forms
-		if xfa, ok := d.GetStream("XFA"); ok {
-			output.DumpFile("form.xml", xfa)
-		} else if xfa, ok := d.GetArray("XFA"); ok {
+		if xfa, ok := d.GetArray("XFA"); ok {
 			var form_data strings.Builder
 			for i := range xfa {
 				if s, ok := xfa.GetStream(i); ok {
@@ -69,6 +67,8 @@ func extract(o Object, output *Output) {
 				}
 			}
 			output.DumpFile("form.xml", []byte(form_data.String()))
+		} else if xfa, ok := d.GetStream("XFA"); ok {
+			output.DumpFile("form.xml", xfa)
 		}
 
 		// dump Embedded Files
-- 
2.43.0


From 4cf6feafaaa429851080544fa3bdc7573e0103f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:27 +0000
Subject: [PATCH 25/56] fix: text was lost if a text object spans several
 content streams

---
 pdf/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index 0f6edbf..30fccff 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -22,11 +22,15 @@ func (page Page) Extract(output *Output) {
 
 	// get contents
 	if contents_array, ok := d.GetArray("Contents"); ok {
+		// streams of an array are parts of one content stream
+		var all_contents bytes.Buffer
 		for i := range contents_array {
 			if contents, ok := contents_array.GetStream(i); ok {
-				page.extract(output, font_map, contents)
+				all_contents.Write(contents)
+				all_contents.WriteString("\n")
 			}
 		}
+		page.extract(output, font_map, all_contents.Bytes())
 	} else if contents, ok := d.GetStream("Contents"); ok {
 		page.extract(output, font_map, contents)
 	}
-- 
2.43.0


From 661832f076fbb7d361e940a0099e3c40c80ff719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:28 +0000
Subject: [PATCH 26/56] fix: fonts of inherited page resources were not used

---
 pdf/dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..242a78b 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -145,6 +145,11 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 				// resolve
 				object := r.Resolve()
 				if kid_d, ok := object.(Dictionary); ok {
+					// kids inherit resources of their parent
+					if _, ok := kid_d["Resources"]; !ok && d["Resources"] != nil {
+						kid_d["Resources"] = d["Resources"]
+					}
+
 					// recursively resolve kids
 					kids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)
 				}
-- 
2.43.0


From 01e752c14ceec1d442c8edc53fa29dfd996d5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:29 +0000
Subject: [PATCH 27/56] fix: command of launch action was not logged if F is a
 string

---
 pdf/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..2ed7fb6 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -16,6 +16,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintln(output.Commands, f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
-- 
2.43.0


From 342b6e669458370015277e8d757c89e1efe02074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 28/56] fix: files and commands of follow-up actions were not
 logged

---
 pdf/object.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdf/object.go b/pdf/object.go
index 76fa8aa..fd09220 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -58,6 +58,17 @@ func extract(o Object, output *Output) {
 			}
 		}
 
+		// dump next actions
+		if next, ok := d.GetDictionary("Next"); ok {
+			Action(next).Extract(output)
+		} else if next, ok := d.GetArray("Next"); ok {
+			for i := range next {
+				if a, ok := next.GetDictionary(i); ok {
+					Action(a).Extract(output)
+				}
+			}
+		}
+
 		// dump forms
 		if xfa, ok := d.GetArray("XFA"); ok {
 			var form_data strings.Builder
-- 
2.43.0


From 626cb5aa0d2054d68369f9c16067c0396036ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 29/56] fix: unclosed stream was not logged if the file ends
 before its data

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index d290a2b..cd5ace0 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -927,6 +927,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -939,6 +940,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -977,6 +979,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From b8efa56b102609db1652c1460c8fffec0cdf3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:32 +0000
Subject: [PATCH 30/56] fix: percent sign in hex string swallowed the rest of
 the line

---
 pdf/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index cd5ace0..d3d8ce6 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -695,7 +695,6 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 	for {
 		code := []byte{'0', '0'}
 		for i := 0; i < 2; {
-			parser.consumeWhitespace()
 			b, err := parser.ReadByte()
 			if err != nil || b == '>' {
 				if err != nil {
@@ -709,6 +708,9 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 				s_data = decryptor.Decrypt(s_data)
 				return String(s_data)
 			}
+			if bytes.IndexByte(whitespace, b) >= 0 {
+				continue
+			}
 			if !IsHex(b) {
 				parser.log_error(InvalidHexStringChar)
 				continue
-- 
2.43.0


From 3e73b1593f687f9129a50b0de86d144834dd8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 31/56] fix: objects of truncated xref table entries were
 treated as free

---
 pdf/keyword.go | 1 +
 pdf/parser.go  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 88cb870..caa0883 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -7,6 +7,7 @@ const (
 	KEYWORD_STREAM = Keyword("stream")
 	KEYWORD_R = Keyword("R")
 	KEYWORD_N = Keyword("n")
+	KEYWORD_F = Keyword("f")
 	KEYWORD_NULL = Keyword("null")
 	KEYWORD_TRUE = Keyword("true")
 	KEYWORD_FALSE = Keyword("false")
diff --git a/pdf/parser.go b/pdf/parser.go
index d3d8ce6..8b9725d 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -244,6 +244,9 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 			xref_type := XrefTypeFreeObject
 			if flag == KEYWORD_N {
 				xref_type = XrefTypeIndirectObject
+			} else if flag != KEYWORD_F {
+				// entry is damaged
+				break
 			}
 
 			// determine object number from subsection start
-- 
2.43.0


From 825aad7b4722f7cd50d89dd30e1a05d0ec048a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 32/56] fix: deeply nested arrays and dictionaries exhausted
 the stack

---
 pdf/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 8b9725d..dd09bea 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -14,6 +14,7 @@ var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
 var xref_regexp = regexp.MustCompile(`xref`)
+var max_nesting_depth = 512
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
@@ -24,10 +25,11 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	depth int
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -526,6 +528,16 @@ func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 		return parser.ReadName(), nil
 	}
 
+	// limit nesting, otherwise deeply nested containers exhaust the stack
+	if b[0] == '[' || string(b) == "<<" {
+		if parser.depth >= max_nesting_depth {
+			parser.Discard(1)
+			return KEYWORD_NULL, nil
+		}
+		parser.depth++
+		defer func() { parser.depth-- }()
+	}
+
 	// handle arrays
 	if b[0] == '[' {
 		return parser.ReadArray(decryptor), nil
-- 
2.43.0


From 28e9a3c737ca30186968dedd906cdc0baf1b5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:03 +0000
Subject: [PATCH 33/56] fix: URL file specifications were listed as files if FS
 is a name

---
 pdf/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/file.go b/pdf/file.go
index 17ef598..f958949 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -12,7 +12,10 @@ func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
 	// file specification can be a url or file
-	fs, _ := d.GetString("FS")
+	fs, ok := d.GetName("FS")
+	if !ok {
+		fs, _ = d.GetString("FS")
+	}
 	if fs == "URL" {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
-- 
2.43.0


From c92265efb369f99ba5931cc3eb36e68f537c0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:03 +0000
Subject: [PATCH 34/56] fix: dangling symbolic link at the output path was
 replaced without -f

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5a34372..78231bf 100644
--- a/main.go
+++ b/main.go
@@ -43,7 +43,7 @@ func init() {
 
 func main() {
 	// check if output directory already exists
-	if _, err := os.Stat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {
+	if _, err := os.Lstat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {
 		fmt.Printf("output directory \"%s\" already exists, use -f to overwrite\n", flag.Arg(1))
 		return
 	}
-- 
2.43.0


From 0ba46e9f2902e9915e6b3c7e803d4ae49447a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:03 +0000
Subject: [PATCH 35/56] fix: large and small numbers were printed with an
 exponent in raw.pdf

---
 pdf/number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/number.go b/pdf/number.go
index 4ee0293..ef899b1 100644
--- a/pdf/number.go
+++ b/pdf/number.go
@@ -1,11 +1,11 @@
 package pdf
 
 import (
-	"fmt"
+	"strconv"
 )
 
 type Number float64
 
 func (number Number) String() string {
-	return fmt.Sprint(float64(number))
+	return strconv.FormatFloat(float64(number), 'f', -1, 64)
 }
-- 
2.43.0


From f1d60481a80f382706498838a1f288cd29888e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:43 +0000
Subject: [PATCH 36/56] fix: xref entry with a negative offset was trusted if
 an object happened to be at the current position

---
 pdf/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index dd09bea..b3cf7f3 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -61,8 +61,8 @@ func (parser *Parser) Load(password string) error {
 	for object_number, object := range objects {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
-			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); !ok || n != object_number {
+			_, err := parser.Seek(xref_entry.Offset, io.SeekStart)
+			if n, _, ok := parser.ReadObjectHeader(); err != nil || !ok || n != object_number {
 				xref_entry.Offset = object.Offset
 				xref_entry.Generation = object.Generation
 			}
-- 
2.43.0


From 327ac2b363bb47de7766bf9c5eeb96629b7f7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:30 +0000
Subject: [PATCH 37/56] fix: metadata streams were decrypted although
 EncryptMetadata is false

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index b3cf7f3..de23c11 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -450,6 +450,11 @@ func (parser *Parser) getObject(number int, with_stream bool) *IndirectObject {
 						crypt_filter = parser.security_handler.file_filter
 					}
 
+					// metadata is not encrypted if EncryptMetadata is false
+					if t, ok := d.GetName("Type"); ok && t == "Metadata" && parser.security_handler.v == 4 && !parser.security_handler.encrypt_meta_data {
+						crypt_filter = noFilter
+					}
+
 					// handle crypt filter override
 					if len(filter_list) > 0 {
 						if filter, _ := filter_list.GetName(0); filter == "Crypt" {
-- 
2.43.0


From 8104ca8502e3fec377814b5656495fbba94879f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:07 +0000
Subject: [PATCH 38/56] fix: wrong offset was recorded for xref streams

---
 pdf/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index de23c11..b9a93cd 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -282,7 +282,8 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 }
 
 func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
-	xref_stream_offset := parser.CurrentOffset()
+	// remember entry of the xref stream itself
+	xref_stream_entry := parser.Xref[n]
 
 	// Get the xref stream object
 	object := parser.GetObject(n)
@@ -378,8 +379,7 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 	}
 
 	// dont decrypt xref streams
-	parser.Xref[object.Number] = NewXrefEntry(xref_stream_offset, object.Generation, XrefTypeIndirectObject)
-	parser.Xref[object.Number].IsEncrypted = false
+	parser.Xref[n] = xref_stream_entry
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
-- 
2.43.0


From e8b904c2ff281629d3106c9097a586838c265bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:30 +0000
Subject: [PATCH 39/56] fix: xref streams listed again by a later xref were
 decrypted

---
 pdf/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index b9a93cd..f73b350 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -65,6 +65,7 @@ func (parser *Parser) Load(password string) error {
 			if n, _, ok := parser.ReadObjectHeader(); err != nil || !ok || n != object_number {
 				xref_entry.Offset = object.Offset
 				xref_entry.Generation = object.Generation
+				xref_entry.IsEncrypted = object.IsEncrypted
 			}
 		} else {
 			// add missing object to xref
@@ -277,10 +278,18 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 
 	// merge xrefs
 	for key, value := range xrefs {
-		parser.Xref[key] = value
+		parser.setXrefEntry(key, value)
 	}
 }
 
+// setXrefEntry sets the xref entry of an object, entries of known xref streams stay marked as not encrypted
+func (parser *Parser) setXrefEntry(n int, xref_entry *XrefEntry) {
+	if current, ok := parser.Xref[n]; ok && !current.IsEncrypted && current.Offset == xref_entry.Offset {
+		xref_entry.IsEncrypted = false
+	}
+	parser.Xref[n] = xref_entry
+}
+
 func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 	// remember entry of the xref stream itself
 	xref_stream_entry := parser.Xref[n]
@@ -374,7 +383,7 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 			object_number := subsection_start + j
 
 			// add the object to the xrefs
-			parser.Xref[object_number] = NewXrefEntry(offset, generation, xref_type)
+			parser.setXrefEntry(object_number, NewXrefEntry(offset, generation, xref_type))
 		}
 	}
 
-- 
2.43.0


From b6a26f0cfda6b2bad6d1e437fb02de8fe958f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:30 +0000
Subject: [PATCH 40/56] fix: actions in arrays that are objects of their own
 were not reported

---
 pdf/object.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index fd09220..18c6bf3 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,8 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	// value can be a dictionary or an array of dictionaries
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
-- 
2.43.0


From fb6db6de58e6073364e356bc7f911cc093d2a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:54 +0000
Subject: [PATCH 41/56] fix: limit the size of the values of character map
 ranges

A range of codes with one long target allocated a copy of the target for every code: 8 KB of input made
the parser allocate 1 GB.
---
 pdf/font.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 0aef218..becccc7 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -22,8 +22,9 @@ func NewFont(d Dictionary) *Font {
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
 
-	// number of codes mapped by ranges
+	// number of codes mapped by ranges and size of their values
 	entries := 0
+	size := 0
 
 	for {
 		// read next command
@@ -64,7 +65,7 @@ func NewFont(d Dictionary) *Font {
 				}
 
 				// limit size of the map, a range can not cover more than all two byte codes
-				for j := 0; j <= end - start && j <= 0xffff && entries < 0x100000; j++ {
+				for j := 0; j <= end - start && j <= 0xffff && entries < 0x100000 && (j == 0 || size < 0x2000000); j++ {
 					// value counts up with the code
 					b := []byte(value)
 					for k, carry := len(b) - 1, j; k >= 0 && carry > 0; k-- {
@@ -74,6 +75,7 @@ func NewFont(d Dictionary) *Font {
 					}
 					font.Cmap[start + j] = string(b)
 					entries++
+					size += len(b)
 				}
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
-- 
2.43.0


From 19cb687e957ded35f930341f525ab21e89254e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 42/56] fix: name tree whose kids arrays lead back to
 themselves exhausted the stack

Kids given as a reference to an array that holds a direct dictionary whose Kids is the same array again
recursed without end.
---
 pdf/dictionary.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 242a78b..f795a7c 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -87,6 +87,15 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 		// append names to name tree map
 		nameTreeMap = append(nameTreeMap, names...)
 	}
+
+	// prevent infinite loop through an array of kids
+	if r, ok := d["Kids"].(*Reference); ok {
+		if _, resolved := resolved_kids[r.Number]; resolved {
+			return nameTreeMap
+		}
+		resolved_kids[r.Number] = nil
+	}
+
 	if kids, ok := d.GetArray("Kids"); ok {
 		for i := range kids {
 			// prevent infinite resolve reference loop
-- 
2.43.0


From 1fa3324a05583071179127d79ff9ed26513df611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:08 +0000
Subject: [PATCH 43/56] fix: objects that are not xref streams were taken for
 xref sections

An object at the offset given by Prev or startxref (often 0) was marked as not encrypted and its entries
became part of the trailer although it is no xref stream.
---
 pdf/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index f73b350..f611c62 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -201,6 +201,12 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			// if xref is a stream
 			parser.Seek(offset, io.SeekStart)
 			if n, g, ok := parser.ReadObjectHeader(); ok {
+				// ignore objects that are not xref streams
+				d := parser.ReadDictionary(noDecryptor)
+				if t, _ := d.GetName("Type"); t != "XRef" && d["W"] == nil {
+					return
+				}
+
 				// prevent decrypting xref streams
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
 				parser.Xref[n].IsEncrypted = false
-- 
2.43.0


From 058c04dc79c77626e658721d2ad5f1d36a3dab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:55 +0000
Subject: [PATCH 44/56] fix: output was written into directories that could not
 be emptied or made

---
 pdf/output.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index fe1f173..d73708b 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -27,7 +27,18 @@ func NewOutput(directory string) (output *Output, err error) {
 
 	// create output dir
 	os.RemoveAll(directory)
-	os.MkdirAll(directory, 0755)
+	if err = os.MkdirAll(directory, 0755); err != nil {
+		return
+	}
+
+	// what is left of an old output dir must not be mixed up with the output
+	entries, err := ioutil.ReadDir(directory)
+	if err != nil {
+		return output, err
+	}
+	if len(entries) > 0 {
+		return output, fmt.Errorf("output directory \"%s\" could not be emptied", directory)
+	}
 
 	// create commands file
 	if output.Commands, err = os.Create(path.Join(directory, "commands.txt")); err != nil {
-- 
2.43.0


From 239dbaf2b3a6e275c43970693c693eee81d099b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 45/56] fix: data of inline images swallowed the text that
 follows them

---
 pdf/keyword.go |  1 +
 pdf/page.go    | 11 +++++++++++
 pdf/parser.go  | 16 ++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index caa0883..cdc4b5c 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -21,6 +21,7 @@ const (
 	KEYWORD_TEXT_SHOW_1 = Keyword("Tj")
 	KEYWORD_TEXT_SHOW_2 = Keyword("'")
 	KEYWORD_TEXT_SHOW_3 = Keyword("\"")
+	KEYWORD_IMAGE_DATA = Keyword("ID")
 	KEYWORD_BEGIN_BF_RANGE = Keyword("beginbfrange")
 	KEYWORD_BEGIN_BF_CHAR = Keyword("beginbfchar")
 )
diff --git a/pdf/page.go b/pdf/page.go
index 30fccff..3561810 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -39,6 +39,7 @@ func (page Page) Extract(output *Output) {
 func (page Page) extract(output *Output, font_map map[string]*Font, contents []byte) {
 	// create parser for parsing contents
 	page_parser := NewParser(bytes.NewReader(contents), nil)
+	images := true
 
 	for {
 		// read next command
@@ -47,6 +48,11 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 			break
 		}
 
+		// skip data of inline images until there are no more
+		if command == KEYWORD_IMAGE_DATA && images {
+			images = page_parser.skipImageData()
+		}
+
 		// start of text block
 		if command == KEYWORD_TEXT {
 			// initial font is none
@@ -59,6 +65,11 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					break
 				}
 
+				// skip data of inline images until there are no more
+				if command == KEYWORD_IMAGE_DATA && images {
+					images = page_parser.skipImageData()
+				}
+
 				// handle font changes
 				if command == KEYWORD_TEXT_FONT {
 					font_name, _ := operands.GetName(len(operands) - 2)
diff --git a/pdf/parser.go b/pdf/parser.go
index f611c62..468f379 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -14,6 +14,7 @@ var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
 var xref_regexp = regexp.MustCompile(`xref`)
+var end_image_regexp = regexp.MustCompile(`[\s\x00]EI([\s\x00]|$)`)
 var max_nesting_depth = 512
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
@@ -667,6 +668,21 @@ func (parser *Parser) ReadCommand() (Keyword, Array, error) {
 	}
 }
 
+// skipImageData moves behind the end of the inline image whose data starts at the current position
+func (parser *Parser) skipImageData() bool {
+	offset := parser.CurrentOffset()
+
+	// scan for end of image marker, image data is binary so it can not be parsed
+	index := end_image_regexp.FindReaderIndex(parser)
+	if index == nil {
+		parser.Seek(offset, io.SeekStart)
+		return false
+	}
+
+	parser.Seek(offset + int64(index[1]), io.SeekStart)
+	return true
+}
+
 func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
-- 
2.43.0


From 856d56d1f79e2e82c15e5b0d3c65428e5c7c6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:00 +0000
Subject: [PATCH 46/56] fix: streams whose run length encoded data is empty
 lost their stream in raw.pdf

RunLengthDecode gave nil for data without bytes, so the object was written as
if it were no stream.
---
 pdf/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index c66939d..b7a0be3 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -163,7 +163,7 @@ func ASCII85Decode(data []byte) []byte {
 }
 
 func RunLengthDecode(data []byte) []byte {
-	var decoded_data bytes.Buffer
+	decoded_data := bytes.NewBuffer([]byte{})
 	for i := 0; i < len(data); {
 		// get length byte
 		length := int(data[i])
-- 
2.43.0


From b4539fe0e5054e1567a3f3a2bf1d951bdb8a0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:56 +0000
Subject: [PATCH 47/56] fix: an entry with an empty value ended its section of
 a ToUnicode map

All entries behind it in a bfchar or bfrange section were lost and their
codes passed through unmapped.
---
 pdf/font.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index becccc7..434d6e7 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -59,8 +59,8 @@ func NewFont(d Dictionary) *Font {
 					}
 					continue
 				}
-				value, _ := object.(String)
-				if value == "" {
+				value, ok := object.(String)
+				if !ok {
 					break
 				}
 
@@ -88,8 +88,10 @@ func NewFont(d Dictionary) *Font {
 				font.Width = len([]byte(key_b))
 				key := BytesToInt([]byte(key_b))
 
-				value := parser.ReadHexString(noDecryptor)
-				if value == "" {
+				// value can be empty
+				object, _ := parser.ReadObject(noDecryptor)
+				value, ok := object.(String)
+				if !ok {
 					break
 				}
 
-- 
2.43.0


From c75b0b92153df956a6d368f15f5a346588b083ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 48/56] fix: report files that are named or embedded under keys
 other than F

---
 pdf/file.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pdf/file.go b/pdf/file.go
index f958949..fcc67fc 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -6,8 +6,21 @@ import (
 
 var unknownHash string = "00000000000000000000000000000000"
 
+// keys of file names and embedded files in order of preference
+var fileKeys []string = []string{"F", "UF", "DOS", "Mac", "Unix"}
+
 type File Dictionary
 
+// path gets the name of the file
+func (file File) path() (string, bool) {
+	for _, key := range fileKeys {
+		if f, ok := Dictionary(file).GetString(key); ok {
+			return f, true
+		}
+	}
+	return "", false
+}
+
 func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
@@ -17,15 +30,21 @@ func (file File) Extract(output *Output, isCommand bool) {
 		fs, _ = d.GetString("FS")
 	}
 	if fs == "URL" {
-		if f, ok := d.GetString("F"); ok {
+		if f, ok := file.path(); ok {
 			fmt.Fprintln(output.URLs, f)
 		}
 	} else if ef, ok := d.GetDictionary("EF"); ok {
 		// get the file data
-		file_data, _ := ef.GetStream("F")
+		var file_data []byte
+		for _, key := range fileKeys {
+			if data, ok := ef.GetStream(key); ok {
+				file_data = data
+				break
+			}
+		}
 
 		// get the file path
-		f, ok := d.GetString("F")
+		f, ok := file.path()
 		if !ok {
 			f = unknownHash
 		}
@@ -33,11 +52,11 @@ func (file File) Extract(output *Output, isCommand bool) {
 		// dump file
 		output.DumpFile(f, file_data)
 	} else if p, ok := d.GetString("P"); ok {
-		if f, ok := d.GetString("F"); ok {
+		if f, ok := file.path(); ok {
 			fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
 		}
-	} else if f, ok := d.GetString("F"); ok {
+	} else if f, ok := file.path(); ok {
 		if isCommand {
 			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
 		}
-- 
2.43.0


From c3427399b8eb72721484b8a4bceeddd958d85a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:34 +0000
Subject: [PATCH 49/56] fix: keys of version 4 encryption without Length are
 128 bits long

---
 pdf/encryption.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 07e3118..cdacf0b 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -212,6 +212,11 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		sh.length, ok = encrypt.GetInt("Length")
 		if !ok {
 			sh.length = 40
+
+			// keys of crypt filters are 128 bits long
+			if sh.v == 4 {
+				sh.length = 128
+			}
 		}
 	}
 	sh.length = sh.length/8
-- 
2.43.0


From 5730eba2f7802d2486232a643d3ebf48df2d0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 50/56] fix: incomplete entries of character maps do not change
 the code width

---
 pdf/font.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 434d6e7..ee93fc6 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -40,7 +40,6 @@ func NewFont(d Dictionary) *Font {
 				if start_b == "" {
 					break
 				}
-				font.Width = len([]byte(start_b))
 				start := BytesToInt([]byte(start_b))
 
 				end_b := parser.ReadHexString(noDecryptor)
@@ -52,6 +51,7 @@ func NewFont(d Dictionary) *Font {
 				// read value of first code or array with one value per code
 				object, _ := parser.ReadObject(noDecryptor)
 				if values, ok := object.(Array); ok {
+					font.Width = len([]byte(start_b))
 					for j := 0; j <= end - start && j < len(values); j++ {
 						if value, ok := values.GetString(j); ok {
 							font.Cmap[start + j] = value
@@ -63,6 +63,7 @@ func NewFont(d Dictionary) *Font {
 				if !ok {
 					break
 				}
+				font.Width = len([]byte(start_b))
 
 				// limit size of the map, a range can not cover more than all two byte codes
 				for j := 0; j <= end - start && j <= 0xffff && entries < 0x100000 && (j == 0 || size < 0x2000000); j++ {
@@ -85,7 +86,6 @@ func NewFont(d Dictionary) *Font {
 				if key_b == "" {
 					break
 				}
-				font.Width = len([]byte(key_b))
 				key := BytesToInt([]byte(key_b))
 
 				// value can be empty
@@ -95,6 +95,7 @@ func NewFont(d Dictionary) *Font {
 					break
 				}
 
+				font.Width = len([]byte(key_b))
 				font.Cmap[key] = string(value)
 			}
 		}
-- 
2.43.0


From adedc09ed1aadf985b2826794e3ddf1f3471592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 51/56] fix: a startxref marker is no cross-reference table

---
 pdf/parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 468f379..f31d8fa 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -13,7 +13,7 @@ import (
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
-var xref_regexp = regexp.MustCompile(`xref`)
+var xref_regexp = regexp.MustCompile(`(start)?xref`)
 var end_image_regexp = regexp.MustCompile(`[\s\x00]EI([\s\x00]|$)`)
 var max_nesting_depth = 512
 var whitespace = []byte("\x00\t\n\f\r ")
@@ -105,13 +105,15 @@ func (parser *Parser) findXrefOffsets() []int64 {
 
 	for {
 		// scan for xref table marker
-		index := xref_regexp.FindReaderIndex(parser)
+		index := xref_regexp.FindReaderSubmatchIndex(parser)
 		if index == nil {
 			break
 		}
 
-		// add location to offsets
-		offsets = append(offsets, offset + int64(index[0]))
+		// add location to offsets, start xref markers are no xref tables
+		if index[2] < 0 {
+			offsets = append(offsets, offset + int64(index[0]))
+		}
 
 		// seek to end of xref marker
 		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
-- 
2.43.0


From ce0c71c6658fb9b3249cc5f08cbde3e96082a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 52/56] fix: do not decrypt an encryption dictionary behind
 several references

---
 pdf/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index f31d8fa..a49192a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -77,10 +77,15 @@ func (parser *Parser) Load(password string) error {
 	// setup security handler if pdf is encrypted
 	if encrypt, ok := parser.trailer["Encrypt"]; ok {
 		// make sure we don't decrypt the encryption dictionary
-		if ref, ok := encrypt.(*Reference); ok {
-			if xref_entry, ok := parser.Xref[ref.Number]; ok {
-				xref_entry.IsEncrypted = false
+		for ref, ok := encrypt.(*Reference); ok; ref, ok = encrypt.(*Reference) {
+			xref_entry, exists := parser.Xref[ref.Number]
+			if !exists || !xref_entry.IsEncrypted {
+				break
 			}
+			xref_entry.IsEncrypted = false
+
+			// dictionary can be behind more than one reference
+			encrypt = parser.getObject(ref.Number, false).Value
 		}
 
 		// set encryption password
-- 
2.43.0


From 1f4d831110bb41a6f9bb40e4f5f17bb3aabea8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 53/56] fix: report launched files that are embedded as
 commands

---
 pdf/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/file.go b/pdf/file.go
index fcc67fc..5ab4beb 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -49,6 +49,11 @@ func (file File) Extract(output *Output, isCommand bool) {
 			f = unknownHash
 		}
 
+		// launched files are commands
+		if isCommand {
+			fmt.Fprintln(output.Commands, f)
+		}
+
 		// dump file
 		output.DumpFile(f, file_data)
 	} else if p, ok := d.GetString("P"); ok {
-- 
2.43.0


From 1fc3f771edc006102506ca8479d233ebf5ee066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 54/56] fix: a null Encrypt entry is no encryption

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index a49192a..0b13795 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -75,7 +75,7 @@ func (parser *Parser) Load(password string) error {
 	}
 
 	// setup security handler if pdf is encrypted
-	if encrypt, ok := parser.trailer["Encrypt"]; ok {
+	if encrypt, ok := parser.trailer["Encrypt"]; ok && encrypt != KEYWORD_NULL {
 		// make sure we don't decrypt the encryption dictionary
 		for ref, ok := encrypt.(*Reference); ok; ref, ok = encrypt.(*Reference) {
 			xref_entry, exists := parser.Xref[ref.Number]
-- 
2.43.0


From c566d3a362043f8c490e9fdcf12fc5ff7f7c9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 55/56] fix: pages whose Resources are null inherit them

---
 pdf/dictionary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index f795a7c..efc88e7 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -155,7 +155,7 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 				object := r.Resolve()
 				if kid_d, ok := object.(Dictionary); ok {
 					// kids inherit resources of their parent
-					if _, ok := kid_d["Resources"]; !ok && d["Resources"] != nil {
+					if _, ok := kid_d.GetDictionary("Resources"); !ok && d["Resources"] != nil {
 						kid_d["Resources"] = d["Resources"]
 					}
 
-- 
2.43.0


From 22b75b7133934218271d3c95f0bf14d47bd9e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:12 +0000
Subject: [PATCH 56/56] fix: crypt filters without a method do not decrypt

---
 pdf/encryption.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index cdacf0b..3b14f7d 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -313,6 +313,10 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		cf, _ := encrypt.GetDictionary("CF")
 		for k := range cf {
 			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
+				// method is none by default
+				if method, ok := cfd.GetObject("CFM"); !ok || method == KEYWORD_NULL {
+					sh.crypt_filters[k] = noFilter
+				}
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
-- 
2.43.0

