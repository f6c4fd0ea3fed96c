From 31bd3640b69f3a2521031588035428d1740ed020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 01/17] fix: compress empty input with lzss_huff and the LZHUF
 port instead of panicking

---
 src/direct_ports/lzhuf.rs | 4 ++--
 src/lzss_huff.rs          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..54ff08b 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -635,8 +635,8 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         lzss.insert_node(r-i);
     }
     lzss.insert_node(r);
-    // start compressing
-    loop {
+    // start compressing (nothing to do if there is no data)
+    while len > 0 {
         if lzss.match_length > len {
             lzss.match_length = len;
         }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..4a6d502 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -271,8 +271,8 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     lzss.insert_node()?;
-    // main compression loop
-    loop {
+    // main compression loop (nothing to do if there is no data)
+    while len > 0 {
         if lzss.match_length > len {
             lzss.match_length = len;
         }
-- 
2.43.0


From 2f759f7894ec72650a52170ef36158b282c08bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 02/17] fix: lzw::expand returns an error when the first code
 is not in the dictionary

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..996e5d6 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,11 +549,11 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
-                    prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
                         return Err(Box::new(crate::Error::FileFormatMismatch));
                     }
+                    prev_str.push(prev_str[0]);
                     if code != next_code.unwrap() {
                         log::error!("Bad LZW code, expected {}, got {}",next_code.unwrap(),code);
                         return Err(Box::new(crate::Error::FileFormatMismatch));
-- 
2.43.0


From 0b7379eb81a108c33d4e22626710066cf08ee70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 03/17] fix: lzss_huff::expand counts the declared size from
 the output offset

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 4a6d502..18a6751 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -347,7 +347,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From f64ae5c28ab6cb8603ea682502b59372e8472bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 04/17] fix: lzss_huff::compress accepts input of exactly
 max_file_size

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 18a6751..42abc3f 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From 71f59e5b95aaf1fb69f4a566241cf4a0f794c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 05/17] fix: lzw::expand writes long strings completely

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 996e5d6..7e50b71 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -567,7 +567,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
-- 
2.43.0


From 1652e6cbeffa64cadcbae5aa9bd487d5ce8ff26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 06/17] fix: return I/O errors from the coders instead of
 panicking

---
 src/direct_ports/lzhuf.rs  | 56 ++++++++++++++++++++------------------
 src/lzss_huff.rs           |  6 ++--
 src/lzw.rs                 | 21 +++++++-------
 src/tools/adaptive_huff.rs | 18 ++++++------
 4 files changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 54ff08b..fd6afc9 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -503,42 +503,43 @@ impl AdaptiveHuffman {
                         self.get_bit(bytes)
                     }
                     Some(Err(e)) => {
-                        panic!("error reading file {}",e)
+                        Err(e)
                     },
-                    None => 0
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u16 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
@@ -555,40 +556,41 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c & 0x3f) << 10,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u16,std::io::Error> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -642,10 +644,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
@@ -707,14 +709,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 42abc3f..8eb3b60 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -278,10 +278,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index 7e50b71..3570a56 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
 }
 
@@ -404,7 +405,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -433,14 +434,14 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::End(0))?; // coder could be rewound
@@ -453,19 +454,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..7dbc536 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,24 +310,25 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u16 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
@@ -343,15 +344,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c & 0x3f) << 10,writer)
     }
 }
 
-- 
2.43.0


From 2e069ae3996df743eee5ed2b5f453c4c6dc63fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 07/17] fix: Huffman codes can be longer than 16 bits

---
 src/direct_ports/lzhuf.rs  | 12 ++++++------
 src/tools/adaptive_huff.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index fd6afc9..5c1c091 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -521,9 +521,9 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -540,7 +540,7 @@ impl AdaptiveHuffman {
         Ok(())
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
-        let mut i: u16 = 0;
+        let mut i: u32 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -548,7 +548,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -563,9 +563,9 @@ impl AdaptiveHuffman {
     fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer)
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer)
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 7dbc536..d4a4d4a 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,9 +310,9 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -329,7 +329,7 @@ impl AdaptiveHuffmanCoder {
         Ok(())
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
-        let mut code: u16 = 0;
+        let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -337,7 +337,7 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
@@ -351,9 +351,9 @@ impl AdaptiveHuffmanCoder {
     pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer)
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer)
     }
 }
 
-- 
2.43.0


From 20eb17b0a8650afcf3486395c42dab8b565fd9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 08/17] fix: report the size of the stream written, not the
 size of the whole sink

---
 src/direct_ports/lzhuf.rs  | 9 ++++++++-
 src/lzss_huff.rs           | 2 +-
 src/lzw.rs                 | 4 +++-
 src/tools/adaptive_huff.rs | 7 +++++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 5c1c091..078fcb8 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -539,6 +539,13 @@ impl AdaptiveHuffman {
         }
         Ok(())
     }
+    /// Step past the last partial byte, if any, since `put_code` rewinds to it.
+    fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u32 = 0;
         let mut j: u16 = 0;
@@ -683,7 +690,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()?))
 }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 8eb3b60..7ef74ac 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -310,7 +310,7 @@ where R: Read + Seek, W: Write + Seek {
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
diff --git a/src/lzw.rs b/src/lzw.rs
index 3570a56..f78ef80 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -439,12 +439,14 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
+                        // coder could be rewound
+                        let end_offset = writer.stream_position()? + (coder.bits.len() > 0) as u64;
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
+                        writer.seek(SeekFrom::Start(end_offset))?;
                         writer.flush()?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index d4a4d4a..7f533c3 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -328,6 +328,13 @@ impl AdaptiveHuffmanCoder {
         }
         Ok(())
     }
+    /// Step past the last partial byte, if any, since `put_code` rewinds to it.
+    pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        Ok(())
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u32 = 0;
         let mut num_bits: u16 = 0;
-- 
2.43.0


From 25e1535f101ed8e4a003cc57d7ba1b4a7ec44e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 09/17] fix: keep the bits that share a byte with an LZW chunk
 header

---
 src/lzw.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lzw.rs b/src/lzw.rs
index f78ef80..60c72f8 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -161,6 +161,17 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// After going back to fill in a chunk header, write `codes` again as long as the stream is
+    /// not byte aligned, so that bits sharing a byte with what was just written are restored.
+    fn rewrite<W: Write + Seek>(&mut self,num_bits: usize,codes: &[usize],writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        for code in codes {
+            if self.bits.len() == 0 {
+                break;
+            }
+            self.put_code(num_bits,*code,writer)?;
+        }
+        Ok(())
+    }
 }
 
 impl LZWDecoder {
@@ -408,6 +419,8 @@ where R: Read + Seek, W: Write + Seek {
             coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
+        // codes of this chunk, needed if the header shares a byte with the first of them
+        let mut codes: Vec<usize> = Vec::new();
         //let mut lookahead = 0;
         log::debug!("entering loop over matches");
         loop {
@@ -435,15 +448,18 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
                             coder.put_code(opt.max_code_width,val.code,&mut writer)?;
+                            codes.push(val.code);
                         }
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer)?;
+                            codes.push(code);
                         }
                         // coder could be rewound
                         let end_offset = writer.stream_position()? + (coder.bits.len() > 0) as u64;
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                            old_coder_state.rewrite(opt.max_code_width,&codes,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::Start(end_offset))?;
@@ -457,6 +473,7 @@ where R: Read + Seek, W: Write + Seek {
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
             coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
+            codes.push(curr.code);
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
@@ -464,11 +481,13 @@ where R: Read + Seek, W: Write + Seek {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
                     coder.put_code(opt.max_code_width,code,&mut writer)?;
+                    codes.push(code);
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
                     old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                    old_coder_state.rewrite(opt.max_code_width,&codes,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
-- 
2.43.0


From 805706deb5f73e749e2a8de4e5369450c627dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 10/17] fix: lzss_huff finds the same matches as LZHUF.C near
 the end of the window

---
 src/lzss_huff.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 7ef74ac..34f3682 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -58,6 +58,9 @@ pub const STD_OPTIONS: Options = Options {
 struct LZSS {
     opt: Options,
     dictionary: RingBuffer<u8>,
+    /// LZHUF.C compares past the end of the window using a copy of its first symbols, which is
+    /// zero until the symbols are read in; what we find as a match depends on this.
+    mirror: Vec<u8>,
     index: Tree,
     match_offset: i32,
     match_length: usize
@@ -66,15 +69,24 @@ struct LZSS {
 impl LZSS {
     fn create(opt: Options) -> Self {
         let dictionary = RingBuffer::create(0,opt.window_size);
+        let mirror = vec![0;opt.lookahead];
         let index = Tree::create(opt.window_size,256);
         Self {
             opt,
             dictionary,
+            mirror,
             index,
             match_offset: 0,
             match_length: 0
         }
     }
+    /// symbol at a dictionary position that can extend past the end of the window
+    fn symbol(&self,pos: usize) -> u8 {
+        match pos < self.opt.window_size {
+            true => self.dictionary.get_abs(pos),
+            false => self.mirror[pos - self.opt.window_size]
+        }
+    }
     /// This finds a match to the symbol run starting at position `pos`.
     /// It always exits by inserting a node: either for a match that was found,
     /// or for a prospective match to come.
@@ -103,7 +115,7 @@ impl LZSS {
             // upon exiting this loop, `i` will have the number of matched symbols,
             // and `cmp` will have the difference in first mismatched symbol values.
             while i < self.opt.lookahead {
-                cmp = self.dictionary.get(i as i64) as i16 - self.dictionary.get_abs(curs+i) as i16;
+                cmp = self.symbol(pos+i) as i16 - self.symbol(curs+i) as i16;
                 if cmp != 0 {
                     break;
                 }
@@ -292,7 +304,11 @@ where R: Read + Seek, W: Write + Seek {
                 Some(Err(e)) => return Err(Box::new(e))
             };
             lzss.delete_node(opt.lookahead as i64)?;
+            let s = lzss.dictionary.get_pos(opt.lookahead as i64);
             lzss.dictionary.set(opt.lookahead as i64,c);
+            if s < opt.lookahead {
+                lzss.mirror[s] = c;
+            }
             lzss.dictionary.advance();
             lzss.insert_node()?;
             i += 1;
-- 
2.43.0


From cbca9914c9cb264196fd5c2c0cf5b027ce53630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 11/17] fix: lzss_huff works with windows shorter than twice
 the lookahead

---
 src/lzss_huff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 34f3682..4281ae7 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -277,7 +277,8 @@ where R: Read + Seek, W: Write + Seek {
             }
         }
     }
-    for _i in 1..=opt.lookahead {
+    // what precedes the data can be indexed only as far as the window goes back
+    for _i in 1..=opt.lookahead.min(start_pos) {
         lzss.dictionary.retreat();
         lzss.insert_node()?;
     }
-- 
2.43.0


From 000fec370289e86f0534efc0fd2f55504b0b5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 12/17] fix: keep header bits when an LZW chunk ends within a
 byte of its header

---
 src/lzw.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 60c72f8..06fdb96 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -163,14 +163,16 @@ impl LZWCoder {
     }
     /// After going back to fill in a chunk header, write `codes` again as long as the stream is
     /// not byte aligned, so that bits sharing a byte with what was just written are restored.
-    fn rewrite<W: Write + Seek>(&mut self,num_bits: usize,codes: &[usize],writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+    /// Returns true if all the codes were needed, in this case the bits still pending may include
+    /// some of the header.
+    fn rewrite<W: Write + Seek>(&mut self,num_bits: usize,codes: &[usize],writer: &mut BufWriter<W>) -> Result<bool,std::io::Error> {
         for code in codes {
             if self.bits.len() == 0 {
-                break;
+                return Ok(false);
             }
             self.put_code(num_bits,*code,writer)?;
         }
-        Ok(())
+        Ok(true)
     }
 }
 
@@ -487,7 +489,9 @@ where R: Read + Seek, W: Write + Seek {
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
                     old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
-                    old_coder_state.rewrite(opt.max_code_width,&codes,&mut writer)?;
+                    if old_coder_state.rewrite(opt.max_code_width,&codes,&mut writer)? {
+                        coder.bits = old_coder_state.bits.clone();
+                    }
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
-- 
2.43.0


From 52b3fb354eedd5380b408859886804ab5efffb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 13/17] fix: refuse data whose length does not fit in the LZSS
 size header

---
 src/lzss_huff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 4281ae7..089af66 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -245,6 +245,10 @@ where R: Read + Seek, W: Write + Seek {
     if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
+    // the length must fit in the header
+    if opt.header && expanded_length > u32::MAX as u64 {
+        return Err(Box::new(crate::Error::FileTooLarge));
+    }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
     writer.seek(SeekFrom::Start(opt.out_offset))?;
     // write the 32-bit header with length of expanded data
-- 
2.43.0


From 06fed84d8ad21d1ca96f5d0af95ccd2137aec81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 14/17] fix: lzss_huff match symbols do not overflow with
 thresholds above 255

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 089af66..c5d39c3 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -297,7 +297,7 @@ where R: Read + Seek, W: Write + Seek {
             lzss.match_length = 1;
             huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_char((255+lzss.match_length-opt.threshold) as u16,&mut writer)?;
             huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
-- 
2.43.0


From ca5660a89cd7fe74a0d1b642392d09eec61dfea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 15/17] fix: LZW codes can be as wide as the machine word

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 06fdb96..17d4af1 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -323,7 +323,7 @@ impl LZW {
     /// Also updates `self.curr_code`, unless None is returned, in which case
     /// it retains the maximum value.
     fn advance_code(&mut self) -> Option<usize> {
-        let max_code = ((1 as usize) << self.opt.max_code_width) - 1;
+        let max_code = usize::MAX >> (usize::BITS as usize - self.opt.max_code_width);
         let mut new_code = match self.curr_code {
             None => 0,
             Some(c) => c + 1
-- 
2.43.0


From 72d540e88e345d838f0de9937927c19adbfc63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 16/17] fix: no overflow when an LZW chunk header claims an
 enormous length

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 17d4af1..533df7d 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -534,7 +534,7 @@ where R: Read + Seek, W: Write + Seek {
             num_bits => {
                 log::debug!("read length of chunk");
                 match decoder.get_code(num_bits,&mut reader) {
-                    Ok(code) => opt.header_divisor * code,
+                    Ok(code) => opt.header_divisor.saturating_mul(code),
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         break;
                     },
-- 
2.43.0


From ed6aa916d080d1678b6121c54ce2b4057d2f3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 17/17] fix: a source that fails with UnexpectedEof is not
 taken for the end of the data

---
 src/lzw.rs                 | 17 ++++++++---------
 src/tools/adaptive_huff.rs |  7 +++----
 src/tools/mod.rs           | 19 ++++++++++++++++++-
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 533df7d..71f47a0 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -6,6 +6,7 @@
 
 use bit_vec::BitVec;
 use crate::BitOrder;
+use crate::tools::read_byte;
 use std::io::{Cursor,Read,Write,Seek,SeekFrom,BufReader,BufWriter,ErrorKind};
 use std::collections::HashMap;
 use crate::DYNERR;
@@ -204,15 +205,14 @@ impl LZWDecoder {
                 Ok(bit as u8)
             },
             None => {
-            let mut by: [u8;1] = [0];
-                match reader.read_exact(&mut by) {
-                    Ok(()) => {
+                match read_byte(reader) {
+                    Ok(by) => {
                         if self.bits.len()>512 {
                             self.drop_leading_bits();
                         }
                         match self.ord {
-                            BitOrder::Msb0 => self.bits.append(&mut BitVec::from_bytes(&by)),
-                            BitOrder::Lsb0 => self.bits.append(&mut bytes_to_bits_lsb0(&by))
+                            BitOrder::Msb0 => self.bits.append(&mut BitVec::from_bytes(&[by])),
+                            BitOrder::Lsb0 => self.bits.append(&mut bytes_to_bits_lsb0(&[by]))
                         }
                         self.get_bit(reader)
                     }
@@ -408,7 +408,6 @@ where R: Read + Seek, W: Write + Seek {
     let mut write_offset_header = opt.out_offset;
     let mut read_chunk_offset = opt.in_offset;
     let mut old_coder_state = LZWCoder::new(opt.ord.clone());
-    let mut sym_in: [u8;1] = [0];
 
     log::debug!("entering loop over chunks");
     loop {
@@ -429,9 +428,9 @@ where R: Read + Seek, W: Write + Seek {
             lzw.curr_match = None;
             // loop to build the longest possible match
             loop {
-                match reader.read_exact(&mut sym_in) {
-                    Ok(()) => {
-                        match lzw.check_match(sym_in[0] as usize) {
+                match read_byte(&mut reader) {
+                    Ok(sym_in) => {
+                        match lzw.check_match(sym_in as usize) {
                             Some(true) => {
                                 // keep matching
                             },
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 7f533c3..4e0d975 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -391,13 +391,12 @@ impl AdaptiveHuffmanDecoder {
                 Ok(bit as u8)
             },
             None => {
-                let mut by: [u8;1] = [0];
-                match reader.read_exact(&mut by) {
-                    Ok(()) => {
+                match super::read_byte(reader) {
+                    Ok(by) => {
                         if self.bits.len()>512 {
                             self.drop_leading_bits();
                         }
-                        self.bits.append(&mut BitVec::from_bytes(&by));
+                        self.bits.append(&mut BitVec::from_bytes(&[by]));
                         self.get_bit(reader)
                     }
                     Err(e) => Err(e)
diff --git a/src/tools/mod.rs b/src/tools/mod.rs
index 31fa031..64a3d74 100644
--- a/src/tools/mod.rs
+++ b/src/tools/mod.rs
@@ -2,4 +2,21 @@
 
 pub mod adaptive_huff;
 pub mod node_pool;
-pub mod ring_buffer;
\ No newline at end of file
+pub mod ring_buffer;
+
+use std::io::{BufReader,Error,ErrorKind,Read};
+
+/// Get the next byte.  The error kind `UnexpectedEof` always means there are no more bytes; should the
+/// source itself fail with an error of this kind it is wrapped, so it cannot be mistaken for the end of data.
+pub fn read_byte<R: Read>(reader: &mut BufReader<R>) -> Result<u8,Error> {
+    let mut by: [u8;1] = [0];
+    loop {
+        match reader.read(&mut by) {
+            Ok(0) => return Err(Error::from(ErrorKind::UnexpectedEof)),
+            Ok(_) => return Ok(by[0]),
+            Err(e) if e.kind()==ErrorKind::Interrupted => {},
+            Err(e) if e.kind()==ErrorKind::UnexpectedEof => return Err(Error::new(ErrorKind::Other,e)),
+            Err(e) => return Err(e)
+        }
+    }
+}
-- 
2.43.0

