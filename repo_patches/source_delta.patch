From d8590e45872572e09054e2f9a1e44488f7c72d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 01/39] fix: Fs.createFile reports success only when all
 content reached the file

---
 Sources/Srt/Srl/Fs.alusus | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/Fs.alusus b/Sources/Srt/Srl/Fs.alusus
index cde3e3f..7fc6014 100644
--- a/Sources/Srt/Srl/Fs.alusus
+++ b/Sources/Srt/Srl/Fs.alusus
@@ -100,9 +100,10 @@ import "String";
       def file: ptr[File];
       file = openFile(filename, "wb");
       if file == null return false;
-      write(content, 1, contentCount, file);
-      closeFile(file);
-      return true;
+      def written: Bool = write(content, 1, contentCount, file) == contentCount;
+      // Buffered data may only reach the disk at closing.
+      if closeFile(file) != 0 return false;
+      return written;
     };
 
     def readFile: function (filename: ptr[array[Char]], result: ptr[ptr], size: ptr[ArchInt]) => Bool
-- 
2.43.0


From 017148f56c892eee7dad2482d2bfe34fec0033c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 02/39] fix: Fs.readFile fails instead of crashing or returning
 unread content when the file cannot be read

---
 Sources/Srt/Srl/Fs.alusus | 47 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/Sources/Srt/Srl/Fs.alusus b/Sources/Srt/Srl/Fs.alusus
index 7fc6014..4b2beee 100644
--- a/Sources/Srt/Srl/Fs.alusus
+++ b/Sources/Srt/Srl/Fs.alusus
@@ -109,21 +109,26 @@ import "String";
     def readFile: function (filename: ptr[array[Char]], result: ptr[ptr], size: ptr[ArchInt]) => Bool
     {
       def file: ptr[File];
-      def buffer: ptr[array[Char]];
-      if exists(filename) {
-        file = openFile(filename, "rb");
-        seek(file, 0, Seek.END);
-        size~cnt = tell(file);
-        buffer = Srl.Memory.alloc(size~cnt + 1)~cast[ptr[array[Char]]];
-        seek(file, 0, Seek.SET);
-        read(buffer, size~cnt, 1, file);
-        closeFile(file);
-        buffer~cnt(size~cnt) = 0;
-        result~cnt = buffer;
-        return true;
+      file = openFile(filename, "rb");
+      if file == null return false;
+      def buffer: ptr[array[Char]] = null;
+      def length: ArchInt = -1;
+      if seek(file, 0, Seek.END) == 0 length = tell(file);
+      if length >= 0 and seek(file, 0, Seek.SET) == 0 {
+        buffer = Srl.Memory.alloc(length + 1)~cast[ptr[array[Char]]];
+        if buffer != null {
+          if read(buffer, 1, length, file) != length {
+            Srl.Memory.free(buffer);
+            buffer = null;
+          };
+        };
       };
-      buffer = 0;
-      return false;
+      closeFile(file);
+      if buffer == null return false;
+      buffer~cnt(length) = 0;
+      size~cnt = length;
+      result~cnt = buffer;
+      return true;
     };
 
     def readFile: function (filename: ptr[array[Char]], size: ptr[ArchInt]) => ptr[array[Char]]
@@ -137,16 +142,12 @@ import "String";
     def readFile: function (filename: ptr[array[Char]]): String
     {
       def content: String;
-      def file: ptr[File];
-      if exists(filename) {
-        file = openFile(filename, "rb");
-        seek(file, 0, Seek.END);
-        def size: ArchInt = tell(file);
+      def buffer: ptr;
+      def size: ArchInt;
+      if readFile(filename, buffer~ptr, size~ptr) {
         content.alloc(size);
-        seek(file, 0, Seek.SET);
-        read(content.buf, size, 1, file);
-        closeFile(file);
-        content.buf~cnt(size) = 0;
+        Srl.Memory.copy(content.buf, buffer, size + 1);
+        Srl.Memory.free(buffer);
       };
       return content;
     };
-- 
2.43.0


From c1de4ebac7398ee8ff9db07c5796c3763c421d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 03/39] fix: Fs.readDir survives missing and changing
 directories

---
 Sources/Srt/Srl/Fs.alusus | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/Sources/Srt/Srl/Fs.alusus b/Sources/Srt/Srl/Fs.alusus
index 4b2beee..f1a908c 100644
--- a/Sources/Srt/Srl/Fs.alusus
+++ b/Sources/Srt/Srl/Fs.alusus
@@ -175,24 +175,26 @@ import "String";
       def dir: ptr[Dir];
       def dirent: ptr[DirEnt];
       dir = openDir(directoryName);
-      // Count the files in the directory.
-      def count: Int;
-      count = 0;
+      if dir == null return null;
+      // The directory can change while it's being read, so we can't count its entries in advance.
+      def count: Int = 0;
+      def capacity: Int = 16;
+      def fileNames: ptr[FileNames];
+      fileNames = Srl.Memory.alloc(FileNames~size + array[Char, FILENAME_LENGTH]~size * capacity)~cast[ptr[FileNames]];
       while 1 {
         dirent = readDir(dir);
-        if dirent == 0 break;
+        if dirent == null break;
+        if count == capacity {
+          capacity *= 2;
+          fileNames = Srl.Memory.realloc(
+            fileNames, FileNames~size + array[Char, FILENAME_LENGTH]~size * capacity
+          )~cast[ptr[FileNames]];
+        };
+        // The entry's record is only as long as its name.
+        String.copy(fileNames~cnt.names(count)~ptr, dirent~cnt.dName~ptr);
         ++count;
       };
-      // Allocate a structure with the appropriate size.
-      def fileNames: ptr[FileNames];
-      fileNames = Srl.Memory.alloc(Int~size + array[Char, FILENAME_LENGTH]~size * count)~cast[ptr[FileNames]];
       fileNames~cnt.count = count;
-      // Read the fielnames.
-      rewindDir(dir);
-      def i: Int;
-      for i = 0, i < count, ++i {
-        fileNames~cnt.names(i) = readDir(dir)~cnt.dName;
-      };
       closeDir(dir);
       return fileNames;
     };
-- 
2.43.0


From d229184a888b2b3ca09a45ef195b3ee75086bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 04/39] fix: Net.get releases the received part of a response
 that failed

---
 Sources/Srt/Srl/Net.alusus | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Srt/Srl/Net.alusus b/Sources/Srt/Srl/Net.alusus
index 4c9a880..4856c99 100644
--- a/Sources/Srt/Srl/Net.alusus
+++ b/Sources/Srt/Srl/Net.alusus
@@ -419,6 +419,7 @@ import "curl";
         resultCount~cnt = content.size;
         return true;
       } else {
+        if content.data != 0 Srl.Memory.free(content.data);
         return false;
       };
     };
-- 
2.43.0


From 6534502fe231572849b6d7fb10ab7317ed470fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 05/39] fix: Net.get to a file fails when the file cannot be
 written completely

---
 Sources/Srt/Srl/Net.alusus | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Net.alusus b/Sources/Srt/Srl/Net.alusus
index 4856c99..10c216f 100644
--- a/Sources/Srt/Srl/Net.alusus
+++ b/Sources/Srt/Srl/Net.alusus
@@ -445,7 +445,8 @@ import "curl";
       CurlEasy.setOpt(curlHandle, CurlOpt.SSL_VERIFYPEER, 0);
       resultCode = CurlEasy.perform(curlHandle);
       CurlEasy.cleanup(curlHandle);
-      Srl.Fs.closeFile(file);
+      // Buffered data may only reach the disk at closing.
+      if Srl.Fs.closeFile(file) != 0 return false;
       if resultCode == CurlCode.OK return true
       else return false;
     };
-- 
2.43.0


From ef0c3fee03b208999f735f36e942ade6d34ed048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 06/39] fix: Console.getString returns at the end of the input
 and stays within zero-length buffers

---
 Sources/Srt/Srl/Console.alusus | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/Console.alusus b/Sources/Srt/Srl/Console.alusus
index 288589c..ff6d29f 100644
--- a/Sources/Srt/Srl/Console.alusus
+++ b/Sources/Srt/Srl/Console.alusus
@@ -55,17 +55,18 @@ import "srl";
 
         func getString(str: ptr[array[Char]], count: Word): Void {
             def i: Word;
-            def c: Char;
+            def c: Int[32];
             i = 0;
-            c = 0;
-            while c != '\n' {
+            while true {
                 c = getChar();
-                if c != '\n' && i < count - 1 {
-                    str~cnt(i) = c;
+                // Stop at the end of the line or the end of the input.
+                if c == '\n' or c < 0 break;
+                if i + 1 < count {
+                    str~cnt(i) = c~cast[Char];
                     ++i;
                 };
             };
-            str~cnt(i) = 0;
+            if count > 0 str~cnt(i) = 0;
         };
 
         module Style {
-- 
2.43.0


From 4c40f8da346126a280995bd7a4b5fa63de9f2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 07/39] fix: String positions and lengths are in elements, not
 bytes, for wide strings

---
 Sources/Srt/Srl/String.alusus | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index b074adb..30dd81c 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -197,14 +197,14 @@ import "Array";
             if startPos > 0 return -1;
             def pos: ptr = find(startBuf, buf);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.findLast (buf: ptr[array[T]]): ArchInt {
             if this.buf == 0 return -1;
             def pos: ptr = findLast(this.buf, buf);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.find (c: T): ArchInt {
@@ -220,14 +220,14 @@ import "Array";
             if startPos > 0 return -1;
             def pos: ptr = find(startBuf, c);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.findLast (c: T): ArchInt {
             if this.buf == 0 return -1;
             def pos: ptr = findLast(this.buf, c);
             if pos == 0 return -1;
-            return pos~cast[ArchInt] - this.buf~cast[ArchInt];
+            return (pos~cast[ArchInt] - this.buf~cast[ArchInt]) / T~size;
         };
 
         handler this.compare (s: ptr[array[T]]): Int {
@@ -248,7 +248,7 @@ import "Array";
                     str.append(buf);
                     return str;
                 };
-                def n: ArchInt = found~cast[ArchInt] - buf~cast[ArchInt];
+                def n: ArchInt = (found~cast[ArchInt] - buf~cast[ArchInt]) / T~size;
                 str.append(buf, n);
                 str.append(replacement);
                 buf = found~cnt(matchLength)~ptr~cast[ptr[array[T]]];
@@ -325,7 +325,7 @@ import "Array";
                     ary.add(str);
                     return ary;
                 };
-                def n: ArchInt = found~cast[ArchInt] - buf~cast[ArchInt];
+                def n: ArchInt = (found~cast[ArchInt] - buf~cast[ArchInt]) / T~size;
                 if n == 0 str = StringBase[T]() else str.assign(buf, n);
                 ary.add(str);
                 buf = found~cnt(matchLength)~ptr~cast[ptr[array[T]]];
-- 
2.43.0


From 6cfa1929a61f6138a84a1923fb87f8a9aefa214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 08/39] fix: String.replace and String.split end when the match
 is empty

---
 Sources/Srt/Srl/String.alusus | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 30dd81c..4516241 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -241,6 +241,10 @@ import "Array";
         handler this.replace (match: ptr[array[T]], replacement: ptr[array[T]]): StringBase[T] {
             def str: StringBase[T];
             def matchLength: ArchInt = getLength(match);
+            if matchLength == 0 {
+                str = this;
+                return str;
+            }
             def buf: ptr[array[T]] = this.buf;
             while 1 {
                 def found: ptr[array[T]] = find(buf, match)~cast[ptr[array[T]]];
@@ -317,6 +321,11 @@ import "Array";
             def ary: Array[StringBase[T]];
             def str: StringBase[T];
             def matchLength: ArchInt = getLength(separator);
+            if matchLength == 0 {
+                str = this;
+                ary.add(str);
+                return ary;
+            }
             def buf: ptr[array[T]] = this.buf;
             while 1 {
                 def found: ptr[array[T]] = find(buf, separator)~cast[ptr[array[T]]];
-- 
2.43.0


From 464258e0a869f61f53c4704ddd2d03e5b6960c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 09/39] fix: String keeps its content when given itself or a
 part of its own buffer, and stays terminated

---
 Sources/Srt/Srl/String.alusus | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index 4516241..ee2a352 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -90,19 +90,23 @@ import "Array";
         handler this.alloc (length: ArchInt) {
             this._release();
             this._alloc(length);
+            this.buf~cnt(0) = 0;
         };
 
         handler this.realloc (newLength: ArchInt) {
-            if this.refCount~ptr == 0 this._alloc(newLength)
+            if newLength < 0 newLength = 0;
+            if this.refCount~ptr == 0 this.alloc(newLength)
             else if this.refCount == 1 this._realloc(newLength)
             else {
                 def currentBuf: ptr[array[T]] = this.buf;
                 this.alloc(newLength);
-                copy(this.buf, currentBuf);
+                copy(this.buf, currentBuf, newLength);
             }
+            this.buf~cnt(newLength) = 0;
         }
 
         handler this.assign (str: ref[StringBase[T]]) {
+            if this~ptr == str~ptr return;
             this._release();
             this.refCount~ptr = str.refCount~ptr;
             this.buf = str.buf;
@@ -112,18 +116,17 @@ import "Array";
         };
 
         handler this.assign (buf: ptr[array[T]]) {
-            this._release();
-            if buf != 0 {
-                this._alloc(getLength(buf));
-                copy(this.buf, buf);
-            }
+            if buf == 0 this._release()
+            else this.assign(buf, getLength(buf));
         };
 
         handler this.assign (buf: ptr[array[T]], n: ArchInt) {
-            this._release();
-            this._alloc(n);
-            copy(this.buf, buf, n);
-            this.buf~cnt(n) = 0;
+            // The given buffer can be a part of our own buffer, so we'll release the latter last.
+            def str: StringBase[T];
+            str._alloc(n);
+            copy(str.buf, buf, n);
+            str.buf~cnt(n) = 0;
+            this.assign(str);
         };
 
         handler this.append (buf: ptr[array[T]]) {
@@ -144,7 +147,11 @@ import "Array";
                 copy(this.buf, currentBuf);
                 copy(this.buf + currentLen, buf, bufLen);
             } else {
+                // The given buffer can be a part of our own buffer, which is about to move.
+                def offset: ArchInt = buf~cast[ArchInt] - this.buf~cast[ArchInt];
+                def isOwn: Bool = offset >= 0 && offset <= currentLen * T~size;
                 this._realloc(newLength);
+                if isOwn buf = (this.buf~cast[ArchInt] + offset)~cast[ptr[array[T]]];
                 copy(this.buf + currentLen, buf, bufLen);
             };
             this.buf~cnt(newLength) = 0;
-- 
2.43.0


From 47f368c934949712ce2bd2722bbd4f11c5aef8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 10/39] fix: String and StringBuilder append any 64 bit integer

---
 Sources/Srt/Srl/String.alusus        | 15 +++++++--------
 Sources/Srt/Srl/StringBuilder.alusus | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index ee2a352..f28f66f 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -467,16 +467,15 @@ import "Array";
 
         handler this._append (i: Int[64], minDigits: Int) {
             def buf: array[Char, 22];
-            def strptr: ptr[Char] = buf(19)~ptr;
+            def strptr: ptr[Char] = buf(21)~ptr;
             strptr~cnt = 0;
-            def negative: Bool = 0;
-            if i < 0 {
-                negative = 1;
-                i = -i;
-            }
-            while minDigits-- > 0 || i > 0 {
+            def negative: Bool = i < 0;
+            while minDigits-- > 0 || i != 0 {
+                // The remainder has the same sign as the number, which has no positive equivalent if it's the minimum.
+                def digit: Int[64] = i % 10;
+                if digit < 0 digit = -digit;
                 strptr = strptr - 1;
-                strptr~cnt = '0' + i % 10;
+                strptr~cnt = '0' + digit;
                 i /= 10;
             }
             if negative {
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index 9cd940c..f95a0ca 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -112,16 +112,15 @@ import "Spp/Ast";
 
         handler this._append (i: Int[64], minDigits: Int) {
             def buf: array[Char, 22];
-            def strptr: ptr[Char] = buf(19)~ptr;
+            def strptr: ptr[Char] = buf(21)~ptr;
             strptr~cnt = 0;
-            def negative: Bool = 0;
-            if i < 0 {
-                negative = 1;
-                i = -i;
-            }
-            while minDigits-- > 0 || i > 0 {
+            def negative: Bool = i < 0;
+            while minDigits-- > 0 || i != 0 {
+                // The remainder has the same sign as the number, which has no positive equivalent if it's the minimum.
+                def digit: Int[64] = i % 10;
+                if digit < 0 digit = -digit;
                 strptr = strptr - 1;
-                strptr~cnt = '0' + i % 10;
+                strptr~cnt = '0' + digit;
                 i /= 10;
             }
             if negative {
-- 
2.43.0


From bfd8d6c70c02b3dafc6078e0f1dc30b684ccc4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 11/39] fix: rounding of fractions in appended floats carries
 to the integer part

---
 Sources/Srt/Srl/String.alusus        | 11 ++++++++---
 Sources/Srt/Srl/StringBuilder.alusus | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index f28f66f..d607898 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -490,10 +490,15 @@ import "Array";
                 f *= -1;
                 this.append('-');
             }
-            this.append(f~cast[Int[64]]);
-            def fractions: Float[64] = f - f~cast[Int[64]];
+            def integer: Int[64] = f~cast[Int[64]];
+            def fractions: Int[64] = ((f - integer) * 1000000.0f64 + 0.5f64)~cast[Int[64]];
+            if fractions >= 1000000 {
+                ++integer;
+                fractions -= 1000000;
+            }
+            this.append(integer);
             this.append('.');
-            this._append((fractions * 1000000.0f64 + 0.5f64)~cast[Int[64]], 6);
+            this._append(fractions, 6);
         };
 
         @expname[strchr]
diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index f95a0ca..de751bb 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -135,10 +135,15 @@ import "Spp/Ast";
                 f *= -1;
                 this.append('-');
             }
-            this.append(f~cast[Int[64]]);
-            def fractions: Float[64] = f - f~cast[Int[64]];
+            def integer: Int[64] = f~cast[Int[64]];
+            def fractions: Int[64] = ((f - integer) * 1000000.0f64 + 0.5f64)~cast[Int[64]];
+            if fractions >= 1000000 {
+                ++integer;
+                fractions -= 1000000;
+            }
+            this.append(integer);
             this.append('.');
-            this._append((fractions * 1000000.0f64 + 0.5f64)~cast[Int[64]], 6);
+            this._append(fractions, 6);
         };
 
         handler this.format(fmt: ptr[array[Char]], args: ...any) {
-- 
2.43.0


From de37fd862fd0247ea1c0a281b595ec0ed251cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 12/39] fix: String.remove compiles and does not copy
 overlapping memory with strcpy

---
 Sources/Srt/Srl/String.alusus | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Sources/Srt/Srl/String.alusus b/Sources/Srt/Srl/String.alusus
index d607898..890a2cb 100644
--- a/Sources/Srt/Srl/String.alusus
+++ b/Sources/Srt/Srl/String.alusus
@@ -415,11 +415,16 @@ import "Array";
         };
 
         func remove(chrs: ptr[array[T]], chr: T): ptr[array[T]] {
-            def pointer: ptr[array[T]] = find(chrs, chr);
-            while pointer != 0 {
-                copy(pointer, pointer~cnt(1)~ptr~cast[ptr[array[T]]]);
-                pointer = find(pointer, chr);
+            def from: ptr[T] = chrs~cast[ptr[T]];
+            def to: ptr[T] = from;
+            while from~cnt != 0 {
+                if from~cnt != chr {
+                    to~cnt = from~cnt;
+                    to = to + 1;
+                }
+                from = from + 1;
             };
+            to~cnt = 0;
             return chrs;
         };
 
-- 
2.43.0


From 8f835d7b28a14fd6effec5afcfe4a615f66e8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 13/39] fix: modifying an Array or a Map does not change or
 invalidate its copies

---
 Sources/Srt/Srl/Array.alusus      | 7 ++++++-
 Sources/Srt/Srl/ArrayIndex.alusus | 4 ++--
 Sources/Srt/Srl/Map.alusus        | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 9be913f..47d223b 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -53,7 +53,10 @@ import "Memory";
 
         handler this.reserve(size: ArchInt) {
             if this.data~ptr == 0 this.data~no_deref = ArrayData[T].alloc(size)
-            else if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            else if size > this.bufSize {
+                this._prepareToModify(false);
+                if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            }
         }
 
         handler this.getLength (): ArchInt {
@@ -67,6 +70,7 @@ import "Memory";
         };
 
         handler this.assign (ary: ref[Array[T]]) {
+            if this~ptr == ary~ptr return;
             this._release();
             this.data~no_deref = ary.data;
             if this.data~ptr != 0 {
@@ -110,6 +114,7 @@ import "Memory";
             if index < 0 || index >= this.getLength() {
                 this.add(item);
             } else {
+                this._prepareToModify(false);
                 this.buf(index)~no_deref = item;
             };
         }
diff --git a/Sources/Srt/Srl/ArrayIndex.alusus b/Sources/Srt/Srl/ArrayIndex.alusus
index c7d590b..14f04a5 100644
--- a/Sources/Srt/Srl/ArrayIndex.alusus
+++ b/Sources/Srt/Srl/ArrayIndex.alusus
@@ -53,7 +53,7 @@ import "Memory";
                 // First update the existing indices.
                 def j: ArchInt;
                 for j = 0, j < this.indices.getLength(), ++j {
-                    if this.indices(j) >= i { ++this.indices(j) };
+                    if this.indices(j) >= i { this.indices.set(j, this.indices(j) + 1) };
                 }
                 // Now insert the new value.
                 def pos: ArchInt;
@@ -74,7 +74,7 @@ import "Memory";
                     this.indices.remove(j);
                     --j;
                 } else if this.indices(j) > i {
-                    --this.indices(j);
+                    this.indices.set(j, this.indices(j) - 1);
                 }
             }
         }
diff --git a/Sources/Srt/Srl/Map.alusus b/Sources/Srt/Srl/Map.alusus
index b80994c..a7e6b51 100644
--- a/Sources/Srt/Srl/Map.alusus
+++ b/Sources/Srt/Srl/Map.alusus
@@ -117,7 +117,7 @@ import "System";
             if i < 0 || i >= this.keys.getLength() {
                 System.fail(1, "Argument `i` is out of range.");
             }
-            this.values(i) = value;
+            this.values.set(i, value);
             return this;
         }
 
-- 
2.43.0


From c85c3699e2065f4f05726dd4a151060e45392926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 14/39] fix: Map.insert passes the position on

---
 Sources/Srt/Srl/Map.alusus | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/Map.alusus b/Sources/Srt/Srl/Map.alusus
index a7e6b51..f664cff 100644
--- a/Sources/Srt/Srl/Map.alusus
+++ b/Sources/Srt/Srl/Map.alusus
@@ -122,8 +122,8 @@ import "System";
         }
 
         handler this.insert(i: ArchInt, key: T1, value: T2) {
-            this.keys.insert(key);
-            this.values.insert(value);
+            this.keys.insert(i, key);
+            this.values.insert(i, value);
             if this.keysIndex~ptr != 0 this.keysIndex.add(i);
         }
 
-- 
2.43.0


From 8fb0c0df08bd65762ea73027827cb92fbd004faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 15/39] fix: StringBuilder appends a part of its own buffer

---
 Sources/Srt/Srl/StringBuilder.alusus | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sources/Srt/Srl/StringBuilder.alusus b/Sources/Srt/Srl/StringBuilder.alusus
index de751bb..85c0b31 100644
--- a/Sources/Srt/Srl/StringBuilder.alusus
+++ b/Sources/Srt/Srl/StringBuilder.alusus
@@ -94,7 +94,11 @@ import "Spp/Ast";
                 this.bufferSize = newBufSize;
                 String.copy(this.string.buf, currentBuf);
             } else if newBufSize > this.bufferSize {
+                // The given buffer can be a part of our own buffer, which is about to move.
+                def offset: ArchInt = buf~cast[ArchInt] - this.string.buf~cast[ArchInt];
+                def isOwn: Bool = offset >= 0 && offset <= this.length;
                 this.string.realloc(newBufSize);
+                if isOwn buf = (this.string.buf~cast[ArchInt] + offset)~cast[CharsPtr];
                 this.bufferSize = newBufSize;
             }
             String.copy(this.string.buf + this.length, buf, bufLen);
-- 
2.43.0


From 54e9cd606d3a3e0958f0fd5f74ade852e29d4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 16/39] fix: shared and unique references survive the release
 of the object that holds them

---
 Sources/Srt/Srl/refs_base.alusus | 33 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/Sources/Srt/Srl/refs_base.alusus b/Sources/Srt/Srl/refs_base.alusus
index 4c35c9d..3a74574 100644
--- a/Sources/Srt/Srl/refs_base.alusus
+++ b/Sources/Srt/Srl/refs_base.alusus
@@ -155,8 +155,10 @@ import "Spp";
 
         handler this.release() {
             if this.refCounter~ptr != 0 {
-                if --this.refCounter.count == 0 RefCounter.release(this.refCounter);
+                // This reference can be a part of the object that is about to be released.
+                def counter: ref[RefCounter](this.refCounter);
                 this._init();
+                if --counter.count == 0 RefCounter.release(counter);
             };
         };
 
@@ -169,14 +171,17 @@ import "Spp";
         };
 
         handler this.assign (c: ref[RefCounter], r: ref[T]) {
-            if c~ptr != this.refCounter~ptr {
-                this.release();
-                this.refCounter~ptr = c~ptr;
-                if this.refCounter~ptr != 0 {
-                    ++this.refCounter.count;
-                };
-            }
+            // Releasing the current object can destroy the reference we are copying from, or even this reference, so that
+            // needs to be done last.
+            def oldCounter: ref[RefCounter](this.refCounter);
+            this.refCounter~ptr = c~ptr;
             this.obj~ptr = r~ptr;
+            if this.refCounter~ptr != oldCounter~ptr {
+                if this.refCounter~ptr != 0 { ++this.refCounter.count };
+                if oldCounter~ptr != 0 {
+                    if --oldCounter.count == 0 RefCounter.release(oldCounter);
+                };
+            };
         };
 
         handler this.isNull(): Bool return this.obj~ptr == 0;
@@ -292,9 +297,11 @@ import "Spp";
 
         handler this.release() {
             if this.obj~ptr != 0 {
-                this.obj~terminate();
-                Memory.free(this.obj~ptr);
+                // This reference can be a part of the object that is about to be released.
+                def oldObj: ref[T](this.obj);
                 this.obj~ptr = 0;
+                oldObj~terminate();
+                Memory.free(oldObj~ptr);
             }
         };
 
@@ -304,8 +311,10 @@ import "Spp";
         // Operators
 
         handler this = ptr[T] {
-            this.release();
-            this.obj~ptr = value;
+            if this.obj~ptr != value {
+                this.release();
+                this.obj~ptr = value;
+            };
         };
 
         handler this~cast[ref[T]] return this.obj;
-- 
2.43.0


From 461dc32073cdaf1832031f1cda7601ae7fbeec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 17/39] fix: an Array can be assigned an array held by one of
 its own elements

---
 Sources/Srt/Srl/Array.alusus | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 47d223b..4eec263 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -46,8 +46,10 @@ import "Memory";
 
         handler this._release() {
             if this.data~ptr != 0 {
-                if --this.refCount == 0 ArrayData[T].release(this.data);
+                // This array can be a part of one of the elements that are about to be released.
+                def oldData: ref[ArrayData[T]](this.data);
                 this._init();
+                if --oldData.refCount == 0 ArrayData[T].release(oldData);
             };
         };
 
@@ -70,12 +72,15 @@ import "Memory";
         };
 
         handler this.assign (ary: ref[Array[T]]) {
-            if this~ptr == ary~ptr return;
-            this._release();
+            // The given array can be a part of one of our elements, so we'll release those last.
+            def oldData: ref[ArrayData[T]](this.data);
             this.data~no_deref = ary.data;
             if this.data~ptr != 0 {
                 ++this.refCount;
             };
+            if oldData~ptr != 0 {
+                if --oldData.refCount == 0 ArrayData[T].release(oldData);
+            };
         };
 
         handler this._prepareToModify (enlarge: Bool) {
-- 
2.43.0


From d8ea68e0c14ecd8e054ea1f3b8bff6f0c057a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 18/39] fix: break and continue out of a statements pack
 destroy all objects of the loop body

---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 40 ++++++------------------
 Sources/Spp/CodeGen/LoopTgContext.h      | 17 ++++++++++
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 3bb72d3..066c849 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -191,6 +191,7 @@ Bool CommandGenerator::_generateWhileStatement(
 
   SharedPtr<LoopTgContext> loopTgContext;
   if (!session->getTg()->prepareWhileStatement(session->getTgContext(), loopTgContext)) return false;
+  loopTgContext->setDestructionIndex(session->getDestructionStack()->getItemCount());
   session->getEda()->setCodeGenData(astNode, loopTgContext);
 
   // Generate the condition.
@@ -227,6 +228,7 @@ Bool CommandGenerator::_generateForStatement(
 
   SharedPtr<LoopTgContext> loopTgContext;
   if (!session->getTg()->prepareForStatement(session->getTgContext(), loopTgContext)) return false;
+  loopTgContext->setDestructionIndex(session->getDestructionStack()->getItemCount());
   session->getEda()->setCodeGenData(astNode, loopTgContext);
 
   // Generate the condition.
@@ -290,7 +292,6 @@ Bool CommandGenerator::_generateContinueStatement(
   }
 
   // Find the loop statement.
-  Int scopeCount = 0;
   Core::Data::Node *loopNode = astNode;
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
@@ -300,24 +301,15 @@ Bool CommandGenerator::_generateContinueStatement(
         newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
       );
       return false;
-    } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
-      ++scopeCount;
-    } else {
-      // if it's a non-scope body of a control statement we still want to treat it as if it's a scope.
-      if (
-        ti_cast<Spp::Ast::WhileStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::ForStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::IfStatement>(loopNode->getOwner()) != 0
-      ) {
-        ++scopeCount;
-      }
     }
     loopNode = loopNode->getOwner();
   }
 
-  if (!g->generateVarGroupDestruction(session, session->getDestructionStack()->getScopeStartIndex(-scopeCount))) return false;
-
+  // Destruct everything created since the beginning of the loop, whether in the scopes between the loop and this
+  // statement or as temporary objects of expressions that contain this statement.
   auto loopTgContext = session->getEda()->getCodeGenData<LoopTgContext>(loopNode);
+  if (!g->generateVarGroupDestruction(session, loopTgContext->getDestructionIndex())) return false;
+
   return session->getTg()->generateContinue(session->getTgContext(), loopTgContext);
 }
 
@@ -338,7 +330,6 @@ Bool CommandGenerator::_generateBreakStatement(
   }
 
   // Find the loop statement.
-  Int scopeCount = 0;
   Core::Data::Node *loopNode = astNode;
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
@@ -348,26 +339,15 @@ Bool CommandGenerator::_generateBreakStatement(
         newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
       );
       return false;
-    } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
-      ++scopeCount;
-    } else {
-      // if it's a non-scope body of a control statement we still want to treat it as if it's a scope.
-      if (
-        ti_cast<Spp::Ast::WhileStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::ForStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::IfStatement>(loopNode->getOwner()) != 0
-      ) {
-        ++scopeCount;
-      }
     }
     loopNode = loopNode->getOwner();
   }
 
-  if (!g->generateVarGroupDestruction(session, session->getDestructionStack()->getScopeStartIndex(-scopeCount))) {
-    return false;
-  }
-
+  // Destruct everything created since the beginning of the loop, whether in the scopes between the loop and this
+  // statement or as temporary objects of expressions that contain this statement.
   auto loopTgContext = session->getEda()->getCodeGenData<LoopTgContext>(loopNode);
+  if (!g->generateVarGroupDestruction(session, loopTgContext->getDestructionIndex())) return false;
+
   return session->getTg()->generateBreak(session->getTgContext(), loopTgContext);
 }
 
diff --git a/Sources/Spp/CodeGen/LoopTgContext.h b/Sources/Spp/CodeGen/LoopTgContext.h
index f18d851..1807858 100644
--- a/Sources/Spp/CodeGen/LoopTgContext.h
+++ b/Sources/Spp/CodeGen/LoopTgContext.h
@@ -24,6 +24,13 @@ class LoopTgContext : public TiObject
   TYPE_INFO(LoopTgContext, TiObject, "Spp.CodeGen", "Spp", "alusus.org");
 
 
+  //============================================================================
+  // Member Variables
+
+  /// The number of items in the destruction stack at the beginning of the loop.
+  private: Word destructionIndex = 0;
+
+
   //============================================================================
   // Constructor & Destructor
 
@@ -35,6 +42,16 @@ class LoopTgContext : public TiObject
   //============================================================================
   // Member Functions
 
+  public: void setDestructionIndex(Word index)
+  {
+    this->destructionIndex = index;
+  }
+
+  public: Word getDestructionIndex() const
+  {
+    return this->destructionIndex;
+  }
+
   public: virtual TiObject* getConditionContext() const = 0;
   public: virtual TiObject* getUpdaterContext() const = 0;
   public: virtual TiObject* getBodyContext() const = 0;
-- 
2.43.0


From 90de15883877f9a51f64631d03c1c9ccc43619a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 19/39] fix: global variables first needed by the same
 statement can depend on each other

---
 Sources/Spp/CodeGen/Generator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/CodeGen/Generator.cpp b/Sources/Spp/CodeGen/Generator.cpp
index 070b21c..a19c177 100644
--- a/Sources/Spp/CodeGen/Generator.cpp
+++ b/Sources/Spp/CodeGen/Generator.cpp
@@ -1164,8 +1164,13 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
     if (!generation->generateFunction(astFunc, session)) result = false;
   }
 
-  // Build global var dependencies.
-  if (session->getGlobalVarInitializationDeps()->getCount() > 0) {
+  // Build global var dependencies. Each var gets its own constructor since the initialization of a var can require the
+  // initialization of other vars, including those that come after it in the list.
+  while (session->getGlobalVarInitializationDeps()->getCount() > 0) {
+    DependencyList<Core::Data::Node> varDeps;
+    varDeps.add(session->getGlobalVarInitializationDeps()->get(0), false);
+    session->getGlobalVarInitializationDeps()->remove(0);
+
     generator->funcNameIndex++;
 
     // Build the constructor function.
@@ -1174,7 +1179,7 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
     GlobalCtorDtorInfo ctorInfo;
     ctorInfo.name = ctorNameStream.str().c_str();
     if (generator->buildGlobalCtorOrDtor(
-      session, session->getGlobalVarInitializationDeps(), ctorInfo.name, false,
+      session, &varDeps, ctorInfo.name, false,
       [=,&ctorInfo](
         Spp::Ast::Type *varAstType, TiObject *varTgRef, Core::Data::Node *varAstNode, TiObject *astParams,
         Session *childSession
-- 
2.43.0


From 88bfff46b3407169eca2c95a7a3f1f0a8459e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 20/39] fix: stop at failed reads of sources instead of reading
 forever

The end of input test only looked for the end of the file, so an I/O error made
the compiler read (and lex) the same byte endlessly. A source that cannot be
read to its end is now reported, and its last, possibly cut, statement is not
executed.
---
 Sources/Core/Processing/CharInStreaming.h         |  1 +
 Sources/Core/Processing/Engine.cpp                |  7 ++++++-
 Sources/Core/Processing/InteractiveCharInStream.h | 10 ++++++++--
 Sources/Core/Processing/StdCharInStream.h         |  9 +++++++--
 Sources/Core/core.h                               |  1 +
 Sources/Core/start.cpp                            |  6 ++++++
 6 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/Sources/Core/Processing/CharInStreaming.h b/Sources/Core/Processing/CharInStreaming.h
index b431286..00d9593 100644
--- a/Sources/Core/Processing/CharInStreaming.h
+++ b/Sources/Core/Processing/CharInStreaming.h
@@ -29,6 +29,7 @@ class CharInStreaming : public TiInterface
 
   public: virtual Char get() = 0;
   public: virtual Bool isEof() = 0;
+  public: virtual Bool isFailed() = 0;
 
 };
 
diff --git a/Sources/Core/Processing/Engine.cpp b/Sources/Core/Processing/Engine.cpp
index 80c54b1..3bf4be8 100644
--- a/Sources/Core/Processing/Engine.cpp
+++ b/Sources/Core/Processing/Engine.cpp
@@ -66,7 +66,7 @@ SharedPtr<TiObject> Engine::processFile(Char const *filename)
   StdCharInStream finStream(&fin);
 
   if (fin.fail()) {
-    throw EXCEPTION(InvalidArgumentException, S("filename"), S("Could not open file."), filename);
+    throw EXCEPTION(FileException, filename, C('o'), S("unreadable"));
   }
   return this->processStream(&finStream, filename);
 }
@@ -92,6 +92,11 @@ SharedPtr<TiObject> Engine::processStream(CharInStreaming *is, Char const *strea
     c = is->get();
   }
 
+  // What was read up to a failure isn't a complete source, so don't let its last statement pass as complete.
+  if (is->isFailed()) {
+    throw EXCEPTION(FileException, sourceLocation.filename, C('r'), S("unreadable"));
+  }
+
   auto endLine = sourceLocation.line;
   auto endColumn = sourceLocation.column;
 
diff --git a/Sources/Core/Processing/InteractiveCharInStream.h b/Sources/Core/Processing/InteractiveCharInStream.h
index c4c35e3..348c048 100644
--- a/Sources/Core/Processing/InteractiveCharInStream.h
+++ b/Sources/Core/Processing/InteractiveCharInStream.h
@@ -50,7 +50,7 @@ class InteractiveCharInStream : public TiObject, public CharInStreaming
 
   public: virtual Char get()
   {
-    Char c;
+    Char c = C('\0');
     inStream.get(c);
     if (c == C('\n')) {
       outStream << ++this->lineNumber << S("> ");
@@ -60,7 +60,13 @@ class InteractiveCharInStream : public TiObject, public CharInStreaming
 
   public: virtual Bool isEof()
   {
-    return inStream.eof();
+    return !inStream.good();
+  }
+
+  public: virtual Bool isFailed()
+  {
+    // When the standard streams are synced with stdio, a failure looks like an end of file on the C++ side.
+    return inStream.bad() || std::ferror(stdin) != 0;
   }
 
 }; // class
diff --git a/Sources/Core/Processing/StdCharInStream.h b/Sources/Core/Processing/StdCharInStream.h
index 08fadd4..3234187 100644
--- a/Sources/Core/Processing/StdCharInStream.h
+++ b/Sources/Core/Processing/StdCharInStream.h
@@ -50,14 +50,19 @@ class StdCharInStream : public TiObject, public CharInStreaming
 
   public: virtual Char get()
   {
-    Char c;
+    Char c = C('\0');
     this->stream->get(c);
     return c;
   }
 
   public: virtual Bool isEof()
   {
-    return this->stream->eof();
+    return !this->stream->good();
+  }
+
+  public: virtual Bool isFailed()
+  {
+    return this->stream->bad();
   }
 
 }; // class
diff --git a/Sources/Core/core.h b/Sources/Core/core.h
index d31c276..eba0a1b 100644
--- a/Sources/Core/core.h
+++ b/Sources/Core/core.h
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <fstream>
 #include <string.h>
+#include <cstdio>
 #include <type_traits>
 #include <atomic>
 #include <functional>
diff --git a/Sources/Core/start.cpp b/Sources/Core/start.cpp
index 06885c9..c3272b8 100644
--- a/Sources/Core/start.cpp
+++ b/Sources/Core/start.cpp
@@ -210,6 +210,12 @@ int main(int argCount, char * const args[])
         } else {
           outStream << S("Invalid file type: ") << e.getFileName() << NEW_LINE;
         }
+      } else if (e.getComment() == S("unreadable")) {
+        if (lang == S("ar")) {
+          outStream << S("تعذرت قراءة الملف: ") << e.getFileName() << NEW_LINE;
+        } else {
+          outStream << S("Failed to read file: ") << e.getFileName() << NEW_LINE;
+        }
       } else {
         if (lang == S("ar")) {
           outStream << S("الملف مفقود: ") << e.getFileName() << NEW_LINE;
-- 
2.43.0


From 147ce7e8b09eb11498fda78064c432d819fce77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 21/39] fix: an import that cannot be opened fails like a
 missing one

It ended the whole compilation with an internal message, alternatives weren't
tried, and the directory of the failed file stayed in the search paths.
---
 Sources/Core/Main/RootManager.cpp | 34 +++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/Sources/Core/Main/RootManager.cpp b/Sources/Core/Main/RootManager.cpp
index d6fe34d..e59a851 100644
--- a/Sources/Core/Main/RootManager.cpp
+++ b/Sources/Core/Main/RootManager.cpp
@@ -138,25 +138,25 @@ SharedPtr<TiObject> RootManager::_processFile(Char const *fullPath, Bool allowRe
   }
   this->processedFiles.add(fullPath, TioSharedPtr::null);
 
+  // Removes the directory of the file from the current paths however the processing ends.
+  struct SearchPathGuard {
+    RootManager *rootManager;
+    Str path;
+    ~SearchPathGuard() { if (this->path.getLength() > 0) this->rootManager->popSearchPath(this->path); }
+  } guard = { this };
+
   // Extract the directory part and add it to the current paths.
-  Str searchPath;
   Char const *dirEnd = strrchr(fullPath, C('/'));
   if (dirEnd != 0) {
-    searchPath = Str(fullPath, 0, dirEnd - fullPath + 1);
+    Str searchPath(fullPath, 0, dirEnd - fullPath + 1);
     this->pushSearchPath(searchPath);
+    guard.path = searchPath;
   }
 
   // Process the file.
   Processing::Engine engine(this->rootScope);
   this->noticeSignal.relay(engine.noticeSignal);
-  auto result = engine.processFile(fullPath);
-
-  // Remove the added path, if any.
-  if (searchPath.getLength() > 0) {
-    this->popSearchPath(searchPath);
-  }
-
-  return result;
+  return engine.processFile(fullPath);
 }
 
 
@@ -187,7 +187,19 @@ Bool RootManager::tryImportFile(Char const *filename, Str &errorDetails)
     // Load a source file.
     LOG(LogLevel::PARSER_MAJOR, S("Importing source file: ") << filename);
 
-    this->_processFile(filename);
+    // Keep our own copy since nested imports reuse the buffer.
+    Str fullFilename(filename);
+
+    try {
+      this->_processFile(filename);
+    } catch (FileException &e) {
+      // A file that cannot be opened is a failed import of this file, everything else isn't ours to handle.
+      if (e.getOperation() != C('o') || e.getFileName() != fullFilename) throw;
+      this->processedFiles.remove(fullFilename);
+      if (errorDetails.getLength() != 0) errorDetails += S("\n");
+      errorDetails += e.getErrorMessage();
+      return false;
+    }
 
     return true;
   } else {
-- 
2.43.0


From 330dd11d992bd54271159dba79d49b7101293836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 22/39] fix: import names longer than the system's limit
 overflowed the lookup buffers

Also don't use the result of a failed realpath.
---
 Sources/Core/Main/RootManager.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/Sources/Core/Main/RootManager.cpp b/Sources/Core/Main/RootManager.cpp
index e59a851..d0b9620 100644
--- a/Sources/Core/Main/RootManager.cpp
+++ b/Sources/Core/Main/RootManager.cpp
@@ -275,18 +275,19 @@ Bool RootManager::findFile(Char const *filename, std::array<Char,PATH_MAX> &resu
   // Is the filename an absolute path already?
   if (filename[0] == C('/')) {
     if (this->tryFileName(filename, tmpFilename)) {
-        #ifdef WINDOWS
-          _fullpath(resultFilename.data(), tmpFilename.data(), PATH_MAX);
-        #else
-          realpath(tmpFilename.data(), resultFilename.data());
-        #endif
-      return true;
+      #ifdef WINDOWS
+        return _fullpath(resultFilename.data(), tmpFilename.data(), PATH_MAX) != 0;
+      #else
+        return realpath(tmpFilename.data(), resultFilename.data()) != 0;
+      #endif
     }
   } else {
     // Try all current paths.
     thread_local static std::array<Char,PATH_MAX> fullPath;
     for (Int i = this->searchPaths.size()-1; i >= 0; --i) {
       Int len = this->searchPaths[i].getLength();
+      // Skip what is too long to be a file name.
+      if (len + 1 + getStrLen(filename) >= PATH_MAX) continue;
       copyStr(this->searchPaths[i], fullPath.data());
       if (fullPath.data()[len - 1] != C('/')) {
         copyStr(S("/"), fullPath.data() + len);
@@ -296,11 +297,10 @@ Bool RootManager::findFile(Char const *filename, std::array<Char,PATH_MAX> &resu
 
       if (this->tryFileName(fullPath.data(), tmpFilename)) {
         #ifdef WINDOWS
-          _fullpath(resultFilename.data(), tmpFilename.data(), PATH_MAX);
+          if (_fullpath(resultFilename.data(), tmpFilename.data(), PATH_MAX) != 0) return true;
         #else
-          realpath(tmpFilename.data(), resultFilename.data());
+          if (realpath(tmpFilename.data(), resultFilename.data()) != 0) return true;
         #endif
-        return true;
       }
     }
   }
@@ -312,13 +312,16 @@ Bool RootManager::findFile(Char const *filename, std::array<Char,PATH_MAX> &resu
 
 Bool RootManager::tryFileName(Char const *path, std::array<Char,PATH_MAX> &resultFilename)
 {
-  if (this->doesFileExist(path)) {
+  if (getStrLen(path) < PATH_MAX && this->doesFileExist(path)) {
     copyStr(path, resultFilename.data());
     return true;
   }
 
   auto pathLen = getStrLen(path);
 
+  // Leave room for the prefix and the extensions added below.
+  if (pathLen + 32 > PATH_MAX) return false;
+
   // Try source extensions.
   for (Int i = 0; i < sizeof(sourceExtensions) / sizeof(sourceExtensions[0]); ++i) {
     copyStr(path, resultFilename.data());
-- 
2.43.0


From 978e173d981e0f94ba6863b45bffc6b59a0a4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 23/39] fix: a message catalogue that cannot be read kept the
 compiler reading forever

---
 Sources/Core/Notices/L18nDictionary.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Sources/Core/Notices/L18nDictionary.cpp b/Sources/Core/Notices/L18nDictionary.cpp
index dbeff4d..aa9da72 100644
--- a/Sources/Core/Notices/L18nDictionary.cpp
+++ b/Sources/Core/Notices/L18nDictionary.cpp
@@ -34,9 +34,8 @@ void L18nDictionary::initialize(Char const *locale, Char const *l18nPath)
   l18nPathFilesystemPath = l18nPathFilesystemPath / (std::string(locale) + ".txt");
   std::ifstream fin(l18nPathFilesystemPath.c_str());
   if (!fin.fail()) {
-    while (!fin.eof()) {
-      std::string line;
-      std::getline(fin, line);
+    std::string line;
+    while (std::getline(fin, line)) {
       Int pos = line.find(C(':'));
       if (pos != -1) {
         Str key(line.c_str(), pos);
-- 
2.43.0


From 34b826cdca819009c15e3b6376ee3eb600908bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 24/39] fix: a type whose body is cut off ended the compiler
 with an internal exception

---
 Sources/Spp/Handlers/TypeParsingHandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/Handlers/TypeParsingHandler.cpp b/Sources/Spp/Handlers/TypeParsingHandler.cpp
index 5d672d5..d29f3ee 100644
--- a/Sources/Spp/Handlers/TypeParsingHandler.cpp
+++ b/Sources/Spp/Handlers/TypeParsingHandler.cpp
@@ -58,7 +58,9 @@ void TypeParsingHandler::onProdEnd(Processing::Parser *parser, Processing::Parse
   }
 
   if (body == 0) {
-    throw EXCEPTION(GenericException, S("Type body is missing."));
+    // This happens only when the parser could not get to the end of the body, which it has already reported.
+    state->setData(SharedPtr<TiObject>(0));
+    return;
   }
 
   auto userType = Ast::UserType::create({
-- 
2.43.0


From a639ef5f76bd2e07f78fe52dd93287b6e873e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 25/39] fix: bytes that form no character ended the compiler
 with an internal exception

They also swallowed the end of the input, and characters following them. The
gap they now leave in the source positions needs the input buffer to remove all
the groups that were consumed.
---
 Sources/Core/Processing/InputBuffer.cpp |  2 +-
 Sources/Core/Processing/Lexer.cpp       | 23 +++++++++++++++++++++--
 Sources/Core/Processing/Lexer.h         |  3 +++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/Sources/Core/Processing/InputBuffer.cpp b/Sources/Core/Processing/InputBuffer.cpp
index be1d945..d3d55b2 100644
--- a/Sources/Core/Processing/InputBuffer.cpp
+++ b/Sources/Core/Processing/InputBuffer.cpp
@@ -152,7 +152,7 @@ void InputBuffer::remove(Int count)
 
     // Remove the marked character groups.
     if (gc > 0) {
-      this->charGroups.erase(this->charGroups.begin(), this->charGroups.begin()+(gc-1));
+      this->charGroups.erase(this->charGroups.begin(), this->charGroups.begin()+gc);
     }
 
     // There should be at least two entires in the charGroups array at this
diff --git a/Sources/Core/Processing/Lexer.cpp b/Sources/Core/Processing/Lexer.cpp
index e619163..969718a 100644
--- a/Sources/Core/Processing/Lexer.cpp
+++ b/Sources/Core/Processing/Lexer.cpp
@@ -63,6 +63,9 @@ void Lexer::initialize(SharedPtr<Data::Ast::Scope> rootScope)
  */
 void Lexer::handleNewChar(Char inputChar, Data::SourceLocationRecord &sourceLocation)
 {
+  // A byte that cannot continue the buffered sequence leaves that sequence incomplete.
+  if (this->tempByteCharCount > 0 && (inputChar & 0xC0) != 0x80) this->dropInvalidSequence(sourceLocation);
+
   // Buffer the input sequence until it can be converted to wide characters.
   this->tempByteCharBuffer[this->tempByteCharCount] = inputChar;
   ++this->tempByteCharCount;
@@ -77,12 +80,28 @@ void Lexer::handleNewChar(Char inputChar, Data::SourceLocationRecord &sourceLoca
     computeNextCharPosition(wideCharBuffer[0], sourceLocation.line, sourceLocation.column);
     this->tempByteCharCount = 0;
   } else if (this->tempByteCharCount == 4) {
-    throw EXCEPTION(GenericException,
-                    S("Invalid input character sequence. Sequence could not be converted to wide characters."));
+    this->dropInvalidSequence(sourceLocation);
   }
 }
 
 
+/**
+ * Report the bytes buffered so far as an unrecognized character, then forget
+ * them.
+ *
+ * @param sourceLocation The source location of the invalid sequence. This will
+ *                       be updated with the location following the sequence.
+ */
+void Lexer::dropInvalidSequence(Data::SourceLocationRecord &sourceLocation)
+{
+  this->tempByteCharCount = 0;
+  this->noticeSignal.emit(newSrdObj<Notices::UnrecognizedCharNotice>(
+    S("\xEF\xBF\xBD"), newSrdObj<Data::SourceLocationRecord>(sourceLocation)
+  ));
+  ++sourceLocation.column;
+}
+
+
 /**
  * Add a string to the input buffer and keep processing until no more characters
  * are in the input buffer.
diff --git a/Sources/Core/Processing/Lexer.h b/Sources/Core/Processing/Lexer.h
index dcdce27..535e0a0 100644
--- a/Sources/Core/Processing/Lexer.h
+++ b/Sources/Core/Processing/Lexer.h
@@ -206,6 +206,9 @@ class Lexer : public TiObject
   /// Process all the characters currently waiting in the input buffer.
   private: void processBuffer();
 
+  /// Report and drop bytes that do not form a character.
+  private: void dropInvalidSequence(Data::SourceLocationRecord &sourceLocation);
+
   /// Push a character into the input buffer.
   private: Bool pushChar(WChar ch, Data::SourceLocationRecord const &sl);
 
-- 
2.43.0


From c544fb5cdff5c02e776288cb87e618c2e5e6c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 26/39] fix: blocks of modules, preprocess and ast literals
 that are cut off crashed the compiler

---
 Sources/Spp/Grammar/SppFactory.cpp            | 10 +++++++---
 Sources/Spp/Handlers/ModuleParsingHandler.cpp |  9 +++++++--
 Sources/Spp/Handlers/TypeParsingHandler.cpp   |  5 +++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/Sources/Spp/Grammar/SppFactory.cpp b/Sources/Spp/Grammar/SppFactory.cpp
index 168b79a..55b3ccb 100644
--- a/Sources/Spp/Grammar/SppFactory.cpp
+++ b/Sources/Spp/Grammar/SppFactory.cpp
@@ -502,8 +502,10 @@ void SppFactory::createGrammar()
   }}, newSrdObj<CustomParsingHandler>([](Parser *parser, ParserState *state) {
     auto metadata = state->getData().ti_cast_get<Data::Ast::MetaHaving>();
     auto currentList = state->getData().ti_cast_get<Containing<TiObject>>();
-    if (currentList->getElementCount() != 2) {
-      throw EXCEPTION(GenericException, S("Unexpected error while parsing `preprocess` statement."));
+    if (currentList == 0 || currentList->getElementCount() != 2) {
+      // This happens only when the parser could not get to the end of the body, which it has already reported.
+      state->setData(SharedPtr<TiObject>(0));
+      return;
     }
     auto preprocessStatement = Ast::PreprocessStatement::create({
       { S("prodId"), metadata->getProdId() },
@@ -535,7 +537,9 @@ void SppFactory::createGrammar()
       auto metadata = state->getData().ti_cast_get<Data::Ast::MetaHaving>();
       auto currentList = state->getData().ti_cast_get<Containing<TiObject>>();
       if (currentList == 0 || currentList->getElementCount() != 2) {
-        throw EXCEPTION(GenericException, S("Unexpected data type while parsing AST literal command."));
+        // This happens only when the parser could not get to the end of the body, which it has already reported.
+        state->setData(SharedPtr<TiObject>(0));
+        return;
       }
       auto astLiteralCommand = Ast::AstLiteralCommand::create({
         { "prodId", metadata->getProdId() },
diff --git a/Sources/Spp/Handlers/ModuleParsingHandler.cpp b/Sources/Spp/Handlers/ModuleParsingHandler.cpp
index 591e49e..9228d68 100644
--- a/Sources/Spp/Handlers/ModuleParsingHandler.cpp
+++ b/Sources/Spp/Handlers/ModuleParsingHandler.cpp
@@ -23,8 +23,13 @@ void ModuleParsingHandler::onProdEnd(Processing::Parser *parser, Processing::Par
 
   auto currentList = state->getData().ti_cast_get<Core::Data::Ast::List>();
 
-  auto bodyIndex = currentList->getElementCount() - 1;
-  auto body = currentList->getElement(bodyIndex);
+  Int bodyIndex = currentList == 0 ? -1 : static_cast<Int>(currentList->getElementCount()) - 1;
+  auto body = bodyIndex < 1 ? 0 : ti_cast<Core::Data::Ast::Scope>(currentList->getElement(bodyIndex));
+  if (body == 0) {
+    // This happens only when the parser could not get to the end of the body, which it has already reported.
+    state->setData(SharedPtr<TiObject>(0));
+    return;
+  }
 
   // We'll use the source location of the "module" keyword, rather than of the first statement.
   auto metaHaving = ti_cast<Core::Data::Ast::MetaHaving>(body);
diff --git a/Sources/Spp/Handlers/TypeParsingHandler.cpp b/Sources/Spp/Handlers/TypeParsingHandler.cpp
index d29f3ee..807dfe4 100644
--- a/Sources/Spp/Handlers/TypeParsingHandler.cpp
+++ b/Sources/Spp/Handlers/TypeParsingHandler.cpp
@@ -22,6 +22,11 @@ void TypeParsingHandler::onProdEnd(Processing::Parser *parser, Processing::Parse
   GenericParsingHandler::onProdEnd(parser, state);
 
   auto currentList = state->getData().ti_cast_get<Core::Data::Ast::List>();
+  if (currentList == 0) {
+    // This happens only when the parser could not get to the end of the type, which it has already reported.
+    state->setData(SharedPtr<TiObject>(0));
+    return;
+  }
   auto metadata = ti_cast<Core::Data::Ast::MetaHaving>(currentList);
 
   Core::Data::Ast::Identifier *defName = 0;
-- 
2.43.0


From 4e03b8d16c1e257cce82df205ba139ee805472c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 27/39] fix: a function or return statement at root level ended
 the compiler with an internal exception

---
 Sources/Spp/BuildManager.cpp             | 5 ++++-
 Sources/Spp/CodeGen/CommandGenerator.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sources/Spp/BuildManager.cpp b/Sources/Spp/BuildManager.cpp
index 483b880..a88786a 100644
--- a/Sources/Spp/BuildManager.cpp
+++ b/Sources/Spp/BuildManager.cpp
@@ -244,7 +244,10 @@ Bool BuildManager::_addElementToExecutionEntry(TiObject *self, TiObject *element
   CodeGen::TerminalStatement terminal;
   Bool result = true;
   if (element->isDerivedFrom<Ast::Function>()) {
-    throw EXCEPTION(InvalidArgumentException, S("element"), S("Invalid element type."));
+    buildMgr->rootManager->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::UnsupportedOperationNotice>(Core::Data::Ast::findSourceLocation(element))
+    );
+    result = false;
   } else if (element->isDerivedFrom<Ast::Module>()) {
     result = generation->generateModuleInit(static_cast<Ast::Module*>(element), buildSession->getCodeGenSession());
   } else {
diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 066c849..7421f66 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -53,7 +53,10 @@ Bool CommandGenerator::_generateReturnStatement(
   // Get this function's return type.
   Ast::Function *function = Core::Data::findOwner<Ast::Function>(astNode);
   if (function == 0) {
-    throw EXCEPTION(GenericException, S("Return statement does not belong to a function."));
+    cmdGenerator->astHelper->getNoticeStore()->add(
+      newSrdObj<Spp::Notices::UnsupportedOperationNotice>(astNode->findSourceLocation())
+    );
+    return false;
   }
   auto retTypeRef = function->getType()->getRetType().ti_cast_get<Core::Data::Node>();
   Ast::Type *retType = function->getType()->traceRetType(cmdGenerator->astHelper);
-- 
2.43.0


From 4c4dc118abbd73ed3d46b72ed508c09d4d3dd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 28/39] fix: report break, continue and return where there is
 nothing to leave instead of crashing

---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 7421f66..0fb8084 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -50,9 +50,10 @@ Bool CommandGenerator::_generateReturnStatement(
 ) {
   PREPARE_SELF(cmdGenerator, CommandGenerator);
 
-  // Get this function's return type.
+  // Get this function's return type. A function can't be left from code that is executed at preprocess time.
   Ast::Function *function = Core::Data::findOwner<Ast::Function>(astNode);
-  if (function == 0) {
+  auto preprocess = Core::Data::findOwner<Ast::PreprocessStatement>(astNode);
+  if (function == 0 || (preprocess != 0 && Core::Data::findOwner<Ast::Function>(preprocess) == function)) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::UnsupportedOperationNotice>(astNode->findSourceLocation())
     );
@@ -286,7 +287,7 @@ Bool CommandGenerator::_generateContinueStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto steps = stepsNode == 0 ? 1L : std::strtol(stepsNode->getValue().get(), 0, 10);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
@@ -299,13 +300,18 @@ Bool CommandGenerator::_generateContinueStatement(
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
       if (--steps == 0) break;
-    } else if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
+    }
+    // A loop cannot be left from code that is executed at a different time.
+    if (
+      !loopNode->isDerivedFrom<Spp::Ast::Function>() && !loopNode->isDerivedFrom<Spp::Ast::PreprocessStatement>()
+    ) loopNode = loopNode->getOwner();
+    else loopNode = 0;
+    if (loopNode == 0) {
       cmdGenerator->astHelper->getNoticeStore()->add(
         newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
       );
       return false;
     }
-    loopNode = loopNode->getOwner();
   }
 
   // Destruct everything created since the beginning of the loop, whether in the scopes between the loop and this
@@ -324,7 +330,7 @@ Bool CommandGenerator::_generateBreakStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto steps = stepsNode == 0 ? 1L : std::strtol(stepsNode->getValue().get(), 0, 10);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
@@ -337,13 +343,18 @@ Bool CommandGenerator::_generateBreakStatement(
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
       if (--steps == 0) break;
-    } else if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
+    }
+    // A loop cannot be left from code that is executed at a different time.
+    if (
+      !loopNode->isDerivedFrom<Spp::Ast::Function>() && !loopNode->isDerivedFrom<Spp::Ast::PreprocessStatement>()
+    ) loopNode = loopNode->getOwner();
+    else loopNode = 0;
+    if (loopNode == 0) {
       cmdGenerator->astHelper->getNoticeStore()->add(
         newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
       );
       return false;
     }
-    loopNode = loopNode->getOwner();
   }
 
   // Destruct everything created since the beginning of the loop, whether in the scopes between the loop and this
-- 
2.43.0


From 60fcb33ded8a993b99585bf17bf95f5854e0b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 29/39] fix: report types that contain themselves instead of
 recursing endlessly

---
 Sources/Spp/CodeGen/TypeGenerator.cpp | 35 +++++++++++++++++++++++++++
 Sources/Spp/CodeGen/TypeGenerator.h   |  3 +++
 2 files changed, 38 insertions(+)

diff --git a/Sources/Spp/CodeGen/TypeGenerator.cpp b/Sources/Spp/CodeGen/TypeGenerator.cpp
index 5035ca3..417e35b 100644
--- a/Sources/Spp/CodeGen/TypeGenerator.cpp
+++ b/Sources/Spp/CodeGen/TypeGenerator.cpp
@@ -12,6 +12,7 @@
 
 #include "spp.h"
 #include <regex>
+#include <set>
 
 namespace Spp { namespace CodeGen
 {
@@ -342,6 +343,14 @@ Bool TypeGenerator::_generateUserTypeMemberVars(
             result = false;
             continue;
           }
+          // A type can't contain itself, because its size would be infinite.
+          if (typeGenerator->doesTypeContain(astMemberType, astType)) {
+            typeGenerator->astHelper->getNoticeStore()->add(
+              newSrdObj<Spp::Notices::CircularUserTypeDefinitionsNotice>(def->findSourceLocation())
+            );
+            result = false;
+            continue;
+          }
           Ast::setAstType(obj, astMemberType);
           // Make sure the name is unique.
           Str defName = def->getName().getStr();
@@ -394,6 +403,32 @@ Bool TypeGenerator::_generateUserTypeMemberVars(
 }
 
 
+Bool TypeGenerator::doesTypeContain(Spp::Ast::Type *astType, Spp::Ast::UserType *astUserType)
+{
+  std::vector<Spp::Ast::Type*> pending { astType };
+  std::set<Spp::Ast::Type*> visited;
+  while (!pending.empty()) {
+    auto type = pending.back();
+    pending.pop_back();
+    if (type == astUserType) return true;
+    if (!visited.insert(type).second) continue;
+    if (type->isDerivedFrom<Spp::Ast::ArrayType>()) {
+      pending.push_back(static_cast<Spp::Ast::ArrayType*>(type)->getContentType(this->astHelper));
+    } else if (type->isDerivedFrom<Spp::Ast::UserType>()) {
+      // Members that are not generated yet will be checked when they get generated.
+      auto body = static_cast<Spp::Ast::UserType*>(type)->getBody().get();
+      for (Int i = 0; body != 0 && i < body->getCount(); ++i) {
+        auto def = ti_cast<Core::Data::Ast::Definition>(body->getElement(i));
+        if (def == 0 || this->astHelper->getVariableDomain(def) != Ast::DefinitionDomain::OBJECT) continue;
+        auto memberType = Ast::tryGetAstType(def->getTarget().get());
+        if (memberType != 0 && this->astHelper->isInMemVariable(def->getTarget().get())) pending.push_back(memberType);
+      }
+    }
+  }
+  return false;
+}
+
+
 Bool TypeGenerator::_generateUserTypeAutoConstructor(
   TiObject *self, Spp::Ast::UserType *astType, Generation *g, Session *session
 ) {
diff --git a/Sources/Spp/CodeGen/TypeGenerator.h b/Sources/Spp/CodeGen/TypeGenerator.h
index 779eaaa..acbad1b 100644
--- a/Sources/Spp/CodeGen/TypeGenerator.h
+++ b/Sources/Spp/CodeGen/TypeGenerator.h
@@ -154,6 +154,9 @@ class TypeGenerator : public TiObject, public DynamicBinding, public DynamicInte
     TiObject *self, Spp::Ast::UserType *astType, Generation *g, Session *session
   );
 
+  /// Check whether the given type is, or has by value at any level, the given user type.
+  private: Bool doesTypeContain(Spp::Ast::Type *astType, Spp::Ast::UserType *astUserType);
+
   public: METHOD_BINDING_CACHE(generateUserTypeAutoConstructor,
     Bool, (Spp::Ast::UserType*, Generation*, Session*)
   );
-- 
2.43.0


From ffe0971636a89be307c31df2af5084354a94f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 30/39] fix: keep compiled code and constants that the program
 can still reach when an interactive session recovers from an error

---
 Sources/Spp/LlvmCodeGen/JitBuildTarget.cpp     | 7 ++++---
 Sources/Spp/LlvmCodeGen/JitBuildTarget.h       | 7 +++++++
 Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp | 7 ++++---
 Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.h   | 7 +++++++
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/Sources/Spp/LlvmCodeGen/JitBuildTarget.cpp b/Sources/Spp/LlvmCodeGen/JitBuildTarget.cpp
index 532051f..2779a11 100644
--- a/Sources/Spp/LlvmCodeGen/JitBuildTarget.cpp
+++ b/Sources/Spp/LlvmCodeGen/JitBuildTarget.cpp
@@ -19,13 +19,14 @@ void JitBuildTarget::setupBuild()
 {
   BuildTarget::setupBuild();
 
-  this->llvmJitEngine.reset();
+  this->llvmModule.reset();
+  if (this->llvmJitEngine != 0) {
+    this->previousBuilds.emplace_back(std::move(this->llvmTsContext), std::move(this->llvmJitEngine));
+  }
 
   this->llvmJitEngine = llvm::cantFail(JitEngineBuilder().create(this->globalItemRepo));
   this->llvmDataLayout = const_cast<llvm::DataLayout*>(&this->llvmJitEngine->getDataLayout());
 
-  this->llvmModule.reset();
-
   this->llvmTsContext = std::make_unique<llvm::orc::ThreadSafeContext>(std::make_unique<llvm::LLVMContext>());
   this->llvmContext = this->llvmTsContext->getContext();
 
diff --git a/Sources/Spp/LlvmCodeGen/JitBuildTarget.h b/Sources/Spp/LlvmCodeGen/JitBuildTarget.h
index 458d032..c96d1c4 100644
--- a/Sources/Spp/LlvmCodeGen/JitBuildTarget.h
+++ b/Sources/Spp/LlvmCodeGen/JitBuildTarget.h
@@ -27,6 +27,12 @@ class JitBuildTarget : public BuildTarget
   //============================================================================
   // Member Variables
 
+  // Code and constants of previous builds can still be referenced by values held by the program (function pointers,
+  // string literals, objects with virtual functions) or can be still running, so we need to keep them.
+  private: std::vector<std::pair<
+    std::unique_ptr<llvm::orc::ThreadSafeContext>, std::unique_ptr<JitEngine>
+  >> previousBuilds;
+
   private: std::unique_ptr<JitEngine> llvmJitEngine;
   private: std::unique_ptr<llvm::orc::ThreadSafeContext> llvmTsContext;
   private: llvm::LLVMContext *llvmContext = 0;
@@ -48,6 +54,7 @@ class JitBuildTarget : public BuildTarget
     this->llvmJitEngine.reset();
     this->llvmModule.reset();
     this->llvmTsContext.reset();
+    this->previousBuilds.clear();
   }
 
 
diff --git a/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp b/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp
index d92cd00..7283cd5 100644
--- a/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp
+++ b/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp
@@ -19,13 +19,14 @@ void LazyJitBuildTarget::setupBuild()
 {
   BuildTarget::setupBuild();
 
-  this->llvmJitEngine.reset();
+  this->llvmModule.reset();
+  if (this->llvmJitEngine != 0) {
+    this->previousBuilds.emplace_back(std::move(this->llvmTsContext), std::move(this->llvmJitEngine));
+  }
 
   this->llvmJitEngine = llvm::cantFail(LazyJitEngineBuilder().setNumCompileThreads(1).create(this->globalItemRepo));
   this->llvmDataLayout = const_cast<llvm::DataLayout*>(&this->llvmJitEngine->getDataLayout());
 
-  this->llvmModule.reset();
-
   this->llvmTsContext = std::make_unique<llvm::orc::ThreadSafeContext>(std::make_unique<llvm::LLVMContext>());
   this->llvmContext = this->llvmTsContext->getContext();
 
diff --git a/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.h b/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.h
index 3b7b3e8..53693e1 100644
--- a/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.h
+++ b/Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.h
@@ -27,6 +27,12 @@ class LazyJitBuildTarget : public BuildTarget
   //============================================================================
   // Member Variables
 
+  // Code and constants of previous builds can still be referenced by values held by the program (function pointers,
+  // string literals, objects with virtual functions) or can be still running, so we need to keep them.
+  private: std::vector<std::pair<
+    std::unique_ptr<llvm::orc::ThreadSafeContext>, std::unique_ptr<LazyJitEngine>
+  >> previousBuilds;
+
   private: std::unique_ptr<LazyJitEngine> llvmJitEngine;
   private: std::unique_ptr<llvm::orc::ThreadSafeContext> llvmTsContext;
   private: llvm::LLVMContext *llvmContext = 0;
@@ -48,6 +54,7 @@ class LazyJitBuildTarget : public BuildTarget
     this->llvmJitEngine.reset();
     this->llvmModule.reset();
     this->llvmTsContext.reset();
+    this->previousBuilds.clear();
   }
 
 
-- 
2.43.0


From 526f9b445c4c67d0ed8b4ade89a9239c1007af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 31/39] fix: restore the state of global variables and of both
 build sessions after errors in interactive mode

---
 Sources/Spp/BuildManager.cpp             | 52 +++++++++++++++---------
 Sources/Spp/BuildManager.h               |  1 +
 Sources/Spp/CodeGen/Generator.cpp        |  1 +
 Sources/Spp/CodeGen/GlobalCtorDtorInfo.h |  1 +
 Sources/Spp/CodeGen/code_gen.h           |  3 +-
 5 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/Sources/Spp/BuildManager.cpp b/Sources/Spp/BuildManager.cpp
index a88786a..dc1d5f1 100644
--- a/Sources/Spp/BuildManager.cpp
+++ b/Sources/Spp/BuildManager.cpp
@@ -145,15 +145,21 @@ SharedPtr<BuildSession> BuildManager::_prepareBuild(TiObject *self, Int buildTyp
     throw EXCEPTION(InvalidArgumentException, S("buildType"), S("Invalid build type"), buildType);
   }
 
-  if (buildSession->getBuildType() != BuildManager::BuildType::OFFLINE && buildMgr->rootManager->isInteractive()) {
+  if (
+    buildSession->getBuildType() != BuildManager::BuildType::OFFLINE && buildMgr->rootManager->isInteractive() &&
+    buildMgr->openExecutionEntries == 0
+  ) {
     // If we are running in an interactive mode and we faced previous errors, we'll try to clear the errors and start
-    // fresh to give the user a chance to correct the errors if possible.
+    // fresh to give the user a chance to correct the errors if possible. We can't do this in the middle of building
+    // another statement since that statement still needs its data, and its errors are not to be forgotten. The errors
+    // can be in any of the two non-offline sessions, regardless of which one we are about to use now.
     auto minSeverity = buildMgr->rootManager->getMinNoticeSeverityEncountered();
     auto thisMinSeverity = buildMgr->rootManager->getNoticeStore()->getMinEncounteredSeverity();
     if ((minSeverity >= 0 && minSeverity <= 1) || (thisMinSeverity >= 0 && thisMinSeverity <= 1)) {
       buildMgr->rootManager->resetMinNoticeSeverityEncountered();
       buildMgr->rootManager->getNoticeStore()->resetMinEncounteredSeverity();
-      buildMgr->resetBuild(buildSession.get());
+      buildMgr->resetBuild(buildMgr->jitBuildSession.get());
+      buildMgr->resetBuild(buildMgr->preprocessBuildSession.get());
     }
   }
 
@@ -169,6 +175,7 @@ void BuildManager::_prepareExecutionEntry(TiObject *self, BuildSession *buildSes
   PREPARE_SELF(buildMgr, BuildManager);
   auto generation = ti_cast<CodeGen::Generation>(buildMgr->generator);
 
+  buildMgr->openExecutionEntries++;
   buildMgr->funcNameIndex++;
   StrStream executionEntryName;
   executionEntryName << S("__entry__") << buildMgr->funcNameIndex;
@@ -207,7 +214,8 @@ Bool BuildManager::_finalizeExecutionEntry(TiObject *self, BuildSession *buildSe
   );
 
   if (!generation->buildDependencies(buildSession->getCodeGenSession())) result = false;
-  
+
+  buildMgr->openExecutionEntries--;
   buildMgr->rootManager->flushNotices();
 
   return result;
@@ -272,23 +280,23 @@ Bool BuildManager::_execute(TiObject *self, BuildSession *buildSession)
   if (ctorBuildSession == 0) ctorBuildSession = buildSession;
 
   if ((minSeverity == -1 || minSeverity > 1) && (thisMinSeverity == -1 || thisMinSeverity > 1)) {
-    // Execute constructors.
-    if (ctorBuildSession->getBuildType() == BuildType::JIT) {
-      for (Int index = 0; index < buildSession->getGlobalCtors()->getLength(); ++index) {
-        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::JitBuildTarget>()->execute(
-          buildSession->getGlobalCtors()->at(index).name
-        );
+    // Execute constructors. Executing a constructor can trigger other builds, so we need to make sure each constructor
+    // is taken off the list before it's executed.
+    auto globalCtors = buildSession->getGlobalCtors().get();
+    while (globalCtors->getLength() > 0) {
+      auto ctor = globalCtors->at(0);
+      globalCtors->remove(0);
+      for (Int i = 0; i < ctor.varDefs.getLength(); ++i) {
+        auto state = ctorBuildSession->getExtraDataAccessor()->getGlobalVarState<TiInt>(ctor.varDefs.at(i).get());
+        state->set(state->get() | CodeGen::GlobalVarState::EXECUTED);
       }
-      buildSession->getGlobalCtors()->clear();
-    } else if (ctorBuildSession->getBuildType() == BuildType::PREPROCESS) {
-      for (Int index = 0; index < buildSession->getGlobalCtors()->getLength(); ++index) {
-        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::LazyJitBuildTarget>()->execute(
-          buildSession->getGlobalCtors()->at(index).name
-        );
+      if (ctorBuildSession->getBuildType() == BuildType::JIT) {
+        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::JitBuildTarget>()->execute(ctor.name);
+      } else if (ctorBuildSession->getBuildType() == BuildType::PREPROCESS) {
+        ctorBuildSession->getBuildTarget().s_cast<LlvmCodeGen::LazyJitBuildTarget>()->execute(ctor.name);
+      } else {
+        throw EXCEPTION(InvalidArgumentException, S("buildSession"), S("Unexpected build type."));
       }
-      buildSession->getGlobalCtors()->clear();
-    } else {
-      throw EXCEPTION(InvalidArgumentException, S("buildSession"), S("Unexpected build type."));
     }
     // Execute the main function.
     if (buildSession->getBuildType() == BuildType::JIT) {
@@ -382,6 +390,8 @@ void BuildManager::_resetBuild(TiObject *self, BuildSession *buildSession)
 
   auto root = buildMgr->rootManager->getRootScope().get();
   buildMgr->resetBuildData(root, buildSession->getExtraDataAccessor().get());
+  // Constructors that didn't get executed are built again when their variables are needed again.
+  buildSession->getGlobalCtors()->clear();
   buildSession->getTargetGenerator()->setupBuild();
   buildSession->setExecutionEntryName(0);
   buildSession->setExecutionEntryTgFunc(TioSharedPtr::null);
@@ -405,6 +415,10 @@ void BuildManager::_resetBuildData(TiObject *self, TiObject *obj, CodeGen::Extra
     eda->removeAutoDtorType(metahaving);
     eda->resetCodeGenFailed(metahaving);
     eda->resetInitStatementsGenIndex(metahaving);
+    auto varState = eda->tryGetGlobalVarState<TiInt>(metahaving);
+    if (varState != 0 && (varState->get() & CodeGen::GlobalVarState::EXECUTED) == 0) {
+      eda->removeGlobalVarState(metahaving);
+    }
   }
 
   if (obj->isDerivedFrom<Core::Data::Ast::Passage>()) return;
diff --git a/Sources/Spp/BuildManager.h b/Sources/Spp/BuildManager.h
index d48118c..e26abb3 100644
--- a/Sources/Spp/BuildManager.h
+++ b/Sources/Spp/BuildManager.h
@@ -53,6 +53,7 @@ class BuildManager : public TiObject, public DynamicBinding, public DynamicInter
   private: SharedPtr<BuildSession> preprocessBuildSession;
 
   private: Int funcNameIndex = 0;
+  private: Int openExecutionEntries = 0;
 
 
   //============================================================================
diff --git a/Sources/Spp/CodeGen/Generator.cpp b/Sources/Spp/CodeGen/Generator.cpp
index a19c177..98bfa7f 100644
--- a/Sources/Spp/CodeGen/Generator.cpp
+++ b/Sources/Spp/CodeGen/Generator.cpp
@@ -1216,6 +1216,7 @@ Bool Generator::_buildDependencies(TiObject *self, Session *session)
         Str name = S("!");
         name += generator->getAstHelper()->resolveNodePath(varAstNode->getOwner());
         ctorInfo.varNames.add(name);
+        ctorInfo.varDefs.add(getSharedPtr(varAstNode->getOwner()));
 
         return true;
       }
diff --git a/Sources/Spp/CodeGen/GlobalCtorDtorInfo.h b/Sources/Spp/CodeGen/GlobalCtorDtorInfo.h
index c297422..8c20be4 100644
--- a/Sources/Spp/CodeGen/GlobalCtorDtorInfo.h
+++ b/Sources/Spp/CodeGen/GlobalCtorDtorInfo.h
@@ -20,6 +20,7 @@ struct GlobalCtorDtorInfo
 {
   public: Str name;
   public: Array<Str> varNames;
+  public: Array<SharedPtr<Core::Data::Node>> varDefs;
   GlobalCtorDtorInfo() {}
   GlobalCtorDtorInfo(Str const &n): name(n) {}
 };
diff --git a/Sources/Spp/CodeGen/code_gen.h b/Sources/Spp/CodeGen/code_gen.h
index 58b4bd6..26348e9 100644
--- a/Sources/Spp/CodeGen/code_gen.h
+++ b/Sources/Spp/CodeGen/code_gen.h
@@ -46,7 +46,8 @@ s_enum(GlobalVarState,
   INITIALIZING = 1,
   INITIALIZED = 2,
   TERMINATING = 4,
-  TERMINATED = 8
+  TERMINATED = 8,
+  EXECUTED = 16
 );
 
 
-- 
2.43.0


From bfb6e97fb8fc695430024feae206d0195db60a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 32/39] fix: run the statements of modules exactly once in
 interactive mode, whatever fails in between

---
 Sources/Spp/RootScopeHandlerExtension.cpp | 38 ++++++++++++++++++++++-
 Sources/Spp/RootScopeHandlerExtension.h   |  3 ++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/RootScopeHandlerExtension.cpp b/Sources/Spp/RootScopeHandlerExtension.cpp
index 9c498b8..e7b6e4d 100644
--- a/Sources/Spp/RootScopeHandlerExtension.cpp
+++ b/Sources/Spp/RootScopeHandlerExtension.cpp
@@ -75,13 +75,23 @@ void RootScopeHandlerExtension::_addNewElement(
 
     auto executing = ti_cast<Executing>(rootManagerExt->buildManager.get());
 
+    // In interactive mode the initializations of modules are executed on their own so that errors in them don't block
+    // the statements entered afterwards.
+    if (rootManager->isInteractive()) {
+      for (Int i = 0; i < root->getCount(); ++i) {
+        auto def = ti_cast<Core::Data::Ast::Definition>(root->get(i));
+        auto module = def == 0 ? SharedPtr<Spp::Ast::Module>() : def->getTarget().ti_cast<Spp::Ast::Module>();
+        if (module != 0) RootScopeHandlerExtension::executeModuleInit(module, executing.get());
+      }
+    }
+
     SharedPtr<BuildSession> buildSession = executing->prepareBuild(BuildManager::BuildType::JIT, 0);
     executing->prepareExecutionEntry(buildSession.get());
 
     Bool execute = true;
 
     // First, let's run all the modules initializations.
-    for (Int i = 0; i < start; ++i) {
+    for (Int i = 0; i < start && !rootManager->isInteractive(); ++i) {
       auto def = ti_cast<Core::Data::Ast::Definition>(root->get(i));
       if (def != 0) {
         auto module = def->getTarget().ti_cast_get<Spp::Ast::Module>();
@@ -96,6 +106,10 @@ void RootScopeHandlerExtension::_addNewElement(
       auto childData = root->getElement(i);
       if (CodeGen::isExecuted(childData)) continue;
       CodeGen::setExecuted(childData, true);
+      if (rootManager->isInteractive() && childData->isDerivedFrom<Core::Data::Ast::Definition>()) {
+        auto target = static_cast<Core::Data::Ast::Definition*>(childData)->getTarget().get();
+        if (target != 0 && target->isDerivedFrom<Spp::Ast::Module>()) continue;
+      }
       if (!executing->addElementToExecutionEntry(childData, buildSession.get())) execute = false;
     }
 
@@ -107,4 +121,26 @@ void RootScopeHandlerExtension::_addNewElement(
   }
 }
 
+
+void RootScopeHandlerExtension::executeModuleInit(SharedPtr<Spp::Ast::Module> const &module, Executing *executing)
+{
+  for (Int i = 0; i < module->getCount(); ++i) {
+    auto obj = module->getElement(i);
+    if (obj == 0) continue;
+    auto def = ti_cast<Core::Data::Ast::Definition>(obj);
+    if (def != 0) {
+      auto innerModule = def->getTarget().ti_cast<Spp::Ast::Module>();
+      if (innerModule != 0) RootScopeHandlerExtension::executeModuleInit(innerModule, executing);
+      continue;
+    }
+    if (CodeGen::isExecuted(obj)) continue;
+    CodeGen::setExecuted(obj, true);
+    SharedPtr<BuildSession> buildSession = executing->prepareBuild(BuildManager::BuildType::JIT, 0);
+    executing->prepareExecutionEntry(buildSession.get());
+    auto result = executing->addElementToExecutionEntry(obj, buildSession.get());
+    if (!executing->finalizeExecutionEntry(buildSession.get())) result = false;
+    if (result) executing->execute(buildSession.get());
+  }
+}
+
 } // namespace
diff --git a/Sources/Spp/RootScopeHandlerExtension.h b/Sources/Spp/RootScopeHandlerExtension.h
index c2b6873..9b17c1f 100644
--- a/Sources/Spp/RootScopeHandlerExtension.h
+++ b/Sources/Spp/RootScopeHandlerExtension.h
@@ -92,6 +92,9 @@ class RootScopeHandlerExtension : public ObjTiInterface
     Core::Processing::Parser *parser, Core::Processing::ParserState *state
   );
 
+  /// Execute the statements of the given module that were not executed yet, each on its own.
+  private: static void executeModuleInit(SharedPtr<Spp::Ast::Module> const &module, Executing *executing);
+
   /// @}
 
 }; // class
-- 
2.43.0


From de8ead7fd22ee1dfc3ab2e457b1271715f2bd506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 33/39] fix: treat message catalogue entries without text as
 missing

---
 Sources/Core/Notices/L18nDictionary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sources/Core/Notices/L18nDictionary.cpp b/Sources/Core/Notices/L18nDictionary.cpp
index aa9da72..88a6dbf 100644
--- a/Sources/Core/Notices/L18nDictionary.cpp
+++ b/Sources/Core/Notices/L18nDictionary.cpp
@@ -37,7 +37,8 @@ void L18nDictionary::initialize(Char const *locale, Char const *l18nPath)
     std::string line;
     while (std::getline(fin, line)) {
       Int pos = line.find(C(':'));
-      if (pos != -1) {
+      // Entries without text are treated as missing, so that the default text is used.
+      if (pos != -1 && pos + 1 < line.size()) {
         Str key(line.c_str(), pos);
         auto value = TiStr::create(Str(line.c_str() + pos + 1).replace("\\n", "\n"));
         this->dictionary.add(key, value);
-- 
2.43.0


From 7fd712786484d24df9cca6f4d953b5963a20aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 34/39] fix: construct and destroy a module's own global
 variables in its object file

---
 Sources/Spp/BuildManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sources/Spp/BuildManager.cpp b/Sources/Spp/BuildManager.cpp
index dc1d5f1..0da13f5 100644
--- a/Sources/Spp/BuildManager.cpp
+++ b/Sources/Spp/BuildManager.cpp
@@ -239,6 +239,9 @@ Bool BuildManager::_addElementToBuild(TiObject *self, TiObject *element, BuildSe
     throw EXCEPTION(InvalidArgumentException, S("element"), S("Invalid element type."));
   }
 
+  // Build the constructors and destructors of the element's own global variables.
+  if (!generation->buildDependencies(buildSession->getCodeGenSession())) result = false;
+
   buildMgr->rootManager->flushNotices();
   return result;
 }
-- 
2.43.0


From 6b26920c6ad0fe8aff34e093d6b9ada71618bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 35/39] fix: report failures to write an object file instead of
 aborting

---
 Sources/Spp/BuildManager.cpp                   | 11 ++++++++---
 Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp | 11 +++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/Sources/Spp/BuildManager.cpp b/Sources/Spp/BuildManager.cpp
index 0da13f5..790e979 100644
--- a/Sources/Spp/BuildManager.cpp
+++ b/Sources/Spp/BuildManager.cpp
@@ -376,9 +376,14 @@ Bool BuildManager::_buildObjectFileForElement(
   if (result) {
     Array<Str> globalCtorNames = BuildManager::getGlobalCtorNames(buildSession.get());
     Array<Str> globalDtorNames = BuildManager::getGlobalDtorNames(buildSession.get());
-    buildSession->getBuildTarget().s_cast<LlvmCodeGen::OfflineBuildTarget>()->generateObjectFile(
-      objectFilename, &globalCtorNames, &globalDtorNames
-    );
+    try {
+      buildSession->getBuildTarget().s_cast<LlvmCodeGen::OfflineBuildTarget>()->generateObjectFile(
+        objectFilename, &globalCtorNames, &globalDtorNames
+      );
+    } catch (FileException &e) {
+      outStream << e.getErrorMessage() << NEW_LINE;
+      result = false;
+    }
   }
 
   buildMgr->resetBuild(buildSession.get());
diff --git a/Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp b/Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp
index e03fed1..6620960 100644
--- a/Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp
+++ b/Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp
@@ -113,7 +113,7 @@ void OfflineBuildTarget::generateObjectFile(
   llvm::raw_fd_ostream dest(filename, ec, llvm::sys::fs::F_None);
 
   if (ec) {
-    throw EXCEPTION(FileException, ec.message().c_str(), C('w'));
+    throw EXCEPTION(FileException, filename, C('o'), ec.message().c_str());
   }
 
   llvm::legacy::PassManager pass;
@@ -124,7 +124,14 @@ void OfflineBuildTarget::generateObjectFile(
   }
 
   pass.run(*this->llvmModule);
-  dest.flush();
+
+  // Writing can fail as late as when the file is closed. LLVM aborts if an error is left in the stream.
+  dest.close();
+  if (dest.has_error()) {
+    ec = dest.error();
+    dest.clear_error();
+    throw EXCEPTION(FileException, filename, C('w'), ec.message().c_str());
+  }
 }
 
 
-- 
2.43.0


From a0857587d3dddcc23b84022ca6f26a565bdc0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 36/39] fix: errors found while processing macros and
 preprocess statements of root were not reported

---
 Sources/Spp/RootScopeHandlerExtension.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/RootScopeHandlerExtension.cpp b/Sources/Spp/RootScopeHandlerExtension.cpp
index e7b6e4d..7069298 100644
--- a/Sources/Spp/RootScopeHandlerExtension.cpp
+++ b/Sources/Spp/RootScopeHandlerExtension.cpp
@@ -71,7 +71,10 @@ void RootScopeHandlerExtension::_addNewElement(
 
     // Process macros.
     auto astProcessor = rootManagerExt->astProcessor.get();
-    if (!astProcessor->process(root)) return;
+    if (!astProcessor->process(root)) {
+      rootManager->flushNotices();
+      return;
+    }
 
     auto executing = ti_cast<Executing>(rootManagerExt->buildManager.get());
 
-- 
2.43.0


From f1c8fd5efa9e970cb94cb89021094ca6e38ba98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 37/39] fix: use statements and aliases of expressions that
 refer to nothing ended the compiler with an internal exception

---
 Sources/Core/Data/Seeker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sources/Core/Data/Seeker.cpp b/Sources/Core/Data/Seeker.cpp
index 31e2d58..d12d1d8 100644
--- a/Sources/Core/Data/Seeker.cpp
+++ b/Sources/Core/Data/Seeker.cpp
@@ -512,7 +512,8 @@ Seeker::Verb Seeker::_foreach(
   } else if (ref->isA<Ast::LinkOperator>()) {
     return seeker->foreach_linkOperator(static_cast<Ast::LinkOperator const*>(ref), target, cb, flags);
   } else {
-    throw EXCEPTION(InvalidArgumentException, S("ref"), S("Unrecognized reference type."));
+    // Expressions of other types don't refer to anything.
+    return Verb::MOVE;
   }
 }
 
-- 
2.43.0


From 94a01d765da2e50ef9bdfb4c272afde441b9c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 38/39] fix: preprocess statements that fail or evaluate to
 nothing crashed the compiler

---
 Sources/Spp/CodeGen/AstProcessor.cpp        | 65 ++++++++++++++-------
 Sources/Spp/CodeGen/AstProcessor.h          |  4 +-
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 14 +++--
 3 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 908b718..b090759 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -109,8 +109,8 @@ Bool AstProcessor::_process(TiObject *self, TiObject *owner)
         if (!astProcessor->process(child)) result = false;
       }
     } else if (child->isDerivedFrom<Ast::PreprocessStatement>()) {
-      if (astProcessor->processPreprocessStatement(static_cast<Ast::PreprocessStatement*>(child), owner, i)) --i;
-      else result = false;
+      if (!astProcessor->processPreprocessStatement(static_cast<Ast::PreprocessStatement*>(child), owner, i)) result = false;
+      --i;
     } else {
       if (!astProcessor->process(child)) result = false;
     }
@@ -199,31 +199,32 @@ Bool AstProcessor::_processPreprocessStatement(
 ) {
   PREPARE_SELF(astProcessor, AstProcessor);
 
-  if (!astProcessor->process(preprocess->getBody().get())) return false;
+  Bool result = astProcessor->process(preprocess->getBody().get());
 
   // Capture a shared pointer to avoid segfault in case a dependency processes the same statement, or in case
   // elements from this preprocess statement are in use elsewhere, like in templates.
   astProcessor->astNodeRepo->addElement(preprocess);
 
-  Bool result = true;
-
   // Build the preprocess statement.
-  auto buildSession = astProcessor->executing->prepareBuild(BuildManager::BuildType::PREPROCESS, 0);
-  astProcessor->executing->prepareExecutionEntry(buildSession.get());
-
-  auto block = preprocess->getBody().ti_cast_get<Ast::Block>();
-  if (block != 0) {
-    for (Int i = 0; i < block->getElementCount(); ++i) {
-      auto childData = block->getElement(i);
-      if (!astProcessor->executing->addElementToExecutionEntry(childData, buildSession.get())) result = false;
-    }
-  } else {
+  SharedPtr<BuildSession> buildSession;
+  if (result) {
+    buildSession = astProcessor->executing->prepareBuild(BuildManager::BuildType::PREPROCESS, 0);
+    astProcessor->executing->prepareExecutionEntry(buildSession.get());
+
+    auto block = preprocess->getBody().ti_cast_get<Ast::Block>();
+    if (block != 0) {
+      for (Int i = 0; i < block->getElementCount(); ++i) {
+        auto childData = block->getElement(i);
+        if (!astProcessor->executing->addElementToExecutionEntry(childData, buildSession.get())) result = false;
+      }
+    } else {
       if (!astProcessor->executing->addElementToExecutionEntry(preprocess->getBody().get(), buildSession.get())) {
         result = false;
       }
-  }
+    }
 
-  astProcessor->executing->finalizeExecutionEntry(buildSession.get());
+    astProcessor->executing->finalizeExecutionEntry(buildSession.get());
+  }
 
   TiObject *prevPreprocessOwner = astProcessor->currentPreprocessOwner;
   Int prevPreprocessInsertionPosition = astProcessor->currentPreprocessInsertionPosition;
@@ -233,7 +234,7 @@ Bool AstProcessor::_processPreprocessStatement(
   astProcessor->currentPreprocessInsertionPosition = indexInOwner;
   astProcessor->currentPreprocessSourceLocation = preprocess->findSourceLocation();
 
-  // Remove the preprocess statement.
+  // Remove the preprocess statement, even when it's invalid, so it's not processed again with the next statement.
   DynamicContaining<TiObject> *dynContainer;
   DynamicMapContaining<TiObject> *dynMapContainer;
   Containing<TiObject> *container;
@@ -252,6 +253,26 @@ Bool AstProcessor::_processPreprocessStatement(
     astProcessor->executing->execute(buildSession.get());
   }
 
+  // Only some of the constructs can do without the operand that this statement evaluates to.
+  if (
+    dynContainer == 0 && dynMapContainer == 0 && container->getElement(indexInOwner) == 0 &&
+    !owner->isDerivedFrom<Core::Data::Ast::InfixOperator>() && !owner->isDerivedFrom<Core::Data::Ast::OutfixOperator>() &&
+    !owner->isDerivedFrom<Core::Data::Ast::ParamPass>() && !owner->isDerivedFrom<Core::Data::Ast::Bracket>() &&
+    !owner->isDerivedFrom<Ast::ReturnStatement>()
+  ) {
+    if (result) {
+      astProcessor->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidOperationNotice>(preprocess->findSourceLocation())
+      );
+      result = false;
+    }
+    // The other constructs expect to find something, so leave them a reference to nothing.
+    container->setElement(indexInOwner, Core::Data::Ast::Identifier::create({
+      { S("value"), TiStr() },
+      { S("sourceLocation"), preprocess->findSourceLocation().get() }
+    }).get());
+  }
+
   astProcessor->currentPreprocessOwner = prevPreprocessOwner;
   astProcessor->currentPreprocessInsertionPosition = prevPreprocessInsertionPosition;
   astProcessor->currentPreprocessSourceLocation = prevPreprocessSourceLocation;
@@ -390,6 +411,8 @@ Bool AstProcessor::_insertInterpolatedAst(
   TiObject *self, TiObject *obj, Array<Str> const *argNames, Containing<TiObject> *args
 ) {
   PREPARE_SELF(astProcessor, AstProcessor);
+  // There is nowhere to insert the AST outside of preprocess statements.
+  if (astProcessor->currentPreprocessOwner == 0) return false;
   TioSharedPtr result;
   if (!astProcessor->interpolateAst(obj, argNames, args, astProcessor->currentPreprocessSourceLocation.get(), result)) {
     return false;
@@ -416,8 +439,10 @@ Bool AstProcessor::_insertInterpolatedAst(
     if (ownerContainer == 0) {
       throw EXCEPTION(GenericException, S("Unexpected AST insert location."));
     }
-    auto insertedScope = result.s_cast_get<Core::Data::Ast::Scope>();
-    if (insertedScope != 0 && insertedScope->getCount() == 1) {
+    auto insertedScope = result.ti_cast_get<Core::Data::Ast::Scope>();
+    if (insertedScope != 0 && insertedScope->getCount() == 0) {
+      ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, 0);
+    } else if (insertedScope != 0 && insertedScope->getCount() == 1) {
       ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, insertedScope->getElement(0));
     } else {
       ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, result.get());
diff --git a/Sources/Spp/CodeGen/AstProcessor.h b/Sources/Spp/CodeGen/AstProcessor.h
index 1708a56..bef276f 100644
--- a/Sources/Spp/CodeGen/AstProcessor.h
+++ b/Sources/Spp/CodeGen/AstProcessor.h
@@ -41,8 +41,8 @@ class AstProcessor : public TiObject, public DynamicBinding, public DynamicInter
   private: Executing *executing;
   private: ExpressionComputation *expressionComputation;
   private: SharedList<TiObject> *astNodeRepo;
-  private: TiObject *currentPreprocessOwner;
-  private: Int currentPreprocessInsertionPosition;
+  private: TiObject *currentPreprocessOwner = 0;
+  private: Int currentPreprocessInsertionPosition = -1;
   private: SharedPtr<Core::Data::SourceLocation> currentPreprocessSourceLocation;
 
 
diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index eaca817..8e176fa 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -2522,8 +2522,11 @@ Bool ExpressionGenerator::_generateVarReference(
       // It should already be generated at this point.
       tgVar = session->getEda()->tryGetCodeGenData<TiObject>(varAstNode);
       if (tgVar == 0) {
-        // A non-generated temp var is a bug, rather than a user error.
-        throw EXCEPTION(GenericException, S("Unexpected error while looking for variable definition."));
+        // This can be a function argument that is used inside a preprocess statement.
+        expGenerator->astHelper->getNoticeStore()->add(newSrdObj<Spp::Notices::UninitializedVariableNotice>(
+          Core::Data::Ast::findSourceLocation(refAstNode)
+        ));
+        return false;
       }
     } else if (expGenerator->getAstHelper()->getVariableDomain(varDef) == Ast::DefinitionDomain::GLOBAL) {
       // This is a global variable. Let's make sure it's generated, and generate it if not.
@@ -2878,8 +2881,11 @@ Bool ExpressionGenerator::_prepareCalleeLookupRequest(
     // Generate the object reference.
     auto linkOperator = static_cast<Core::Data::Ast::LinkOperator*>(operand);
     auto first = linkOperator->getFirst().get();
-    if (first == 0) {
-      throw EXCEPTION(GenericException, S("First AST element missing from link operator."));
+    if (first == 0 || linkOperator->getSecond() == 0) {
+      expGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::IncompleteInfixOpNotice>(linkOperator->findSourceLocation())
+      );
+      return false;
     }
     if (!expGenerator->generate(first, g, session, prevResult, terminal)) return false;
     if (terminal == TerminalStatement::YES) {
-- 
2.43.0


From 8906ba108919bc4953048651c7565127dec2700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 39/39] fix: shared variables defined inside if, while and for
 blocks of a function are shared

---
 Sources/Spp/Ast/Helper.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sources/Spp/Ast/Helper.cpp b/Sources/Spp/Ast/Helper.cpp
index 80eee76..1e00958 100644
--- a/Sources/Spp/Ast/Helper.cpp
+++ b/Sources/Spp/Ast/Helper.cpp
@@ -846,12 +846,12 @@ DefinitionDomain Helper::_getVariableDomain(TiObject *self, TiObject const *obj)
       return helper->isSharedDef(def) ? DefinitionDomain::GLOBAL : DefinitionDomain::FUNCTION;
     } else if (owner->isDerivedFrom<PreprocessStatement>()) {
       return DefinitionDomain::FUNCTION;
-    } else if (owner->isDerivedFrom<WhileStatement>()) {
-      return DefinitionDomain::FUNCTION;
-    } else if (owner->isDerivedFrom<ForStatement>()) {
-      return DefinitionDomain::FUNCTION;
-    } else if (owner->isDerivedFrom<IfStatement>()) {
-      return DefinitionDomain::FUNCTION;
+    } else if (
+      owner->isDerivedFrom<WhileStatement>() || owner->isDerivedFrom<ForStatement>() ||
+      owner->isDerivedFrom<IfStatement>()
+    ) {
+      PREPARE_SELF(helper, Helper);
+      return helper->isSharedDef(def) ? DefinitionDomain::GLOBAL : DefinitionDomain::FUNCTION;
     } else if (owner->isDerivedFrom<Block>()) {
       if (
         owner->getOwner()->isDerivedFrom<UseInOp>() || owner->getOwner()->isDerivedFrom<Core::Data::Ast::LinkOperator>()
-- 
2.43.0

