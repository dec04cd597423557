From b243822d05bbe32c78915a4ef2450881b021f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/51] fix: File::Read reads past its unterminated buffer and
 hides read errors

The buffer had no terminating zero (and is null for an empty file), a read
error gave an empty text, and after end of file had been reached the size
was -1. Read the exact bytes, report failures and keep the end-of-file flag.
---
 include/Caitlyn/__Core/File/File.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..b5fbbaa 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -121,16 +121,23 @@ public:
         {
             Open();
         }
+        const bool eof = file_.eof();
+        file_.clear();
         file_.seekg(0, std::ios::end);
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
 
-        std::vector<char> buffer(size);
-        if (file_.read(buffer.data(), size))
+        std::vector<char> buffer(size < 0 ? 0 : size);
+        if (size < 0 || !file_.read(buffer.data(), size))
+        {
+            file_.clear();
+            throw std::ios_base::failure{"Failed to read the file."};
+        }
+        if (eof)
         {
-            return buffer.data();
+            file_.setstate(std::ios::eofbit);
         }
-        return {};
+        return std::basic_string<char>(buffer.begin(), buffer.end());
     }
 
     String ReadLine(const char delim = Def::LineFeed[0])
-- 
2.43.0


From 3bd74430c208426dffd718135b3a3d24e78c7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 02/51] fix: File writes are lost silently after end of file or
 a failed write

Once ReadLine had met the end of the file, or one write had failed, every
later Write/Append did nothing; and a failing write (full disk, I/O error)
looked like a successful one. Clear the stream state before writing and
throw when the text could not be handed over.
---
 include/Caitlyn/__Core/File/File.h | 183 +++++++++++------------------
 1 file changed, 66 insertions(+), 117 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index b5fbbaa..8b33757 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -182,270 +182,219 @@ public:
 
     void Write(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     void Write(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data.to_string();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data.str();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data.ToString();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
     void Write(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        FinishWrite();
     }
 
     void WriteLine(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     void WriteLine(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
     void WriteLine(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     void Append(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     void Append(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
     void Append(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        FinishWrite();
     }
 
     void AppendLine(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     void AppendLine(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
     void AppendLine(const String& str, Args&&... args)
+    {
+        PrepareWrite();
+        file_.seekp(0, std::ios::end);
+        file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
+        FinishWrite();
+    }
+
+private:
+    void PrepareWrite()
     {
         if (!file_.is_open())
         {
             Open();
         }
-        file_.seekp(0, std::ios::end);
-        file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
+        // A reader that met the end of the file or an earlier failure must not disable writing
+        file_.clear();
+    }
+
+    void FinishWrite()
+    {
         file_.flush();
+        if (file_.fail())
+        {
+            file_.clear();
+            throw std::ios_base::failure{"Failed to write to the file."};
+        }
     }
 
 private:
-- 
2.43.0


From 06530801bf49d5683782a9ecf10bc09245d75ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 03/51] fix: File::ReadLine loses its position at end of file
 and after errors

At end of file the position became -1, so reading after reopening threw.
After a read error every further ReadLine threw. If memory ran out the line
was shortened silently or skipped. Keep the position at the end of the data,
and advance it only when the line has been built.
---
 include/Caitlyn/__Core/File/File.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 8b33757..67639c7 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -157,27 +157,33 @@ public:
         file_.clear();
         file_.seekg(currentPosition_, std::ios::beg);
 
-        std::ostringstream result;
+        std::basic_string<char> result;
         char ch;
         while (file_.get(ch))
         {
             if (ch == delim)
             {
+                String line{result};
                 currentPosition_ = file_.tellg();
-                return result.str();
+                return line;
             }
-            result << ch;
+            result += ch;
         }
         if (file_.eof())
         {
+            file_.clear();
+            String line{result};
             currentPosition_ = file_.tellg();
-            return result.str();
+            file_.setstate(std::ios::eofbit);
+            return line;
         }
         if (file_.fail() || file_.bad())
         {
+            // Nothing was consumed: the same line can be read again
+            file_.clear();
             throw std::ios_base::failure{"Stream failed while reading."};
         }
-        return result.str();
+        return result;
     }
 
     void Write(const char* data)
-- 
2.43.0


From 6eb0756455a8c9b8fd7e89e3265a56cb122a01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 04/51] fix: File::Erase keeps reading at the position of the
 erased contents

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 67639c7..cbbd9c1 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -83,6 +83,7 @@ public:
         {
             throw std::ios_base::failure{"Failed to open file for clearing."};
         }
+        currentPosition_ = 0;
         clearFile.close();
         Open();
     }
-- 
2.43.0


From b46f6b3532b9a5df030e1269f7fc4a79db56d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 05/51] fix: File::Open on an open file disables the handle

Opening an open stream fails and leaves it in the failed state while the
file still counts as open.
---
 include/Caitlyn/__Core/File/File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index cbbd9c1..6dbb143 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -60,6 +60,10 @@ public:
         {
             throw std::ios_base::failure{"Filename is empty"};
         }
+        if (file_.is_open())
+        {
+            return;
+        }
         file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
         if (!file_.is_open())
         {
-- 
2.43.0


From 5b6c95f347ca71b9f62da2cc55c0d94076eb3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 06/51] fix: File::SetPosition keeps a position it could not
 set

---
 include/Caitlyn/__Core/File/File.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 6dbb143..8f6ae9d 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -104,13 +104,14 @@ public:
 
     void SetPosition(const std::streampos& position)
     {
-        currentPosition_ = position;
         file_.clear();
-        file_.seekg(currentPosition_, std::ios::beg);
+        file_.seekg(position, std::ios::beg);
         if (file_.fail())
         {
+            file_.clear();
             throw std::ios_base::failure{"Failed to set position in the file."};
         }
+        currentPosition_ = position;
     }
 
     std::streampos GetPosition() const
-- 
2.43.0


From 5809ebc4cb05a165aef46ca5cd09a54df92a6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 07/51] fix: String reads past the end of a text that stops
 inside a UTF-8 character

---
 include/Caitlyn/__Core/String/String.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..3e217d3 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,6 +999,14 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
+        // Do not read past the end of a text that stops inside a character
+        for (SizeType i = 1; i < len; ++i)
+        {
+            if (cstr[i] == '\0')
+            {
+                throw std::runtime_error("Invalid UTF-8 sequence");
+            }
+        }
         return CharType{BasicString(cstr, len)};
     }
 
-- 
2.43.0


From 7203c92f96606ba931d32a41b557de6c9709fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 08/51] fix: exhausted memory silently shortens converted and
 formatted texts

---
 include/Caitlyn/__Core/Char/Char.h      | 1 +
 include/Caitlyn/__Core/String/String.h  | 8 +++++---
 include/Caitlyn/__Core/String/Utility.h | 3 +++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..bfe3fba 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -210,6 +210,7 @@ private:
             return DataType{static_cast<char>(codePoint)};
         }
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit);
 
         if (length == 2)
         {
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 3e217d3..9550524 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -472,13 +472,13 @@ public:
 
     std::basic_string<char> str() const
     {
-        std::ostringstream oss;
+        std::basic_string<char> result;
 
         for (const auto& elem : data_)
         {
-            oss << elem.data();
+            result += elem.data();
         }
-        return oss.str();
+        return result;
     }
 
     // Insert method
@@ -565,6 +565,7 @@ public:
         const std::vector<String> arguments{Formatter::ToString(std::forward<Args>(args))...};
 
         std::ostringstream result;
+        result.exceptions(std::ios_base::badbit); // Report exhausted memory instead of shortening the text
         SizeType auto_index = 0;
         SizeType pos = 0;
 
@@ -910,6 +911,7 @@ private:
         static String ProcessFloating(const String& value, const FormatSpecifier& spec)
         {
             std::ostringstream oss;
+            oss.exceptions(std::ios_base::badbit);
             const auto dot_index = value.Find(Def::FullStop);
 
             if (dot_index != NPosition)
diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..7fa8f3c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -30,6 +30,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 inline std::vector<std::string> Split(const std::string& text, const char delim)
 {
     std::stringstream ss{text};
+    ss.exceptions(std::ios_base::badbit); // Report exhausted memory instead of dropping items
     std::string item;
     std::vector<std::string> data;
 
@@ -47,6 +48,7 @@ inline std::string Repeat(const std::string& str, const size_t count)
         return str;
     }
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     for (size_t i = 0; i < count; ++i)
     {
         ss << str;
@@ -57,6 +59,7 @@ inline std::string Repeat(const std::string& str, const size_t count)
 inline String EscapeString(const String& str)
 {
     std::ostringstream oss;
+    oss.exceptions(std::ios_base::badbit);
 
     for (size_t i = 0; i < str.size(); ++i)
     {
-- 
2.43.0


From b499881c37f92ee199a721bd96eee4f91affbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 09/51] fix: StringBuilder drops text when memory runs out and
 overwrites the text of a copy

---
 include/Caitlyn/__Core/String/StringBuilder.h | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..1416d6a 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -25,33 +25,29 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 class StringBuilder
 {
 public:
-    using data_type = std::ostringstream;
+    using data_type = std::basic_string<char>;
 
 public:
     StringBuilder() = default;
 
-    StringBuilder(const char str)
+    StringBuilder(const char str) : data_(1, str)
     {
-        data_ << str;
     }
 
-    StringBuilder(const char* str)
+    StringBuilder(const char* str) : data_{str}
     {
-        data_ << str;
     }
 
-    StringBuilder(const String& str)
+    StringBuilder(const String& str) : data_{str.str()}
     {
-        data_ << str;
     }
 
     template <typename... Args>
-    StringBuilder(const String& str, Args&&... args)
+    StringBuilder(const String& str, Args&&... args) : data_{String::Format(str, std::forward<Args>(args)...).str()}
     {
-        data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other) : data_{other.data_}
     {
     }
 
@@ -62,30 +58,30 @@ public:
 public:
     void Append(const String& str)
     {
-        data_ << str;
+        data_ += str.str();
     }
 
     template <typename... Args>
     void Append(const String& str, Args&&... args)
     {
-        data_ << String::Format(str, std::forward<Args>(args)...);
+        data_ += String::Format(str, std::forward<Args>(args)...).str();
     }
 
     void AppendLine(const String& str)
     {
-        data_ << str << Def::LineFeed;
+        data_ += str.str() + Def::LineFeed;
     }
 
     template <typename... Args>
     void AppendLine(const String& str, Args&&... args)
     {
-        data_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
+        data_ += String::Format(str, std::forward<Args>(args)...).str() + Def::LineFeed;
     }
 
 public:
     String str() const
     {
-        return data_.str();
+        return data_;
     }
 
 private:
-- 
2.43.0


From a9d80da9e03ebb35d4ce8428ceba0d77e8a9ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 10/51] fix: InputStream::ReadChar indexes an empty line

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..be90dca 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.NotEmpty() ? line[0] : Char{};
     }
 
     template <typename... Args>
-- 
2.43.0


From 98589d309795c05dd7067744e2682f3726703008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 11/51] fix: File::Open leaves an unusable open stream when
 memory runs out

---
 include/Caitlyn/__Core/File/File.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 8f6ae9d..5630961 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -64,7 +64,16 @@ public:
         {
             return;
         }
-        file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
+        try
+        {
+            file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
+        }
+        catch (...)
+        {
+            // Memory for the buffer ran out after the file was opened: such a stream cannot be used
+            file_.close();
+            throw;
+        }
         if (!file_.is_open())
         {
             throw std::ios_base::failure{"Failed to open file for writing."};
-- 
2.43.0


From 049e4f8ff274772b38e6d15156d570b5b03585c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 12/51] fix: FindLastNonSpace misses the first character and
 wraps on an empty text

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 7fa8f3c..78a5136 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -169,11 +169,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From 78109b454e54fa21ad84f21f497b05d625447c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 13/51] fix: JSON parser reads past the end of an unfinished
 text

---
 .../__Serializing/Json/Types/JsonParser.h     | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..1d144ae 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -42,7 +42,7 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
-        if (json[first] != Def::LeftCurlyBracket)
+        if (first == json.size() || json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
             parser.SetErrorPosition(first);
@@ -127,12 +127,12 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightCurlyBracket)
+            if (IsAt(Def::RightCurlyBracket))
             {
                 Next();
                 return result;
             }
-            if (json_[position_] == Def::QuotationMark)
+            if (IsAt(Def::QuotationMark))
             {
                 Next();
                 const auto key_end = json_.Find(Def::QuotationMark, position_);
@@ -147,7 +147,7 @@ private:
                 position_ = key_end + 1;
 
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!IsAt(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -158,19 +158,19 @@ private:
                 result[key] = ParseValue();
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (IsAt(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (IsAt(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (IsAt(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -204,7 +204,7 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightSquareBracket)
+            if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -213,19 +213,19 @@ private:
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (IsAt(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (IsAt(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -270,7 +270,7 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                if (json_[position_] == Def::QuotationMark)
+                if (IsAt(Def::QuotationMark))
                 {
                     escaped_stream << Def::QuotationMark;
                 }
@@ -334,7 +334,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (IsAt(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -410,6 +410,11 @@ private:
         }
     }
 
+    bool IsAt(const Char& value) const
+    {
+        return position_ < json_.size() && json_[position_] == value;
+    }
+
     void Next(const SizeType count = 1)
     {
         position_ += count;
-- 
2.43.0


From d0a824c1cc615bde3c38aad1c78dd858c9932478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 14/51] fix: JSON parser accepts a document followed by other
 text

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 1d144ae..c5853d6 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -55,6 +55,13 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
-- 
2.43.0


From bf2d3e55dd66a4ebbfd90b08d7b6bf508764f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 15/51] fix: JSON parser misreads true, false and null after a
 non-ASCII character

---
 .../__Serializing/Json/Types/JsonParser.h      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index c5853d6..c6ef1b0 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -251,7 +251,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (IsAt("null"))
         {
             Next(4);
             return MakeNull();
@@ -353,12 +353,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (IsAt("true"))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (IsAt("false"))
         {
             Next(5);
             return false;
@@ -417,9 +417,17 @@ private:
         }
     }
 
-    bool IsAt(const Char& value) const
+    bool IsAt(const char* text) const
     {
-        return position_ < json_.size() && json_[position_] == value;
+        SizeType position = position_;
+        for (; *text; ++text, ++position)
+        {
+            if (position >= json_.size() || json_[position] != *text)
+            {
+                return false;
+            }
+        }
+        return true;
     }
 
     void Next(const SizeType count = 1)
-- 
2.43.0


From 28d9c00d4d3acf175c96bc45b069bc1448199f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 16/51] fix: JSON parser cuts decimals, out-of-range and
 malformed numbers to another value

---
 .../__Serializing/Json/Types/JsonParser.h     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index c6ef1b0..06100b5 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cmath>
+
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonError.h"
@@ -382,15 +384,28 @@ private:
         const String number_str = json_.Substring(position_, end_number - position_);
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
+            const std::string number = number_str.str();
+            SizeType parsed = 0;
+
+            if (number_str.Find(Def::FullStop) != String::NPosition ||
+                number_str.Find(Def::PlusSign) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                result = std::stod(number_str.str());
+                const auto value = static_cast<JsonData::FloatingType>(std::stod(number, &parsed));
+                if (std::isinf(value))
+                {
+                    throw std::out_of_range{"Number out of range"};
+                }
+                result = value;
             }
             else
             {
-                result = std::stoll(number_str.str());
+                result = std::stoll(number, &parsed);
+            }
+            if (parsed != number.size())
+            {
+                throw std::invalid_argument{"Invalid number"};
             }
         }
         catch (const std::out_of_range&)
@@ -399,7 +414,7 @@ private:
             SetErrorPosition(position_);
             return JsonData{};
         }
-        catch (const std::exception&)
+        catch (const std::invalid_argument&)
         {
             SetError(JsonError::InvalidNumber);
             SetErrorPosition(position_);
-- 
2.43.0


From a7ad900370ccc6ad247caf4b4bc0fa1499fc1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 17/51] fix: JSON parser drops the character after an escape
 and misreads Unicode escapes

---
 .../__Serializing/Json/Types/JsonParser.h     | 76 +++++++++++++++----
 1 file changed, 61 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 06100b5..e43e0de 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -287,6 +287,10 @@ private:
                 {
                     escaped_stream << Def::ReverseSolidus;
                 }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    escaped_stream << Def::Solidus;
+                }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
                     escaped_stream << Def::Backspace;
@@ -309,25 +313,14 @@ private:
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
+                    CodePoint code_point = 0;
+                    if (!ParseCodePoint(code_point))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
-                    {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
-                    }
-                    catch (const std::exception&)
-                    {
-                        SetError(JsonError::InvalidEscapeSequence);
-                        SetErrorPosition(position_);
-                        return JsonData{};
-                    }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
                 }
                 else
                 {
@@ -335,7 +328,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
@@ -353,6 +345,60 @@ private:
         return JsonData{};
     }
 
+    // Reads the digits after "\\u"; a character outside the basic plane takes two escapes (surrogates)
+    bool ParseCodePoint(CodePoint& code_point)
+    {
+        if (!ParseHexDigits(code_point))
+        {
+            return false;
+        }
+        if (code_point >= 0xD800 && code_point <= 0xDBFF)
+        {
+            CodePoint low = 0;
+            Next();
+            if (!IsAt("\\u"))
+            {
+                return false;
+            }
+            Next();
+            if (!ParseHexDigits(low) || low < 0xDC00 || low > 0xDFFF)
+            {
+                return false;
+            }
+            code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+            return true;
+        }
+        // A string cannot hold the null character or half of a pair
+        return code_point != 0 && (code_point < 0xDC00 || code_point > 0xDFFF);
+    }
+
+    bool ParseHexDigits(CodePoint& value)
+    {
+        value = 0;
+        for (SizeType i = 0; i < 4; ++i)
+        {
+            Next();
+            const char digit = position_ < json_.size() && json_[position_].size() == 1 ? *json_[position_].data() : ' ';
+            if (digit >= '0' && digit <= '9')
+            {
+                value = value * 16 + (digit - '0');
+            }
+            else if (digit >= 'a' && digit <= 'f')
+            {
+                value = value * 16 + (digit - 'a' + 10);
+            }
+            else if (digit >= 'A' && digit <= 'F')
+            {
+                value = value * 16 + (digit - 'A' + 10);
+            }
+            else
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     JsonData ParseBoolean()
     {
         if (IsAt("true"))
-- 
2.43.0


From c4849009b4fa78ef5c2799c32ef00441f64d054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 18/51] fix: JSON parser ends a key at an escaped quotation
 mark and keeps its escapes

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index e43e0de..3ffd02b 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -143,17 +143,12 @@ private:
             }
             if (IsAt(Def::QuotationMark))
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
-
-                if (key_end == String::NPosition)
+                const JsonData key_data = ParseString();
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
+                const String key = key_data.GetString();
 
                 SkipSpace();
                 if (!IsAt(Def::Colon))
-- 
2.43.0


From 8d218e98b3039607e2f038c70fd40a01b1e6040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 19/51] fix: exhausted memory silently shortens JSON texts

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h   | 1 +
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..9fed249 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -342,6 +342,7 @@ public:
     StringType ToString(const BooleanType mangling = false, const SizeType indent = 2) const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // Report exhausted memory instead of dropping text
         MakeOutput(oss, mangling, indent, indent);
         return oss.str();
     }
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 3ffd02b..5b370a6 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -262,6 +262,7 @@ private:
     {
         Next();
         std::ostringstream escaped_stream;
+        escaped_stream.exceptions(std::ios_base::badbit); // Report exhausted memory instead of dropping text
 
         while (position_ < json_.size() && json_[position_] != Def::QuotationMark)
         {
-- 
2.43.0


From 8e2d822fb0ed148a9d42ad240c917d4fcf26b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 20/51] fix: JSON strings and keys are written without escapes

---
 .../__Serializing/Json/Types/JsonData.h       | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 9fed249..a9344b7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -387,7 +387,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        MakeStringOutput(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -448,7 +449,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 oss << data_.floating_value;
@@ -467,6 +468,30 @@ private:
         }
     }
 
+    static void MakeStringOutput(std::ostringstream& oss, const StringType& value)
+    {
+        static const char* const hex_digits = "0123456789abcdef";
+
+        oss << Def::QuotationMark;
+        for (const auto& character : value)
+        {
+            if (character == Def::QuotationMark || character == Def::ReverseSolidus)
+            {
+                oss << Def::ReverseSolidus << character;
+            }
+            else if (character.size() == 1 && character.GetCodePoint() < 0x20)
+            {
+                const CodePoint code_point = character.GetCodePoint();
+                oss << "\\u00" << hex_digits[code_point >> 4] << hex_digits[code_point & 0x0F];
+            }
+            else
+            {
+                oss << character;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From 30c0739ecf109e5bba817e5bc92343da8cd8d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 21/51] fix: JSON numbers change value or type when written and
 read back

---
 .../__Serializing/Json/Types/JsonData.h       | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index a9344b7..28751d8 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <deque>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -452,7 +453,7 @@ private:
                 MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
-                oss << data_.floating_value;
+                MakeFloatingOutput(oss, data_.floating_value);
                 break;
             case JsonClass::Integral:
                 oss << data_.integral_value;
@@ -492,6 +493,21 @@ private:
         oss << Def::QuotationMark;
     }
 
+    static void MakeFloatingOutput(std::ostringstream& oss, const FloatingType value)
+    {
+        std::ostringstream number;
+        number.exceptions(std::ios_base::badbit);
+        number.precision(std::numeric_limits<FloatingType>::max_digits10);
+        number << value;
+
+        const std::string text = number.str();
+        oss << text;
+        if (text.find_first_not_of("-0123456789") == std::string::npos)
+        {
+            oss << ".0"; // Keeps the number a floating one
+        }
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
@@ -680,17 +696,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From 9859b06cb404c44f81a3cba0798a1631b877306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 22/51] fix: JSON parser overflows the stack on deeply nested
 texts

---
 .../__Serializing/Json/Types/JsonError.h      |  3 ++-
 .../__Serializing/Json/Types/JsonParser.h     | 22 ++++++++++++++++---
 include/Caitlyn/__Serializing/Json/Utility.h  |  6 +++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonError.h b/include/Caitlyn/__Serializing/Json/Types/JsonError.h
index 5b43088..22001d4 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonError.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonError.h
@@ -38,7 +38,8 @@ enum class JsonError
     InvalidEscapeSequence,
     NumberConversionError,
     OutOfRangeError,
-    TrailingComma
+    TrailingComma,
+    NestingTooDeep
 };
 
 __CAITLYN_JSON_NAMESPACE_END
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 5b370a6..4b4fc29 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -95,6 +95,12 @@ private:
         {
             return JsonData{};
         }
+        if (depth_ > MaxDepth)
+        {
+            SetError(JsonError::NestingTooDeep);
+            SetErrorPosition(position_);
+            return JsonData{};
+        }
         const auto current_char = json_[position_];
 
         if (current_char == Def::QuotationMark)
@@ -103,11 +109,17 @@ private:
         }
         if (current_char == Def::LeftCurlyBracket)
         {
-            return ParseObject();
+            ++depth_;
+            JsonData result = ParseObject();
+            --depth_;
+            return result;
         }
         if (current_char == Def::LeftSquareBracket)
         {
-            return ParseArray();
+            ++depth_;
+            JsonData result = ParseArray();
+            --depth_;
+            return result;
         }
         if (current_char == Def::LatinSmallLetterT || current_char == Def::LatinSmallLetterF)
         {
@@ -503,11 +515,15 @@ private:
     }
 
 private:
+    // Every level takes stack; a text nested deeper is refused instead of running out of it
+    static constexpr SizeType MaxDepth = 512;
+
     JsonData data_;
     JsonError error_;
     const String& json_;
     SizeType position_;
-    SizeType errorPosition_;
+    SizeType errorPosition_{};
+    SizeType depth_{};
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index b6a6ecc..cc7a981 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -53,6 +53,12 @@ inline const char* GetErrorString(const JsonError error)
             return "Trailing comma.";
         case JsonError::InvalidJson:
             return "Invalid JSON.";
+        case JsonError::InvalidEscapeSequence:
+            return "Invalid escape sequence.";
+        case JsonError::OutOfRangeError:
+            return "Number out of range.";
+        case JsonError::NestingTooDeep:
+            return "Nesting too deep.";
         default:
             return "Unknown error.";
     }
-- 
2.43.0


From fa71293ce03cfe72c86a2bf789f4af59a0248bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 23/51] fix: loading a JSON document takes a read error or
 exhausted memory for the end of the text

---
 .../Caitlyn/__Serializing/Json/Types/Json.h   | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..e4d5ce7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -114,16 +114,34 @@ public:
         }
         else
         {
-            error_ = ErrorType::NoError;
             root_ = parser.GetData();
+            error_ = ErrorType::NoError;
         }
     }
 
     void Parse(const std::ifstream& ifs)
     {
-        std::ostringstream buffer;
-        buffer << ifs.rdbuf();
-        Parse(buffer.str());
+        Parse(ifs.rdbuf());
+    }
+
+    // Reads the rest of the stream; a read error is thrown, not taken for the end of the text
+    void Parse(std::streambuf* stream)
+    {
+        std::string text;
+        char chunk[1024];
+        std::streamsize count = 0;
+
+        while (stream && (count = stream->sgetn(chunk, sizeof(chunk))) > 0)
+        {
+            text.append(chunk, static_cast<SizeType>(count));
+        }
+        if (text.find('\0') != std::string::npos)
+        {
+            error_ = ErrorType::InvalidJson; // A String would end at the null character
+            root_ = Json::MakeNull();
+            return;
+        }
+        Parse(String{text});
     }
 
     void AddMember(const String& key, const DataType& value)
@@ -218,9 +236,7 @@ __CAITLYN_GLOBAL_NAMESPACE_END
 
 inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
 {
-    std::ostringstream buffer;
-    buffer << is.rdbuf();
-    value.Parse(buffer.str());
+    value.Parse(is.rdbuf());
     return is;
 }
 
-- 
2.43.0


From 3b0d004e01e3f8dce6d50232a5bea54ff224bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 24/51] fix: JsonDocument::RemoveMember leaks the member

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index e4d5ce7..f52e4d9 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -154,13 +154,12 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
-            obj.erase(
-                std::remove_if(
-                    obj.begin(),
-                    obj.end(),
-                    [&key](const std::pair<const String&, const DataType*>& pair)
-                    { return pair.first == key; }),
-                obj.end());
+            const auto it = std::find_if(
+                obj.begin(),
+                obj.end(),
+                [&key](const std::pair<const String&, const DataType*>& pair) { return pair.first == key; });
+            delete it->second;
+            obj.erase(it);
         }
     }
 
-- 
2.43.0


From 785c052fbd5ebba3fb07e32ba9499550be2b6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 25/51] fix: JSON values leak, dangle or crash when copied,
 moved, indexed or out of memory

---
 .../__Serializing/Json/Types/JsonData.h       | 81 +++++++++++++------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 28751d8..08f9a82 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -19,8 +19,8 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DATA_H_
 
 #include <algorithm>
-#include <deque>
 #include <limits>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -38,7 +38,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 class JsonData
 {
 public:
-    using ArrayType = std::deque<JsonData*>;
+    using ArrayType = std::vector<JsonData*>; // Moved without allocating
     using ObjectType = std::vector<std::pair<String, JsonData*>>;
     using StringType = String;
     using NullType = NullPtr;
@@ -52,7 +52,7 @@ public:
         new (&data_.null_value) NullType(nullptr);
     }
 
-    JsonData(const JsonData& other) : type_(other.type_)
+    JsonData(const JsonData& other) : JsonData()
     {
         CopyUnion(other);
     }
@@ -102,9 +102,9 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            // The other value may be part of this one
+            JsonData copy{other};
+            *this = std::move(copy);
         }
         return *this;
     }
@@ -113,9 +113,10 @@ public:
     {
         if (this != &other)
         {
+            JsonData moved{std::move(other)};
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = moved.type_;
+            MoveUnion(std::move(moved));
         }
         return *this;
     }
@@ -165,8 +166,9 @@ public:
 
         if (it == object.end())
         {
-            object.emplace_back(key, new JsonData());
-            return *object.back().second;
+            std::unique_ptr<JsonData> value{new JsonData()};
+            object.emplace_back(key, value.get());
+            return *value.release();
         }
         return *it->second;
     }
@@ -177,11 +179,11 @@ public:
         auto& array = data_.array_value;
         if (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
+            array.reserve(index + 1);
         }
-        if (!array[index])
+        while (index >= array.size())
         {
-            new (array[index]) JsonData{};
+            array.push_back(new JsonData{});
         }
         return *array[index];
     }
@@ -194,6 +196,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::out_of_range{"Key not found"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -214,6 +220,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::out_of_range{"Index out of range"};
+        }
         return *data_.array_value.at(index);
     }
 
@@ -225,7 +235,9 @@ public:
         {
             SetType(JsonClass::Array);
         }
-        data_.array_value.emplace_back(new JsonData{arg});
+        std::unique_ptr<JsonData> value{new JsonData{arg}};
+        data_.array_value.push_back(value.get());
+        value.release();
     }
 
     template <typename T, typename... Args>
@@ -508,37 +520,40 @@ private:
         }
     }
 
+    // Copies into a null value, which stays valid if memory runs out
     void CopyUnion(const JsonData& other)
     {
+        SetType(other.type_);
         switch (other.type_)
         {
             case JsonClass::Null:
-                new (&data_.null_value) NullType(nullptr);
                 break;
             case JsonClass::String:
-                new (&data_.string_value) StringType(other.data_.string_value);
+                data_.string_value = other.data_.string_value;
                 break;
             case JsonClass::Floating:
-                new (&data_.floating_value) FloatingType(other.data_.floating_value);
+                data_.floating_value = other.data_.floating_value;
                 break;
             case JsonClass::Integral:
-                new (&data_.integral_value) IntegralType(other.data_.integral_value);
+                data_.integral_value = other.data_.integral_value;
                 break;
             case JsonClass::Boolean:
-                new (&data_.boolean_value) BooleanType(other.data_.boolean_value);
+                data_.boolean_value = other.data_.boolean_value;
                 break;
             case JsonClass::Array:
-                new (&data_.array_value) ArrayType();
                 for (const auto* item : other.data_.array_value)
                 {
-                    data_.array_value.emplace_back(new JsonData{*item});
+                    std::unique_ptr<JsonData> value{new JsonData{*item}};
+                    data_.array_value.push_back(value.get());
+                    value.release();
                 }
                 break;
             case JsonClass::Object:
-                new (&data_.object_value) ObjectType();
                 for (const auto& item : other.data_.object_value)
                 {
-                    data_.object_value.emplace_back(item.first, new JsonData{*item.second});
+                    std::unique_ptr<JsonData> value{new JsonData{*item.second}};
+                    data_.object_value.emplace_back(item.first, value.get());
+                    value.release();
                 }
                 break;
             default:
@@ -574,6 +589,7 @@ private:
             default:
                 break;
         }
+        other.ReleaseUnion();
         other.type_ = JsonClass::Null;
         new (&other.data_.null_value) NullType{};
     }
@@ -587,15 +603,32 @@ private:
                 {
                     delete item;
                 }
-                data_.array_value.~ArrayType();
                 break;
             case JsonClass::Object:
                 for (const auto& item : data_.object_value)
                 {
                     delete item.second;
                 }
+                break;
+            default:
+                break;
+        }
+        ReleaseUnion();
+    }
+
+    void ReleaseUnion()
+    {
+        switch (type_)
+        {
+            case JsonClass::Array:
+                data_.array_value.~ArrayType();
+                break;
+            case JsonClass::Object:
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From ff81fa41f70816d0c27961fd905ef47e5365c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 26/51] fix: SharedPtr never destroys its object and crashes
 when a null pointer is copied

fetch_sub returns the count before, so the last owner sees 1. The last
owner must also see what the others did with the object.
---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..dcf0363 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
@@ -152,7 +155,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 6a3b536b13916e4b1953b5fa09195dcf0bd01773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 27/51] fix: SharedPtr assignment reads a pointer owned by the
 object it destroys

p = p->next released the old object, and with it p->next, first.
---
 .../__Core/Memory/Types/SharedPointer.h       | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index dcf0363..bc49862 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -69,16 +70,8 @@ public:
 
     SharedPtr& operator=(const SharedPtr& other)
     {
-        if (this != &other)
-        {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            if (ref_count_)
-            {
-                ref_count_->fetch_add(1);
-            }
-        }
+        SharedPtr copy{other}; // The old object may own other
+        Swap(copy);
         return *this;
     }
 
@@ -86,11 +79,8 @@ public:
     {
         if (this != &other)
         {
-            Release();
-            data_ = other.data_;
-            ref_count_ = other.ref_count_;
-            other.data_ = nullptr;
-            other.ref_count_ = nullptr;
+            SharedPtr taken{std::move(other)}; // The old object may own other
+            Swap(taken);
         }
         return *this;
     }
@@ -153,6 +143,12 @@ public:
     }
 
 private:
+    void Swap(SharedPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
+    }
+
     void Release() const
     {
         if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
-- 
2.43.0


From db391e6f2b2f287dfba197db8c063e233f191bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 28/51] fix: SharedPtr leaks the object and keeps a dangling
 counter when memory runs out

Assignment of a plain pointer called a member that does not exist.
---
 .../__Core/Memory/Types/SharedPointer.h       | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index bc49862..92cda21 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -38,7 +38,7 @@ public:
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter(1) : nullptr}
+    SharedPtr(Pointer data) : data_{data}, ref_count_{MakeCounter(data)}
     {
     }
 
@@ -64,7 +64,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -136,13 +136,25 @@ public:
     {
         if (data_ != data)
         {
-            Release();
-            data_ = data;
-            ref_count_ = data ? new Counter(1) : nullptr;
+            SharedPtr fresh{data};
+            Swap(fresh);
         }
     }
 
 private:
+    static Counter* MakeCounter(Pointer data)
+    {
+        try
+        {
+            return data ? new Counter(1) : nullptr;
+        }
+        catch (...)
+        {
+            delete data;
+            throw;
+        }
+    }
+
     void Swap(SharedPtr& other) noexcept
     {
         std::swap(data_, other.data_);
-- 
2.43.0


From 70ee9575951841ad4fcc4c0a192aa135130cf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 29/51] fix: UniquePtr reads a pointer owned by the object it
 destroys

Assignment of a plain pointer and Release did not compile.
---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..9801471 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -53,7 +53,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -61,9 +61,9 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
-            data_ = other.data_;
+            const Pointer data = other.data_;
             other.data_ = nullptr;
+            Reset(data); // Destroys the old object last: it may own other
         }
         return *this;
     }
@@ -119,14 +119,15 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            const Pointer old_data = data_;
             data_ = new_data;
+            delete old_data;
         }
     }
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        const Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From f41cf15dbb9ab3b5ec17fb1c8f3eaf2ed3ab8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 30/51] fix: WeakPtr keeps its object alive and never expires

It held an owning pointer. It now holds the control block, which lives
until the last owner and the last weak pointer are gone.
---
 .../__Core/Memory/Types/SharedPointer.h       | 37 ++++++++--
 .../Caitlyn/__Core/Memory/Types/WeakPointer.h | 73 +++++++++++++------
 2 files changed, 84 insertions(+), 26 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 92cda21..00e8d20 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -26,14 +26,41 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+template <typename T>
+class WeakPtr;
+
 template <typename T>
 class SharedPtr
 {
+    friend class WeakPtr<T>;
+
 public:
     using ValueType = T;
     using Pointer = T*;
     using Reference = T&;
-    using Counter = std::atomic_size_t;
+
+    struct Counter
+    {
+        std::atomic_size_t owners{1};
+        std::atomic_size_t references{1}; // Weak pointers, and one for all owners together
+
+        bool AddOwner() noexcept
+        {
+            SizeType count = owners.load(std::memory_order_relaxed);
+            while (count != 0 && !owners.compare_exchange_weak(count, count + 1, std::memory_order_acq_rel))
+            {
+            }
+            return count != 0;
+        }
+
+        void RemoveReference() noexcept
+        {
+            if (references.fetch_sub(1, std::memory_order_acq_rel) == 1)
+            {
+                delete this;
+            }
+        }
+    };
 
 public:
     SharedPtr() = default;
@@ -46,7 +73,7 @@ public:
     {
         if (ref_count_)
         {
-            ref_count_->fetch_add(1, std::memory_order_relaxed);
+            ref_count_->owners.fetch_add(1, std::memory_order_relaxed);
         }
     }
 
@@ -146,7 +173,7 @@ private:
     {
         try
         {
-            return data ? new Counter(1) : nullptr;
+            return data ? new Counter : nullptr;
         }
         catch (...)
         {
@@ -163,10 +190,10 @@ private:
 
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
+        if (ref_count_ && ref_count_->owners.fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
-            delete ref_count_;
+            ref_count_->RemoveReference();
         }
     }
 
diff --git a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
index ba06cc9..26e9d62 100644
--- a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
@@ -30,60 +30,73 @@ public:
     using Pointer = T*;
     using Reference = T&;
     using Resource = SharedPtr<T>;
+    using Counter = typename Resource::Counter;
 
 public:
-    WeakPtr() : data_(nullptr)
+    WeakPtr() = default;
+
+    WeakPtr(const Resource& resource) : data_{resource.data_}, ref_count_{resource.ref_count_}
     {
+        AddReference();
     }
 
-    WeakPtr(const Resource& resource) : data_{resource}
+    WeakPtr(const WeakPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        AddReference();
     }
 
-    WeakPtr(const WeakPtr& other) : data_{other.data_}
+    WeakPtr(WeakPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
     {
+        other.data_ = nullptr;
+        other.ref_count_ = nullptr;
     }
 
-    WeakPtr(WeakPtr&& other) noexcept : data_{std::move(other.data_)}
+    ~WeakPtr()
     {
+        if (ref_count_)
+        {
+            ref_count_->RemoveReference();
+        }
     }
 
 public:
     WeakPtr& operator=(const WeakPtr& other)
     {
-        data_ = other.data_;
+        WeakPtr copy{other};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(const Resource& sp)
     {
-        this->data_ = sp;
+        WeakPtr copy{sp};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(WeakPtr&& other) noexcept
     {
-        data_ = std::move(other.data_);
+        if (this != &other)
+        {
+            WeakPtr taken{std::move(other)};
+            Swap(taken);
+        }
         return *this;
     }
 
 public:
     Reference operator*() const
     {
-        if (data_ == nullptr || !data_.Get())
-        {
-            throw std::runtime_error{"Dereferencing null or expired weak pointer."};
-        }
-        return *data_;
+        return *operator->();
     }
 
     Pointer operator->() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
-        return data_.Get();
+        return data_;
     }
 
 public:
@@ -99,32 +112,50 @@ public:
 
     bool operator==(NullPtr) const
     {
-        return data_ == nullptr;
+        return expired();
     }
 
     bool operator!=(NullPtr) const
     {
-        return data_ != nullptr;
+        return !expired();
     }
 
 public:
     Resource lock() const
     {
-        if (data_ == nullptr || !data_.Get())
+        Resource result;
+        if (ref_count_ && ref_count_->AddOwner())
         {
-            return Resource();
+            result.data_ = data_;
+            result.ref_count_ = ref_count_;
         }
-        return data_;
+        return result;
     }
 
 public:
     bool expired() const
     {
-        return data_ == nullptr || !data_.Get();
+        return !ref_count_ || ref_count_->owners.load(std::memory_order_acquire) == 0;
+    }
+
+private:
+    void AddReference() noexcept
+    {
+        if (ref_count_)
+        {
+            ref_count_->references.fetch_add(1, std::memory_order_relaxed);
+        }
+    }
+
+    void Swap(WeakPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(ref_count_, other.ref_count_);
     }
 
 private:
-    Resource data_;
+    Pointer data_{};
+    Counter* ref_count_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 9b94f9d29b32efdfa0c8b87c2739fd00de79baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:13 +0000
Subject: [PATCH 31/51] fix: Expected holds a destroyed alternative when an
 assignment throws

The old alternative was destroyed before the new one was made, and destroyed
again later. Assignment constructs, so noexcept depends on construction.
---
 include/Caitlyn/__Core/Error/Expected.h | 47 ++++++++++++-------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..717d8e2 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,47 +71,31 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            *this = Expected{other};
         }
         return *this;
     }
 
     Expected(Expected&& other) noexcept(NothrowMoveConstructible<ValueType>() && NothrowMoveConstructible<ErrorType>())
-        : hasValue_(other.hasValue_)
     {
-        if (hasValue_)
-        {
-            new (&data_.value) ValueType{std::move(other.data_.value)};
-        }
-        else
-        {
-            new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
-        }
+        Take(other);
     }
 
     Expected& operator=(Expected&& other)
-        noexcept(NothrowMoveAssignable<ValueType>() && NothrowMoveAssignable<ErrorType>())
+        noexcept(NothrowMoveConstructible<ValueType>() && NothrowMoveConstructible<ErrorType>())
     {
         if (this != &other)
         {
+            Expected old{std::move(*this)};
             DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
+            try
             {
-                new (&data_.value) ValueType{std::move(other.data_.value)};
+                Take(other);
             }
-            else
+            catch (...)
             {
-                new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
+                Take(old);
+                throw;
             }
         }
         return *this;
@@ -315,6 +299,19 @@ public:
     }
 
 private:
+    void Take(Expected& other)
+    {
+        if (other.hasValue_)
+        {
+            new (&data_.value) ValueType{std::move(other.data_.value)};
+        }
+        else
+        {
+            new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
+        }
+        hasValue_ = other.hasValue_;
+    }
+
     template <typename Result = T, typename Error = E>
     Required<Destructible<Result>() && !Destructible<Error>()> DestroyUnion()
     {
-- 
2.43.0


From 3ae07f49e2a373b322cd03cf068b8c563a7ab88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:13 +0000
Subject: [PATCH 32/51] fix: Expected::MapError to another type,
 UnwrapOrDefault and Filter do not compile

---
 include/Caitlyn/__Core/Error/Expected.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 717d8e2..b07b720 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -158,7 +158,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
@@ -204,12 +204,12 @@ public:
     const ValueType& UnwrapOrDefault() const
     {
         static ValueType default_value{};
-        return unwrap_or(default_value);
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& Expect(const String& message) const
@@ -238,7 +238,7 @@ public:
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Expected(Unexpected<ErrorType>{ErrorType{}});
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From f3bf6696e08ee03d6515b21fad86ce0729807256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 33/51] fix: running all tests again adds to the counts of the
 run before

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..84ce352 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -52,6 +52,9 @@ public:
 
     int RunAll()
     {
+        passed_ = 0;
+        failed_ = 0;
+
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
-- 
2.43.0


From 1fb4f41b3a8b2a07fa7800c2cd9e1356a5cedeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 34/51] fix: a failed test is reported with the duration of the
 test before it

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 84ce352..4859d8c 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -73,24 +73,24 @@ public:
                 try
                 {
                     test.function();
+                    StopLocalTimer();
                     test.passed = true;
                     ++passed_;
                 }
                 catch (const std::exception& e)
                 {
+                    StopLocalTimer();
                     test.passed = false;
                     LogTestFailure(test, e.what());
                     ++failed_;
                 }
                 catch (...)
                 {
+                    StopLocalTimer();
                     test.passed = false;
                     LogTestFailure(test, "Unknown error");
                     ++failed_;
                 }
-                stopLocalTime_ = std::chrono::steady_clock::now();
-                localDiff_ =
-                    std::chrono::duration_cast<std::chrono::milliseconds>(stopLocalTime_ - startLocalTime_);
 
                 LogTestEnd(test, localDiff_);
                 suite_total_time += localDiff_;
@@ -116,6 +116,13 @@ private:
     ~TestRegistry() = default;
 
 private:
+    void StopLocalTimer()
+    {
+        stopLocalTime_ = std::chrono::steady_clock::now();
+        localDiff_ =
+            std::chrono::duration_cast<std::chrono::milliseconds>(stopLocalTime_ - startLocalTime_);
+    }
+
     void LogStart() const
     {
         std::cout << "[==========] Running " << total_ << " tests from " << tests_.size() << " test cases.\n";
-- 
2.43.0


From c44855c9582012af376ce3b783f3f1f552f36e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:42 +0000
Subject: [PATCH 35/51] fix: a failure message that is not valid UTF-8 ends the
 whole test run

Making a String of it threw out of the handler.
---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 4859d8c..1a0ea56 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -148,7 +148,7 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    void LogTestFailure(const TestCase& test, const char* message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From ca0c27f1c6403a28e922fdc15ee589eb11b4c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 36/51] fix: a failing ASSERT_STREQ aborts the whole test run

---
 include/Caitlyn/__Testing/Macro/Assert.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..8963f04 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -18,6 +18,10 @@
 #ifndef CAITLYN_TEST_MACRO_ASSERT_H_
 #define CAITLYN_TEST_MACRO_ASSERT_H_
 
+#include <cstring>
+#include <sstream>
+#include <stdexcept>
+
 #include "Caitlyn/__Core/Traits.h"
 #include "Caitlyn/__Testing/Types.h"
 
@@ -99,19 +103,21 @@
         }                                                                                                              \
         else if ((expected) == nullptr)                                                                                \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"";                               \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
         else if ((actual) == nullptr)                                                                                  \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr";                             \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
         else if (std::strcmp((expected), (actual)) != 0)                                                               \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\"";              \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From be078cfa4a606850a3ddb022c7364ee287c81d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 37/51] fix: a random real number over a very wide range is
 infinite

---
 include/Caitlyn/__Core/Utility/Random.h | 26 +++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..ed341c8 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -27,6 +27,23 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+namespace Detail
+{
+
+// The distribution needs a max - min that does not overflow.
+template <typename T>
+T RandomReal(const T min, const T max)
+{
+    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
+    if (max / 2 - min / 2 > std::numeric_limits<T>::max() / 2)
+    {
+        return std::uniform_real_distribution<T>{min / 2, max / 2}(engine)*2;
+    }
+    return std::uniform_real_distribution<T>{min, max}(engine);
+}
+
+} // namespace Detail
+
 template <typename T>
 T Random(T min = std::numeric_limits<T>::min(), T max = std::numeric_limits<T>::max());
 
@@ -75,22 +92,19 @@ inline UInt64 Random(const UInt64 min, const UInt64 max)
 template <>
 inline Float Random(const Float min, const Float max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Float>{min, max}(engine);
+    return Detail::RandomReal(min, max);
 }
 
 template <>
 inline Double Random(const Double min, const Double max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Double>{min, max}(engine);
+    return Detail::RandomReal(min, max);
 }
 
 template <>
 inline Decimal Random(const Decimal min, const Decimal max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Decimal>{min, max}(engine);
+    return Detail::RandomReal(min, max);
 }
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
-- 
2.43.0


From 7b4b5319465d16501100bd0418b21712603ecf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 38/51] fix: Application keeps half of the arguments when
 memory runs out

---
 include/Caitlyn/__Caitlyn/Application.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index aa3100c..3f634d0 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -20,6 +20,7 @@
 
 #include <cstring>
 #include <ios>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
@@ -88,12 +89,18 @@ private:
     {
         if (argc > 0)
         {
-            args_.reserve(argc);
+            std::vector<std::unique_ptr<char[]>> copies;
+            copies.reserve(argc);
             for (int i = 0; i < argc; ++i)
             {
-                auto arg_copy = new char[std::strlen(argv[i]) + 1];
-                std::strcpy(arg_copy, argv[i]);
-                args_.emplace_back(arg_copy);
+                copies.emplace_back(new char[std::strlen(argv[i]) + 1]);
+                std::strcpy(copies.back().get(), argv[i]);
+            }
+
+            args_.reserve(argc);
+            for (auto& copy : copies)
+            {
+                args_.emplace_back(copy.release());
             }
         }
     }
-- 
2.43.0


From 55b6b479ae4ca548df9e46f78a7435bfecd52541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 39/51] fix: Application can be initialised by two threads at
 once

---
 include/Caitlyn/__Caitlyn/Application.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index 3f634d0..6144597 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -21,6 +21,7 @@
 #include <cstring>
 #include <ios>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <vector>
 
@@ -34,6 +35,7 @@ class Application
 public:
     static const Application* Initialise()
     {
+        const std::lock_guard<std::mutex> lock(InitialisationMutex());
         if (initialized_)
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
@@ -45,6 +47,7 @@ public:
 
     static const Application* Initialize(const int& argc, const char** argv)
     {
+        const std::lock_guard<std::mutex> lock(InitialisationMutex());
         if (initialized_)
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
@@ -114,6 +117,12 @@ private:
     }
 
 private:
+    static std::mutex& InitialisationMutex()
+    {
+        static std::mutex mutex;
+        return mutex;
+    }
+
     static void configure()
     {
 #ifdef __CAITLYN_OS_WINDOWS
-- 
2.43.0


From 4ae696fc1c6b397450f3d38492f9be2c8752cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:06 +0000
Subject: [PATCH 40/51] fix: keep the old number when copying a BigFloat runs
 out of memory

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..a90f1b6 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -82,8 +82,11 @@ public:
     {
         if (this != &other)
         {
-            integerPart_ = other.integerPart_;
-            fractionalPart_ = other.fractionalPart_;
+            // Copy both parts before changing either, so that a failing allocation leaves the old number
+            BigInteger integer_part = other.integerPart_;
+            BigInteger fractional_part = other.fractionalPart_;
+            integerPart_ = std::move(integer_part);
+            fractionalPart_ = std::move(fractional_part);
             isNegative_ = other.isNegative_;
         }
         return *this;
-- 
2.43.0


From db5f60c6a2700b45b7838a0965f2d003ee5213da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 41/51] fix: Format read past its arguments when a placeholder
 had none

---
 include/Caitlyn/__Core/String/String.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 9550524..68bbc3e 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -604,7 +604,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
@@ -615,7 +615,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
@@ -625,6 +625,10 @@ public:
                     }
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
+                        if (arguments.empty())
+                        {
+                            throw Formatter::FormatError{"Missing argument index in format string"};
+                        }
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
                         result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                     }
@@ -634,6 +638,10 @@ public:
                     }
                     else if (arguments.size() > 1)
                     {
+                        if (auto_index >= arguments.size())
+                        {
+                            throw Formatter::FormatError{"Argument index out of range"};
+                        }
                         result << arguments[auto_index++].str();
                     }
                     else
-- 
2.43.0


From 5019cfb2d2d0f1ae3e6b770eb8443469347fa157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 42/51] fix: write and read JSON numbers the same way in every
 locale

---
 .../__Serializing/Json/Types/JsonData.h       |  3 ++
 .../__Serializing/Json/Types/JsonParser.h     | 34 +++++++++++++++----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 08f9a82..a9a291e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <locale>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -356,6 +357,7 @@ public:
     {
         std::ostringstream oss;
         oss.exceptions(std::ios_base::badbit); // Report exhausted memory instead of dropping text
+        oss.imbue(std::locale::classic());     // The text does not depend on the locale of the program
         MakeOutput(oss, mangling, indent, indent);
         return oss.str();
     }
@@ -509,6 +511,7 @@ private:
     {
         std::ostringstream number;
         number.exceptions(std::ios_base::badbit);
+        number.imbue(std::locale::classic());
         number.precision(std::numeric_limits<FloatingType>::max_digits10);
         number << value;
 
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4b4fc29..cffd864 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -19,6 +19,10 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
 #include <cmath>
+#include <locale>
+#include <sstream>
+#include <stdexcept>
+#include <string>
 
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
@@ -446,12 +450,7 @@ private:
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                const auto value = static_cast<JsonData::FloatingType>(std::stod(number, &parsed));
-                if (std::isinf(value))
-                {
-                    throw std::out_of_range{"Number out of range"};
-                }
-                result = value;
+                result = ParseFloating(number, parsed);
             }
             else
             {
@@ -478,6 +477,29 @@ private:
         return result;
     }
 
+    // As std::stod, with a decimal point in every locale
+    static JsonData::FloatingType ParseFloating(const std::string& number, SizeType& parsed)
+    {
+        std::istringstream stream;
+        stream.exceptions(std::ios_base::badbit); // Report exhausted memory
+        stream.imbue(std::locale::classic());
+        stream.str(number);
+
+        Double value = 0;
+        stream >> value;
+        const auto result = static_cast<JsonData::FloatingType>(value);
+        if (std::isinf(result))
+        {
+            throw std::out_of_range{"Number out of range"};
+        }
+        if (stream.fail())
+        {
+            throw std::invalid_argument{"Invalid number"};
+        }
+        parsed = stream.eof() ? number.size() : static_cast<SizeType>(stream.tellg());
+        return result;
+    }
+
     void SkipSpace()
     {
         while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
-- 
2.43.0


From cd04de89e5bd3faad2120142076ec0ec5abb9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 43/51] fix: do not read past the end of an empty format
 specification

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 68bbc3e..425543a 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -773,6 +773,10 @@ private:
 
         static void ParseAlignment(const String& config, FormatSpecifier& spec, SizeType& pos)
         {
+            if (pos >= config.size())
+            {
+                return;
+            }
             if (pos + 1 < config.size() &&
                 (config[pos + 1] == Def::LessThanSign || config[pos + 1] == Def::GreaterThanSign ||
                  config[pos + 1] == Def::CircumflexAccent))
-- 
2.43.0


From 5b88906733a4b9823d056a5323470b4212c6e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:07 +0000
Subject: [PATCH 44/51] fix: several threads could not write to the console in
 a program with an Application

---
 include/Caitlyn/__Caitlyn/Application.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index 6144597..ff66ec4 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -129,7 +129,7 @@ private:
         SetConsoleOutputCP(CP_UTF8);
         SetConsoleCP(CP_UTF8);
 #endif
-        std::ios::sync_with_stdio(false);
+        // The standard streams stay synchronised with stdio: several threads may write to the console
     }
 
 private:
-- 
2.43.0


From c04797901bac49c095a6ba478e8bd51c47ed5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:42 +0000
Subject: [PATCH 45/51] fix: a test that redirects or reformats std::cout and
 then fails must not change the reports

A failing assertion leaves the test before it has put the console back: the
runner then wrote its results into a destroyed buffer or in hexadecimal.
---
 .../Caitlyn/__Testing/Types/TestRegistry.h    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 1a0ea56..e69519c 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -72,6 +72,7 @@ public:
                 startLocalTime_ = std::chrono::steady_clock::now();
                 try
                 {
+                    const ConsoleGuard guard;
                     test.function();
                     StopLocalTimer();
                     test.passed = true;
@@ -115,6 +116,27 @@ private:
     TestRegistry() = default;
     ~TestRegistry() = default;
 
+private:
+    // A test may fail while it has redirected or reformatted the console: the reports must not follow
+    class ConsoleGuard
+    {
+    public:
+        ConsoleGuard() : format_{std::cout.rdbuf()}
+        {
+            format_.copyfmt(std::cout);
+        }
+
+        ~ConsoleGuard()
+        {
+            std::cout.exceptions(std::ios::goodbit);
+            std::cout.rdbuf(format_.rdbuf());
+            std::cout.copyfmt(format_);
+        }
+
+    private:
+        std::ios format_;
+    };
+
 private:
     void StopLocalTimer()
     {
-- 
2.43.0


From b921c1ca9819cad5c56db1a83edaa99aafd71826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:42 +0000
Subject: [PATCH 46/51] fix: hand a long text to the system in one piece also
 after a read

The stream buffer was still in reading mode, so that the text went out in
buffer-sized pieces and texts of other handles could end up inside it.
---
 include/Caitlyn/__Core/File/File.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 5630961..e8782f1 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -406,6 +406,8 @@ private:
         }
         // A reader that met the end of the file or an earlier failure must not disable writing
         file_.clear();
+        // A buffer last used for reading would hand a long text to the system in pieces
+        file_.rdbuf()->pubseekoff(0, std::ios::end, std::ios::out);
     }
 
     void FinishWrite()
-- 
2.43.0


From c0728fc4aa246a8a9768a4aad1e2edc975652ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:51 +0000
Subject: [PATCH 47/51] fix: keep the character tables usable while the process
 exits

The tables in function-local statics were destroyed with the static objects,
so a static object made before their first use, an exit handler or a thread
still running that changed the case of a text or parsed a document then used
freed memory.
---
 include/Caitlyn/__Core/Char/Utility.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..0c8f045 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -27,7 +27,8 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 inline bool IsSpace(const CodePoint codePoint)
 {
-    static const std::unordered_set<CodePoint> SpaceCodepoints{
+    // Never destroyed, as the other tables here: also used while the process exits.
+    static const std::unordered_set<CodePoint>& SpaceCodepoints = *new std::unordered_set<CodePoint>{
         CodePoint{0x0009}, // CHARACTER TABULATION
         CodePoint{0x000A}, // LINE FEED
         CodePoint{0x000B}, // LINE TABULATION
@@ -136,7 +137,7 @@ inline bool IsDigit(const CodePoint codePoint)
 
 inline CodePoint ToUppercase(const CodePoint codePoint)
 {
-    static const std::unordered_map<CodePoint, CodePoint> SpecialCaseUpper{
+    static const std::unordered_map<CodePoint, CodePoint>& SpecialCaseUpper = *new std::unordered_map<CodePoint, CodePoint>{
         {CodePoint{0x00DF}, CodePoint{0x1E9E}}, // ß -> ẞ
         {CodePoint{0x0131}, CodePoint{0x0049}}, // ı -> I
         {CodePoint{0x0149}, CodePoint{0x02BC}}  // ŉ -> ’n
@@ -251,7 +252,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
 
 inline CodePoint ToLowercase(const CodePoint codePoint)
 {
-    static const std::unordered_map<CodePoint, CodePoint> SpecialCaseLower{
+    static const std::unordered_map<CodePoint, CodePoint>& SpecialCaseLower = *new std::unordered_map<CodePoint, CodePoint>{
         {CodePoint{0x1E9E}, CodePoint{0x00DF}}, // ẞ -> ß
         {CodePoint{0x0130}, CodePoint{0x0069}}, // İ -> i
         {CodePoint{0x212A}, CodePoint{0x006B}}, // K -> k
@@ -381,7 +382,7 @@ inline Char ToLowercase(const Char& value)
 
 inline bool IsUppercase(const CodePoint codePoint)
 {
-    static const std::unordered_set<CodePoint> SpecialUppercase{
+    static const std::unordered_set<CodePoint>& SpecialUppercase = *new std::unordered_set<CodePoint>{
         CodePoint{0x1E9E}, // ẞ
         CodePoint{0x0130}, // İ
         CodePoint{0x212A}, // K
@@ -456,7 +457,7 @@ inline bool IsUppercase(const CodePoint codePoint)
 
 inline bool IsLowercase(const CodePoint codePoint)
 {
-    static const std::unordered_set<CodePoint> SpecialLowercase{
+    static const std::unordered_set<CodePoint>& SpecialLowercase = *new std::unordered_set<CodePoint>{
         CodePoint{0x00DF}, // ß
         CodePoint{0x0131}, // ı
         CodePoint{0x0149}  // ŉ
-- 
2.43.0


From 08f7f689bafdfe6e9f60c724387493c89a3e24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:44 +0000
Subject: [PATCH 48/51] fix: format decimals with a point in every locale

---
 include/Caitlyn/__Core/String/String.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 425543a..6ff6dd8 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <bitset>
 #include <iterator>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -732,7 +733,12 @@ private:
         template <typename T>
         static Required<IsFloating<T>(), String> ToString(const T& value)
         {
-            return std::to_string(value);
+            // As std::to_string, with a decimal point in every locale
+            std::ostringstream oss;
+            oss.exceptions(std::ios_base::badbit);
+            oss.imbue(std::locale::classic());
+            oss << std::fixed << value;
+            return oss.str();
         }
 
         template <typename T>
-- 
2.43.0


From 1972628388c449c9694286b460694627bc5cd285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:45 +0000
Subject: [PATCH 49/51] fix: make a BigFloat from a double in every locale

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index a90f1b6..ae23d5c 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -30,7 +30,7 @@ public:
 public:
     BigFloat() = default;
 
-    BigFloat(const double value) : BigFloat{std::to_string(value)}
+    BigFloat(const double value) : BigFloat{String::Format("{}", value)}
     {
     }
 
-- 
2.43.0


From 270a5437e5184d7d620d3294f66c08d562637c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:09 +0000
Subject: [PATCH 50/51] fix: write the line of a failure the same way in every
 locale

---
 include/Caitlyn/__Testing/Types/TestFailMessage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestFailMessage.h b/include/Caitlyn/__Testing/Types/TestFailMessage.h
index 3a1f04e..efffc40 100644
--- a/include/Caitlyn/__Testing/Types/TestFailMessage.h
+++ b/include/Caitlyn/__Testing/Types/TestFailMessage.h
@@ -18,6 +18,7 @@
 #ifndef CAITLYN_TEST_TYPES_TESTFAILMESSAGE_H_
 #define CAITLYN_TEST_TYPES_TESTFAILMESSAGE_H_
 
+#include <locale>
 #include <sstream>
 
 #include "Caitlyn/__Base.h"
@@ -43,6 +44,7 @@ public:
     void Fail() const
     {
         std::ostringstream oss;
+        oss.imbue(std::locale::classic());
         oss << "FAILURE: Test failed at " << file_ << ":" << line << " - " << message.str();
         throw std::runtime_error(oss.str());
     }
-- 
2.43.0


From f9058404fb616fe6a7ba8f034bb2f7793cc7f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:07 +0000
Subject: [PATCH 51/51] fix: reading strings in a loop never ends when the last
 line has no line feed

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 6ff6dd8..83b2e11 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -1044,6 +1044,10 @@ inline std::istream& operator>>(std::istream& is, Caitlyn::String& str)
         std::getline(is, input);
         str = input;
     }
+    else
+    {
+        is.setstate(std::ios_base::failbit); // As every other input that begins after the end
+    }
     return is;
 }
 
-- 
2.43.0

