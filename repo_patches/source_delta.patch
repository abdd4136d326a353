From 4eb971a116723c6301671aab87c74126fa4c939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 01/15] fix: keep file boundaries unambiguous in the source
 fingerprint

---
 tn/cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..5f2437d 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -118,9 +118,12 @@ def production_source_fingerprint(project_root=None):
         relative_path = source.relative_to(project_root).as_posix().encode("utf-8")
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
+        contents = hashlib.sha256()
         with open(source, "rb") as source_file:
             for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+                contents.update(chunk)
+        # A fixed-size content digest keeps file boundaries unambiguous.
+        digest.update(contents.digest())
     return digest.hexdigest()
 
 
-- 
2.43.0


From 77dc8f2a1e48aa62e74c5d5907cca836fe7dd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 02/15] fix: raise instead of fingerprinting only the listable
 part of the sources

---
 tn/cache.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 5f2437d..143dcff 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -96,6 +96,10 @@ def _hash_bytes(value):
     return hashlib.sha256(value).hexdigest()
 
 
+def _raise_error(error):
+    raise error
+
+
 def production_source_fingerprint(project_root=None):
     """Hashes graph-producing Python and data resources by content."""
 
@@ -103,15 +107,18 @@ def production_source_fingerprint(project_root=None):
     sources = []
     for package_name in ("tn", "itn"):
         package_root = project_root / package_name
-        for path in package_root.rglob("*"):
-            if not path.is_file() or path.suffix not in _PRODUCTION_SUFFIXES:
-                continue
-            relative_parts = path.relative_to(package_root).parts
-            if "test" in relative_parts or "__pycache__" in relative_parts:
-                continue
-            if path.name == "_version.py":
-                continue
-            sources.append(path)
+        if not package_root.exists():
+            continue
+        for directory, _, names in os.walk(os.fspath(package_root), onerror=_raise_error):
+            for path in (Path(directory) / name for name in names):
+                if path.suffix not in _PRODUCTION_SUFFIXES or not path.is_file():
+                    continue
+                relative_parts = path.relative_to(package_root).parts
+                if "test" in relative_parts or "__pycache__" in relative_parts:
+                    continue
+                if path.name == "_version.py":
+                    continue
+                sources.append(path)
 
     digest = hashlib.sha256()
     for source in sorted(sources):
-- 
2.43.0


From d00bca544dd3b05ba697f6853a89bc11d445cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 03/15] fix: treat too deeply nested cache JSON as damaged
 instead of raising RecursionError

---
 tn/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 143dcff..625ede2 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -559,7 +559,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, UnicodeError, ValueError, RecursionError):
                 return None
             if not isinstance(manifest, dict):
                 return None
@@ -654,7 +654,7 @@ class CacheBundle:
             if not isinstance(payload, dict):
                 return "non-dict owner payload"
             return repr(payload)
-        except (OSError, UnicodeError, ValueError, TypeError) as error:
+        except (OSError, UnicodeError, ValueError, TypeError, RecursionError) as error:
             return "unreadable owner payload {!r}".format(error)
 
     @staticmethod
-- 
2.43.0


From 1cc76345289a60c807a1f862769d551bacd6d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 04/15] fix: never block opening a FIFO that replaced a cache
 file

---
 tn/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 625ede2..582a561 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -283,7 +283,7 @@ def _read_regular_file(path, expected_size=None, max_size=None):
     if stat.S_ISLNK(before.st_mode) or _is_reparse_point(before) or not stat.S_ISREG(before.st_mode):
         raise CachePathError("cache file is not a regular non-link file: {}".format(path))
 
-    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0) | getattr(os, "O_NONBLOCK", 0)
     descriptor = os.open(os.fspath(path), flags)
     try:
         return _read_open_regular(
@@ -298,7 +298,7 @@ def _read_regular_file(path, expected_size=None, max_size=None):
 
 
 def _read_regular_at(directory_fd, basename, expected_size=None, max_size=None):
-    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0) | getattr(os, "O_NONBLOCK", 0)
     try:
         descriptor = os.open(basename, flags, dir_fd=directory_fd)
     except OSError as error:
-- 
2.43.0


From 82d6a764bcf593c8c3538cba7ff71cf6ef0f9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:24 +0000
Subject: [PATCH 05/15] fix: close the directory when cache cleanup is
 interrupted

---
 tn/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 582a561..0e8acd2 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -362,10 +362,10 @@ def _remove_flat_bundle_impl(path, best_effort):
             directory_fd = os.open(os.fspath(path), flags)
             if not _same_file(path_stat, os.fstat(directory_fd)):
                 raise CachePathError("cache bundle changed before cleanup: {}".format(path))
-        except (OSError, CachePathError):
+        except BaseException as error:
             if directory_fd is not None:
                 os.close(directory_fd)
-            if best_effort:
+            if best_effort and isinstance(error, (OSError, CachePathError)):
                 return False
             raise
     try:
-- 
2.43.0


From 1980252b5df649aed5d2c01a424ed6da823490d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 06/15] fix: make creating a runtime processor fail cleanly for
 unreadable graphs and unknown prefixes

wetext_create_processor() promises nullptr on failure, but a missing or damaged
graph file gave a handle that crashed on first use, and a file name without a
pipeline prefix ended the whole process.
---
 runtime/processor/wetext_processor.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/processor/wetext_processor.cc b/runtime/processor/wetext_processor.cc
index 96077b1..05adf5c 100644
--- a/runtime/processor/wetext_processor.cc
+++ b/runtime/processor/wetext_processor.cc
@@ -14,13 +14,18 @@
 
 #include "processor/wetext_processor.h"
 
-#include "utils/wetext_log.h"
+#include <stdexcept>
 
 namespace wetext {
 Processor::Processor(const std::string& tagger_path,
                      const std::string& verbalizer_path) {
   tagger_.reset(StdVectorFst::Read(tagger_path));
   verbalizer_.reset(StdVectorFst::Read(verbalizer_path));
+  if (tagger_ == nullptr || verbalizer_ == nullptr) {
+    throw std::runtime_error("cannot read fst: " + (tagger_ == nullptr
+                                                        ? tagger_path
+                                                        : verbalizer_path));
+  }
   compiler_ = std::make_shared<StringCompiler<StdArc>>();
   printer_ = std::make_shared<StringPrinter<StdArc>>();
 
@@ -37,8 +42,9 @@ Processor::Processor(const std::string& tagger_path,
   } else if (tagger_path.find("ja_itn_") != tagger_path.npos) {
     parse_type_ = ParseType::kJA_ITN;
   } else {
-    LOG(FATAL) << "Invalid fst prefix, prefix should contain"
-               << " either \"_tn_\" or \"_itn_\".";
+    throw std::invalid_argument(
+        "Invalid fst prefix, prefix should contain"
+        " either \"_tn_\" or \"_itn_\".");
   }
 }
 
-- 
2.43.0


From e8c7b3e80fca20ba847e032693b12711ea83f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 07/15] fix: never let a C++ exception leave the runtime's C
 API

Verbalizing malformed text or running out of memory threw through extern "C"
functions, which ends a C caller's process; return nullptr instead.
---
 runtime/processor/wetext_processor_c_api.cc | 8 ++++++--
 runtime/processor/wetext_processor_c_api.h  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/runtime/processor/wetext_processor_c_api.cc b/runtime/processor/wetext_processor_c_api.cc
index ec172fe..2fc334f 100644
--- a/runtime/processor/wetext_processor_c_api.cc
+++ b/runtime/processor/wetext_processor_c_api.cc
@@ -44,8 +44,12 @@ void wetext_destroy_processor(WetextProcessorHandle handle) {
 #define WETEXT_RETURN_STRING(expr)                    \
   if (!handle || !input) return nullptr;              \
   Processor* proc = static_cast<Processor*>(handle);  \
-  std::string result = (expr);                        \
-  return CopyToCString(result);
+  try {                                               \
+    std::string result = (expr);                      \
+    return CopyToCString(result);                     \
+  } catch (...) {                                     \
+    return nullptr;                                   \
+  }
 
 const char* wetext_tag(WetextProcessorHandle handle, const char* input) {
   WETEXT_RETURN_STRING(proc->Tag(input));
diff --git a/runtime/processor/wetext_processor_c_api.h b/runtime/processor/wetext_processor_c_api.h
index a51d5e0..2c41f96 100644
--- a/runtime/processor/wetext_processor_c_api.h
+++ b/runtime/processor/wetext_processor_c_api.h
@@ -31,7 +31,8 @@ WETEXT_API void wetext_destroy_processor(WetextProcessorHandle handle);
 // Processing APIs ----------------------------------------------------------
 
 // The returned C-string is heap allocated and must be released with
-// wetext_free_string() once you are done with it.
+// wetext_free_string() once you are done with it. Returns nullptr on failure,
+// for example when the text to verbalize is malformed or memory runs out.
 WETEXT_API const char* wetext_tag(WetextProcessorHandle handle, const char* input);
 WETEXT_API const char* wetext_verbalize(WetextProcessorHandle handle, const char* input);
 WETEXT_API const char* wetext_normalize(WetextProcessorHandle handle, const char* input);
-- 
2.43.0


From 27fb83a6322cd199e8c9464d4d1def5801744606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 08/15] fix: reject invalid UTF-8 in the runtime instead of
 aborting the process

---
 runtime/utils/wetext_string.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/utils/wetext_string.cc b/runtime/utils/wetext_string.cc
index 4df9ec9..9f3b033 100644
--- a/runtime/utils/wetext_string.cc
+++ b/runtime/utils/wetext_string.cc
@@ -14,14 +14,16 @@
 
 #include "utils/wetext_string.h"
 
-#include "utils/wetext_log.h"
+#include <stdexcept>
 
 namespace wetext {
 const char* WHITESPACE = " \n\r\t\f\v";
 
 int UTF8CharLength(char ch) {
   int num_bytes = 1;
-  CHECK_LE((ch & 0xF8), 0xF0);
+  if ((ch & 0xF8) > 0xF0) {
+    throw std::invalid_argument("invalid UTF-8 lead byte");
+  }
   if ((ch & 0x80) == 0x00) {
     // The first 128 characters (US-ASCII) in UTF-8 format only need one byte.
     num_bytes = 1;
-- 
2.43.0


From 09778585db44cba07cd9343385a47db7406513b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:45 +0000
Subject: [PATCH 09/15] fix: let the runtime's command line report unreadable
 input and unwritable output

A file that could not be opened or read, or output that could not be written,
ended with exit status 0 as if everything had been answered.
---
 runtime/bin/processor_main.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/bin/processor_main.cc b/runtime/bin/processor_main.cc
index 5ed8e4c..44c0353 100644
--- a/runtime/bin/processor_main.cc
+++ b/runtime/bin/processor_main.cc
@@ -45,6 +45,9 @@ int main(int argc, char* argv[]) {
 
   if (!FLAGS_file.empty()) {
     std::ifstream file(FLAGS_file);
+    if (!file.is_open()) {
+      LOG(FATAL) << "Cannot open " << FLAGS_file;
+    }
     std::string line;
     while (getline(file, line)) {
       std::string tagged_text = processor.Tag(line);
@@ -52,6 +55,12 @@ int main(int argc, char* argv[]) {
       std::string normalized_text = processor.Verbalize(tagged_text);
       std::cout << normalized_text << std::endl;
     }
+    if (file.bad()) {
+      LOG(FATAL) << "Cannot read " << FLAGS_file;
+    }
+  }
+  if (!std::cout) {
+    LOG(FATAL) << "Cannot write the output.";
   }
   return 0;
 }
-- 
2.43.0


From 663649ef0eadfee20d990a8f7fdf151db0876fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 10/15] fix: convert Java strings in the Android binding
 without borrowing them

GetStringUTFChars lends a copy that was never released, so every call leaked
its text, and its modified UTF-8 spells characters outside the basic plane as
surrogates, which the graphs do not know; NewStringUTF has the same limits for
the answer.  Convert from and to UTF-16 instead.
---
 runtime/bindings/android/wetextprocessing.cc | 75 +++++++++++++++++---
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/runtime/bindings/android/wetextprocessing.cc b/runtime/bindings/android/wetextprocessing.cc
index 3544cfc..73d3114 100644
--- a/runtime/bindings/android/wetextprocessing.cc
+++ b/runtime/bindings/android/wetextprocessing.cc
@@ -13,6 +13,9 @@
 // limitations under the License.
 #include <jni.h>
 
+#include <memory>
+#include <string>
+
 #include "processor/wetext_processor.h"
 #include "utils/wetext_flags.h"
 #include "utils/wetext_string.h"
@@ -22,32 +25,86 @@ namespace wetextprocessing {
 std::shared_ptr<wetext::Processor> processorTN;
 std::shared_ptr<wetext::Processor> processorITN;
 
+// Java strings are UTF-16. The "UTF" functions of JNI lend a copy that has to
+// be given back, in a modified UTF-8 with other bytes for characters outside
+// the basic plane than the graphs expect.
+std::string ToUTF8(JNIEnv* env, jstring str) {
+  const jsize length = env->GetStringLength(str);
+  std::u16string units(length, u'\0');
+  env->GetStringRegion(str, 0, length, reinterpret_cast<jchar*>(&units[0]));
+
+  std::string output;
+  for (size_t i = 0; i < units.size(); ++i) {
+    char32_t c = units[i];
+    if (c >= 0xD800 && c <= 0xDFFF) {
+      const bool paired = c < 0xDC00 && i + 1 < units.size() &&
+                          units[i + 1] >= 0xDC00 && units[i + 1] <= 0xDFFF;
+      c = paired ? 0x10000 + ((c - 0xD800) << 10) + (units[++i] - 0xDC00)
+                 : 0xFFFD;
+    }
+    if (c < 0x80) {
+      output.push_back(static_cast<char>(c));
+      continue;
+    }
+    const int trailing = c < 0x800 ? 1 : c < 0x10000 ? 2 : 3;
+    const int lead = trailing == 1 ? 0xC0 : trailing == 2 ? 0xE0 : 0xF0;
+    output.push_back(static_cast<char>(lead | (c >> (6 * trailing))));
+    for (int k = trailing - 1; k >= 0; --k) {
+      output.push_back(static_cast<char>(0x80 | ((c >> (6 * k)) & 0x3F)));
+    }
+  }
+  return output;
+}
+
+jstring ToJava(JNIEnv* env, const std::string& str) {
+  std::u16string units;
+  for (size_t i = 0; i < str.size();) {
+    const int num_bytes = wetext::UTF8CharLength(str[i]);
+    char32_t c = static_cast<unsigned char>(str[i]);
+    if (num_bytes > 1) {
+      c &= 0x7F >> num_bytes;
+      for (int k = 1; k < num_bytes && i + k < str.size(); ++k) {
+        c = (c << 6) | (static_cast<unsigned char>(str[i + k]) & 0x3F);
+      }
+    }
+    i += num_bytes;
+    if (c < 0x10000) {
+      units.push_back(static_cast<char16_t>(c));
+    } else {
+      units.push_back(static_cast<char16_t>(0xD800 + ((c - 0x10000) >> 10)));
+      units.push_back(static_cast<char16_t>(0xDC00 + ((c - 0x10000) & 0x3FF)));
+    }
+  }
+  return env->NewString(reinterpret_cast<const jchar*>(units.data()),
+                        static_cast<jsize>(units.size()));
+}
+
 void init(JNIEnv* env, jobject, jstring jModelDir) {
-  const char* pModelDir = env->GetStringUTFChars(jModelDir, nullptr);
+  const std::string modelDir = ToUTF8(env, jModelDir);
 
-  std::string tnTagger = std::string(pModelDir) + "/zh_tn_tagger.fst";
-  std::string tnVerbalizer = std::string(pModelDir) + "/zh_tn_verbalizer.fst";
+  std::string tnTagger = modelDir + "/zh_tn_tagger.fst";
+  std::string tnVerbalizer = modelDir + "/zh_tn_verbalizer.fst";
   processorTN = std::make_shared<wetext::Processor>(tnTagger, tnVerbalizer);
 
-  std::string itnTagger = std::string(pModelDir) + "/zh_itn_tagger.fst";
-  std::string itnVerbalizer = std::string(pModelDir) + "/zh_itn_verbalizer.fst";
+  std::string itnTagger = modelDir + "/zh_itn_tagger.fst";
+  std::string itnVerbalizer = modelDir + "/zh_itn_verbalizer.fst";
   processorITN = std::make_shared<wetext::Processor>(itnTagger, itnVerbalizer);
 }
 
 jstring normalize(JNIEnv* env, jobject, jstring input) {
-  std::string input_text = std::string(env->GetStringUTFChars(input, nullptr));
+  std::string input_text = ToUTF8(env, input);
   std::string tagged_text = processorTN->Tag(input_text);
   std::string normalized_text = processorTN->Verbalize(tagged_text);
 
-  return env->NewStringUTF(normalized_text.c_str());
+  return ToJava(env, normalized_text);
 }
 
 jstring inverse_normalize(JNIEnv* env, jobject, jstring input) {
-  std::string input_text = std::string(env->GetStringUTFChars(input, nullptr));
+  std::string input_text = ToUTF8(env, input);
   std::string tagged_text = processorITN->Tag(input_text);
   std::string normalized_text = processorITN->Verbalize(tagged_text);
 
-  return env->NewStringUTF(normalized_text.c_str());
+  return ToJava(env, normalized_text);
 }
 }  // namespace wetextprocessing
 
-- 
2.43.0


From 8c11782a5cade32fd15c014468a4e44bad160fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 11/15] fix: report failures in the Android binding as Java
 exceptions

A null string, an unreadable model, a call before init or a failing
allocation or JNI call dereferenced null or let a C++ exception out of a
native method, which ends the whole application.  Leave a Java exception
pending, and replace the processors only once both could be created.
---
 runtime/bindings/android/wetextprocessing.cc | 82 +++++++++++++++-----
 1 file changed, 63 insertions(+), 19 deletions(-)

diff --git a/runtime/bindings/android/wetextprocessing.cc b/runtime/bindings/android/wetextprocessing.cc
index 73d3114..3aa80dd 100644
--- a/runtime/bindings/android/wetextprocessing.cc
+++ b/runtime/bindings/android/wetextprocessing.cc
@@ -13,7 +13,9 @@
 // limitations under the License.
 #include <jni.h>
 
+#include <exception>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 #include "processor/wetext_processor.h"
@@ -25,13 +27,22 @@ namespace wetextprocessing {
 std::shared_ptr<wetext::Processor> processorTN;
 std::shared_ptr<wetext::Processor> processorITN;
 
+// A JNI call has failed and left its own Java exception pending.
+class PendingException : public std::exception {};
+
 // Java strings are UTF-16. The "UTF" functions of JNI lend a copy that has to
 // be given back, in a modified UTF-8 with other bytes for characters outside
 // the basic plane than the graphs expect.
 std::string ToUTF8(JNIEnv* env, jstring str) {
+  if (str == nullptr) {
+    throw std::invalid_argument("the string must not be null");
+  }
   const jsize length = env->GetStringLength(str);
   std::u16string units(length, u'\0');
   env->GetStringRegion(str, 0, length, reinterpret_cast<jchar*>(&units[0]));
+  if (env->ExceptionCheck()) {
+    throw PendingException();
+  }
 
   std::string output;
   for (size_t i = 0; i < units.size(); ++i) {
@@ -75,36 +86,69 @@ jstring ToJava(JNIEnv* env, const std::string& str) {
       units.push_back(static_cast<char16_t>(0xDC00 + ((c - 0x10000) & 0x3FF)));
     }
   }
-  return env->NewString(reinterpret_cast<const jchar*>(units.data()),
-                        static_cast<jsize>(units.size()));
+  jstring output = env->NewString(reinterpret_cast<const jchar*>(units.data()),
+                                  static_cast<jsize>(units.size()));
+  if (output == nullptr) {
+    throw PendingException();
+  }
+  return output;
+}
+
+// Turns the C++ exception being handled, which must not leave a native method,
+// into a Java exception.
+void ThrowJava(JNIEnv* env) {
+  try {
+    throw;
+  } catch (const PendingException&) {
+  } catch (const std::exception& e) {
+    jclass c = env->FindClass("java/lang/RuntimeException");
+    if (c != nullptr) {
+      env->ThrowNew(c, e.what());
+    }
+  }
 }
 
 void init(JNIEnv* env, jobject, jstring jModelDir) {
-  const std::string modelDir = ToUTF8(env, jModelDir);
+  try {
+    const std::string modelDir = ToUTF8(env, jModelDir);
 
-  std::string tnTagger = modelDir + "/zh_tn_tagger.fst";
-  std::string tnVerbalizer = modelDir + "/zh_tn_verbalizer.fst";
-  processorTN = std::make_shared<wetext::Processor>(tnTagger, tnVerbalizer);
+    std::string tnTagger = modelDir + "/zh_tn_tagger.fst";
+    std::string tnVerbalizer = modelDir + "/zh_tn_verbalizer.fst";
+    auto tn = std::make_shared<wetext::Processor>(tnTagger, tnVerbalizer);
 
-  std::string itnTagger = modelDir + "/zh_itn_tagger.fst";
-  std::string itnVerbalizer = modelDir + "/zh_itn_verbalizer.fst";
-  processorITN = std::make_shared<wetext::Processor>(itnTagger, itnVerbalizer);
+    std::string itnTagger = modelDir + "/zh_itn_tagger.fst";
+    std::string itnVerbalizer = modelDir + "/zh_itn_verbalizer.fst";
+    auto itn = std::make_shared<wetext::Processor>(itnTagger, itnVerbalizer);
+
+    processorTN = tn;
+    processorITN = itn;
+  } catch (...) {
+    ThrowJava(env);
+  }
 }
 
-jstring normalize(JNIEnv* env, jobject, jstring input) {
-  std::string input_text = ToUTF8(env, input);
-  std::string tagged_text = processorTN->Tag(input_text);
-  std::string normalized_text = processorTN->Verbalize(tagged_text);
+jstring process(JNIEnv* env, wetext::Processor* processor, jstring input) {
+  try {
+    if (processor == nullptr) {
+      throw std::runtime_error("init must succeed first");
+    }
+    std::string input_text = ToUTF8(env, input);
+    std::string tagged_text = processor->Tag(input_text);
+    std::string normalized_text = processor->Verbalize(tagged_text);
+
+    return ToJava(env, normalized_text);
+  } catch (...) {
+    ThrowJava(env);
+    return nullptr;
+  }
+}
 
-  return ToJava(env, normalized_text);
+jstring normalize(JNIEnv* env, jobject, jstring input) {
+  return process(env, processorTN.get(), input);
 }
 
 jstring inverse_normalize(JNIEnv* env, jobject, jstring input) {
-  std::string input_text = ToUTF8(env, input);
-  std::string tagged_text = processorITN->Tag(input_text);
-  std::string normalized_text = processorITN->Verbalize(tagged_text);
-
-  return ToJava(env, normalized_text);
+  return process(env, processorITN.get(), input);
 }
 }  // namespace wetextprocessing
 
-- 
2.43.0


From 7b2ccc28c2a3f3841de4ed2b9db1f969734a5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:20 +0000
Subject: [PATCH 12/15] fix: unlock the cache entry when the lock holder fails
 early

A constructor that failed between acquiring the lock and its build (the owner
record could not be written, an interrupt) only closed the descriptor.  A child
forked meanwhile by another thread shares the open description, so the entry
stayed locked for everybody until that child ended.
---
 tn/cache.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 0e8acd2..2fe6685 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -696,16 +696,17 @@ class CacheBundle:
                     "token": uuid.uuid4().hex,
                 },
             )
+            yield
+        finally:
+            # Closing releases the lock only once no forked child shares the
+            # descriptor, so unlock explicitly however the lock was left.
             try:
-                yield
-            finally:
-                try:
+                if acquired:
                     _release_advisory_lock(descriptor)
-                except OSError:
-                    pass
-                acquired = False
-        finally:
-            os.close(descriptor)
+            except OSError:
+                pass
+            finally:
+                os.close(descriptor)
 
     def remove_invalid(self):
         """Quarantines exactly this non-link bundle under ``lock()``."""
-- 
2.43.0


From 2702630b642ee4da4543e41f52f668222f0d3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:44 +0000
Subject: [PATCH 13/15] fix: recover the latest replaced cache bundle by number

Among several kept bundles the one with the latest time stamp was taken to be
the newest.  File systems with coarse time stamps and clocks that were set back
made a crash bring an older build of the entry back.
---
 tn/cache.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 2fe6685..02e5a4d 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -740,7 +740,7 @@ class CacheBundle:
 
         if not os.path.lexists(os.fspath(self.path)):
             previous = [path for path in residuals if path.name.startswith(prefixes[1])]
-            previous.sort(key=lambda path: os.lstat(os.fspath(path)).st_mtime, reverse=True)
+            previous.sort(key=self._previous_order, reverse=True)
             for candidate in previous:
                 if self._load_path(candidate) is not None:
                     self._replace_with_retry(candidate, self.path, "recovering previous cache bundle")
@@ -751,6 +751,14 @@ class CacheBundle:
         for residual in residuals:
             _remove_flat_bundle(residual, best_effort=True)
 
+    def _previous_order(self, path):
+        """Orders replaced bundles by age, by number since clocks can be coarse or set back."""
+
+        number, dash, _ = path.name[len(".{}.previous-".format(self.bundle_digest)):].partition("-")
+        if dash and number.isdecimal():
+            return int(number), 0.0
+        return 0, os.lstat(os.fspath(path)).st_mtime
+
     @staticmethod
     def _replace_with_retry(source, destination, operation):
         deadline = time.monotonic() + 2.0
@@ -801,7 +809,9 @@ class CacheBundle:
 
             if os.path.lexists(os.fspath(self.path)):
                 self._check_bundle_directory(self.path)
-                previous = self.parent / ".{}.previous-{}".format(self.bundle_digest, uuid.uuid4().hex)
+                prefix = ".{}.previous-".format(self.bundle_digest)
+                kept = [self._previous_order(path)[0] for path in self.parent.iterdir() if path.name.startswith(prefix)]
+                previous = self.parent / "{}{:06d}-{}".format(prefix, max(kept, default=0) + 1, uuid.uuid4().hex)
                 self._replace_with_retry(self.path, previous, "moving the current cache bundle")
             try:
                 self._replace_with_retry(temporary, self.path, "publishing the new cache bundle")
-- 
2.43.0


From 1a6ae820fc1a8102d72417403d32d788a5f538a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:35 +0000
Subject: [PATCH 14/15] fix: a bundle replaced while it is opened is a cache
 miss

On Windows a reader looks at a cache file and then opens it. A forced
rebuild that replaced the bundle in between made the reader's
constructor fail with CachePathError instead of missing the cache.
---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 02e5a4d..d82b631 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -249,7 +249,7 @@ def _read_open_regular(descriptor, display_path, expected_size=None, max_size=No
     if not stat.S_ISREG(opened.st_mode) or _is_reparse_point(opened):
         raise CachePathError("cache file is not regular: {}".format(display_path))
     if expected_stat is not None and not _same_file(expected_stat, opened):
-        raise CachePathError("cache file changed while opening: {}".format(display_path))
+        raise CacheIntegrityError("cache file changed while opening: {}".format(display_path))
     size = opened.st_size
     if not isinstance(size, int) or isinstance(size, bool) or size < 0 or size > sys.maxsize:
         raise CacheIntegrityError("cache file has an invalid size: {}".format(display_path))
-- 
2.43.0


From efbffb7705b43caa711d9c34a9f525b7029575b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:35 +0000
Subject: [PATCH 15/15] fix: constructors that create a lock file at once on
 Windows

Both find it empty and one writes its first byte while the other has
already locked it. Locks are mandatory there, so that the write, and
with it the constructor, failed with PermissionError.
---
 tn/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index d82b631..e5ea38a 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -630,8 +630,13 @@ class CacheBundle:
                 raise CachePathError("cache lock anchor is not a regular file: {}".format(self.lock_path))
             if anchor_stat.st_size == 0:
                 os.lseek(descriptor, 0, os.SEEK_SET)
-                _write_all(descriptor, b"\0")
-                os.fsync(descriptor)
+                try:
+                    _write_all(descriptor, b"\0")
+                    os.fsync(descriptor)
+                except OSError as error:
+                    # Windows locks are mandatory: whoever holds the byte wrote it.
+                    if os.name != "nt" or not _lock_is_busy(error):
+                        raise
             return descriptor
         except BaseException:
             os.close(descriptor)
-- 
2.43.0

