From cdfd3063cef18c72f042ee55533ae924977aab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:45 +0000
Subject: [PATCH 01/78] fix: read an empty value for a list index below one

---
 dist/vxlisp/vx/core.vxlisp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index b83dca2..0ae078c 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1552,14 +1552,14 @@
    "long intindex = index->vx_int();
     vx_core::vx_Type_listany listvalue = values->vx_list();
     long intsize = vx_core::vx_int_from_sizet(listvalue.size());
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       vx_core::Type_any value = listvalue[intindex - 1];
       output = vx_core::vx_any_from_any(generic_any_1, value);
     }"
   :csharp
    "int intindex = index.vx_int();
     int intsize = values.vx_list().Count;
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       List<Vx.Core.Type_any> listvalue = values.vx_list();
       Vx.Core.Type_any value = listvalue[intindex - 1];
       output = Vx.Core.f_any_from_any(generic_any_1, value);
@@ -1567,19 +1567,19 @@
   :java
    "int intindex = index.vx_int();
     int intsize = values.vx_list().size();
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       List<Core.Type_any> listvalue = values.vx_list();
       Core.Type_any value = listvalue.get(intindex - 1);
       output = Core.f_any_from_any(generic_any_1, value);
     }"
   :js
-   "if (index <= values.length) {
+   "if (index > 0 && index <= values.length) {
       output = values[index - 1]
     }"
   :kotlin
    "val intindex : Int = index.vx_int()
     val intsize : Int = values.vx_list().size
-    if (intindex <= intsize) {
+    if (intindex > 0 && intindex <= intsize) {
       val listvalue : List<vx_core.Type_any> = values.vx_list()
       val value : vx_core.Type_any = listvalue.get(intindex - 1)
       output = vx_core.f_any_from_any(generic_any_1, value)
-- 
2.43.0


From 4481de2646f2b04ad513ffa5aeef4e827d0f09a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:45 +0000
Subject: [PATCH 02/78] fix: compare every argument in variadic equality

---
 dist/vxlisp/vx/core.vxlisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 0ae078c..f2fa1a6 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1193,7 +1193,7 @@
  [values : anylist :...]
  (any<-list-start-reduce-next : boolean
   values
-  false
+  true
   (fn : boolean
    [reduce  : boolean
     current : any
-- 
2.43.0


From ac02aa5ff1660c32ffbb770451c02cb5ac8ebafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:45 +0000
Subject: [PATCH 03/78] fix: check each neighbouring pair in variadic <= and >=

---
 dist/vxlisp/vx/core.vxlisp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index f2fa1a6..2c6e7e7 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1305,7 +1305,14 @@
 
 (func <= : boolean
  [args : anylist :...]
- (! (> args))
+ (any<-list-start-reduce-next : boolean
+  args
+  true
+  (fn : boolean
+   [reduce  : boolean
+    current : any
+    next    : any]
+   (and reduce (<= current next))))
  :alias "le"
  :test  (test-true (<= "b" "d" "z"))
  :doc   "Returns true if the first arg is less or equal than all of the other args")
@@ -1381,7 +1388,14 @@
 
 (func >= : boolean
  [args : anylist :...]
- (! (< args))
+ (any<-list-start-reduce-next : boolean
+  args
+  true
+  (fn : boolean
+   [reduce  : boolean
+    current : any
+    next    : any]
+   (and reduce (>= current next))))
  :alias "ge"
  :test  (test-true (>= "z" "b" "b"))
  :doc   "Returns true if the first arg is greater or equal than all of the other args")
-- 
2.43.0


From d4efa2a39a0db561ad285e84773ca16e06ace011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:45 +0000
Subject: [PATCH 04/78] fix: return the only argument of a one-argument or

---
 dist/vxlisp/vx/core.vxlisp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 2c6e7e7..1f032d8 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -3198,14 +3198,19 @@
 
 (func or : boolean
  [values : booleanlist :...]
- (any<-list-start-reduce-next : boolean
-  values
-  false
-  (fn : boolean
-   [reduce  : boolean
-    current : boolean
-    next    : boolean]
-   (or reduce (or current next))))
+ (switch : boolean
+  (length values)
+  (case 1 (:1 values))
+  (else
+   (any<-list-start-reduce-next : boolean
+    values
+    false
+    (fn : boolean
+     [reduce  : boolean
+      current : boolean
+      next    : boolean]
+     (or reduce (or current next)))
+   )))
  :doc  "Returns true if any value is true"
  :test (test-true (or false true false))
        (test-false (or false false false)))
-- 
2.43.0


From 9706c71cdf977af64cc0c0ad2ff0c010466e5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:43 +0000
Subject: [PATCH 05/78] fix: keep all of a long text when changing case or
 trimming in C++

---
 dist/vxlisp/vx/type_cpp.txt | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/type_cpp.txt b/dist/vxlisp/vx/type_cpp.txt
index 6e63e96..16d93cf 100644
--- a/dist/vxlisp/vx/type_cpp.txt
+++ b/dist/vxlisp/vx/type_cpp.txt
@@ -130,7 +130,6 @@
   // vx_string_lowercase(string)
   vx_core::Type_string vx_string_lowercase(vx_core::Type_string text) {
     std::string stext = text->vx_string();
-    stext = stext.substr(0, sizeof stext);
     std::transform(stext.begin(), stext.end(), stext.begin(), ::tolower);
     vx_core::Type_string output = vx_core::vx_new_string(stext);
     return output;
@@ -138,8 +137,8 @@
 
   // vx_string_trim(string)
   vx_core::Type_string vx_string_trim(vx_core::Type_string text) {
-    std::string_view stext = text->vx_string();
-    stext = stext.substr(0, sizeof stext);
+    std::string stringtext = text->vx_string();
+    std::string_view stext = stringtext;
     stext.remove_prefix(std::min(stext.find_first_not_of(" \t\r\v\n"), stext.size()));
     stext.remove_suffix(std::min(stext.size() - stext.find_last_not_of(" \t\r\v\n") - 1, stext.size()));
     vx_core::Type_string output = vx_core::vx_new_string(static_cast<std::string>(stext));
@@ -149,7 +148,6 @@
   // vx_string_uppercase(string)
   vx_core::Type_string vx_string_uppercase(vx_core::Type_string text) {
     std::string stext = text->vx_string();
-    stext = stext.substr(0, sizeof stext);
     std::transform(stext.begin(), stext.end(), stext.begin(), ::toupper);
     vx_core::Type_string output = vx_core::vx_new_string(stext);
     return output;
-- 
2.43.0


From a4bd2240e93044386729f7d1bde9e6d29f813b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:43 +0000
Subject: [PATCH 06/78] fix: end a C++ split by an empty delimiter

---
 dist/vxlisp/vx/type_cpp.txt | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/type_cpp.txt b/dist/vxlisp/vx/type_cpp.txt
index 16d93cf..a76f4d6 100644
--- a/dist/vxlisp/vx/type_cpp.txt
+++ b/dist/vxlisp/vx/type_cpp.txt
@@ -160,7 +160,12 @@
     vx_core::vx_Type_listany listany;
     size_t pos = 0;
     std::string stoken;
-    while ((pos = stext.find(sdelim)) != std::string::npos) {
+    if (sdelim == "") {
+      while (stext.length() > 1) {
+        listany.push_back(vx_core::vx_new_string(stext.substr(0, 1)));
+        stext.erase(0, 1);
+      }
+    } else while ((pos = stext.find(sdelim)) != std::string::npos) {
       stoken = stext.substr(0, pos);
       vx_core::Type_string token = vx_core::vx_new_string(stoken);
       listany.push_back(token);
-- 
2.43.0


From db9c6c7c839231469e5db572653f660eefe07da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:43 +0000
Subject: [PATCH 07/78] fix: keep trailing empty parts of a Java split

---
 dist/vxlisp/vx/type_java.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/type_java.txt b/dist/vxlisp/vx/type_java.txt
index 330fd03..bcfcae4 100644
--- a/dist/vxlisp/vx/type_java.txt
+++ b/dist/vxlisp/vx/type_java.txt
@@ -105,7 +105,7 @@
     Core.Type_stringlist output = Core.e_stringlist;
     String stext = text.vx_string();
     String sdelim = delim.vx_string();
-    Object[] arraystring = stext.split(java.util.regex.Pattern.quote(sdelim));
+    Object[] arraystring = stext.split(java.util.regex.Pattern.quote(sdelim), sdelim.isEmpty() ? 0 : -1);
     output = Core.vx_new(Core.t_stringlist, arraystring);
     return output;
   }
-- 
2.43.0


From f51dbf17eb26cf39e04e9043dd1c029f34ac5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:03 +0000
Subject: [PATCH 08/78] fix: find and replace literal text in Java and
 JavaScript

---
 dist/vxlisp/vx/core_java.txt | 5 ++++-
 dist/vxlisp/vx/core_js.txt   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index cb447c1..92226bb 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -1240,7 +1240,10 @@
     final String find,
     final String replace
   ) {
-    String output = text.replaceAll(find, replace);
+    String output = text;
+    if (!find.isEmpty()) {
+      output = text.replace(find, replace);
+    }
     return output;
   }
 
diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 5f62151..989aa52 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -1458,7 +1458,10 @@
     find,
     replace
   ) {
-    const output = text.replaceAll(find, replace);
+    let output = text
+    if (find != '') {
+      output = text.replaceAll(find, () => replace)
+    }
     return output;
   }
 
-- 
2.43.0


From ef06f5fc19fad6dd53333f20c72b411e37f4d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:42 +0000
Subject: [PATCH 09/78] fix: keep empty text in JavaScript string lists

---
 dist/vxlisp/vx/core_js.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 989aa52..95ab385 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -921,7 +921,7 @@
           if (allowany) {
             listvals.push(value)
             isfound = true
-          } else if (vx_core.f_is_empty(value)) {
+          } else if ((value !== '') && vx_core.f_is_empty(value)) {
             isfound = true
           } else if (typedef == valuetype) {
             listvals.push(...value)
-- 
2.43.0


From 0db722976d65eba6ea2d6dbe9497dc5611747653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:16 +0000
Subject: [PATCH 10/78] fix: return the empty value when a cast to a primitive
 type fails

---
 dist/vxlisp/vx/core.vxlisp   |  2 +-
 dist/vxlisp/vx/core_cpp.txt  |  3 +++
 dist/vxlisp/vx/core_java.txt | 16 +++++++++++++++-
 dist/vxlisp/vx/core_js.txt   | 31 +++++++++++++++++++++++++++++++
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 1f032d8..d9610ea 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1491,7 +1491,7 @@
       output = tval;
     }"
   :js
-   "value")
+   "vx_core.vx_any_from_any(generic_any_1, value)")
  :doc "Function Type taking any value any-2 and returning generic any-1")
 
 (func any<-any-async : any-1
diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 7969216..4a109fa 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -600,6 +600,9 @@ let-async
     T* generic_any_1,
     vx_core::Type_any val) {
     T* output = dynamic_cast<T*>(val);
+    if (!output && val) {
+      output = dynamic_cast<T*>(generic_any_1->vx_empty());
+    }
     return output;
   }
 
diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index 92226bb..621f5c7 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -220,7 +220,21 @@
     final U value
   ) {
     T output = Core.f_empty(generic_any_1);
-    output = (T)value;
+    boolean iscast = true;
+    if (generic_any_1 instanceof Core.Type_boolean) {
+      iscast = value instanceof Core.Type_boolean;
+    } else if (generic_any_1 instanceof Core.Type_decimal) {
+      iscast = value instanceof Core.Type_decimal;
+    } else if (generic_any_1 instanceof Core.Type_float) {
+      iscast = value instanceof Core.Type_float;
+    } else if (generic_any_1 instanceof Core.Type_int) {
+      iscast = value instanceof Core.Type_int;
+    } else if (generic_any_1 instanceof Core.Type_string) {
+      iscast = value instanceof Core.Type_string;
+    }
+    if (iscast) {
+      output = (T)value;
+    }
     return output;
   }
 
diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 95ab385..c4d7316 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -1,3 +1,34 @@
+  // vx_any_from_any(generic_any_1, any-2)
+  static vx_any_from_any(
+    generic_any_1,
+    value
+  ) {
+    let output = value
+    let typeofname = ''
+    switch (generic_any_1) {
+    case vx_core.t_boolean:
+      typeofname = 'boolean'
+      break
+    case vx_core.t_decimal:
+    case vx_core.t_float:
+    case vx_core.t_int:
+      typeofname = 'number'
+      break
+    case vx_core.t_string:
+      typeofname = 'string'
+      break
+    }
+    if (typeofname != '') {
+      const valuetypeof = typeof value
+      if (valuetypeof != typeofname) {
+        if (valuetypeof != 'object' || Array.isArray(value) || value === vx_core.e_any) {
+          output = vx_core.f_empty(generic_any_1)
+        }
+      }
+    }
+    return output
+  }
+
   // vx_any_from_func(generic_any_1, func, args...)
   static vx_any_from_func(
     generic_any_1,
-- 
2.43.0


From c3c1c4bdf1c5506b40f9f8399ab14a0bb25c0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:27 +0000
Subject: [PATCH 11/78] fix: divide zero and divide by zero alike on every
 target

---
 dist/vxlisp/vx/core.vxlisp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index d9610ea..2399d0f 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1077,8 +1077,7 @@
   :cpp
    "float float1 = vx_core::vx_float_from_number(num1);
     float float2 = vx_core::vx_float_from_number(num2);
-    if (float1 == 0) {
-    } else if (float2 == 0) {
+    if (float2 == 0) {
       output = vx_core::c_notanumber;
     } else {
       float result = float1 / float2;
@@ -1087,8 +1086,7 @@
   :csharp
    "float float1 = Vx.Core.vx_float_from_number(num1);
     float float2 = Vx.Core.vx_float_from_number(num2);
-    if (float1 == 0) {
-    } else if (float2 == 0) {
+    if (float2 == 0) {
       output = Vx.Core.c_notanumber;
     } else {
       float result = float1 / float2;
@@ -1097,20 +1095,22 @@
   :java
    "float float1 = Core.vx_float_from_number(num1);
     float float2 = Core.vx_float_from_number(num2);
-    if (float1 == 0) {
-    } else if (float2 == 0) {
+    if (float2 == 0) {
       output = Core.c_notanumber;
     } else {
       float result = float1 / float2;
       output = Core.vx_new_float(result);
     }"
   :js
-   "num1 / num2"
+   "if (num2 == 0) {
+      output = vx_core.c_notanumber
+    } else {
+      output = num1 / num2
+    }"
   :kotlin
    "val float1 : Float = vx_core.vx_float_from_number(num1)
     val float2 : Float = vx_core.vx_float_from_number(num2)
-    if (float1 == 0f) {
-    } else if (float2 == 0f) {
+    if (float2 == 0f) {
       output = vx_core.c_notanumber
     } else {
       val result : Float = float1 / float2
-- 
2.43.0


From 8fc3a2e57620559cd013f28db4399c61b50fcb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:27 +0000
Subject: [PATCH 12/78] fix: deny a C++ call without permission

---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f581a86..2ec6e03 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -981,7 +981,7 @@ func CppBodyFromFunc(
 	permissiontop := ""
 	permissionbottom := ""
 	if fnc.permission {
-		permissiontop = lineindent + "if (vx_core::f_boolean_permission_from_func(context, " + fulltname + ")) {"
+		permissiontop = lineindent + "if (vx_core::f_boolean_permission_from_func(context, " + fulltname + ")->vx_boolean()) {"
 		permissionbottom = "" +
 			lineindent + "} else {" +
 			lineindent + "  vx_core::Type_msg msg = vx_core::vx_msg_from_errortext(\"Permission Denied: " + fnc.name + "\");" +
-- 
2.43.0


From 1d00360fbfe01e5b289e7017442e14b0bb23df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:13 +0000
Subject: [PATCH 13/78] fix: return text that mentions output from a function

---
 src/vxlisp/lang-cpp.go  | 5 +++--
 src/vxlisp/lang-func.go | 5 +++--
 src/vxlisp/lang-js.go   | 5 +++--
 src/vxlisp/value.go     | 7 +++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 2ec6e03..19949ca 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1000,8 +1000,9 @@ func CppBodyFromFunc(
 	lineindent = "\n" + indent
 	valuetext = vx_core.V_stringn_from_liststringn_joinn(
 		chgvaluetexts, "\n")
-	if vx_core.V_intn_from_stringn_findn(valuetext, "output ") >= 0 {
-	} else if vx_core.V_intn_from_stringn_findn(valuetext, "output->") >= 0 {
+	isnative := FuncIsNative(fnc)
+	if isnative && vx_core.V_intn_from_stringn_findn(valuetext, "output ") >= 0 {
+	} else if isnative && vx_core.V_intn_from_stringn_findn(valuetext, "output->") >= 0 {
 	} else if fnc.vxtype.name == "none" {
 	} else if valuetext == "" {
 	} else {
diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 8f13fc0..3635b47 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -342,8 +342,9 @@ func LangFuncFFunc(
 		}
 		valuetext = vx_core.V_stringn_from_liststringn_joinn(
 			chgvaluetexts, "\n")
-		if vx_core.V_intn_from_stringn_findn(valuetext, "output ") >= 0 {
-		} else if vx_core.V_intn_from_stringn_findn(valuetext, "output.") >= 0 {
+		isnative := FuncIsNative(fnc)
+		if isnative && vx_core.V_intn_from_stringn_findn(valuetext, "output ") >= 0 {
+		} else if isnative && vx_core.V_intn_from_stringn_findn(valuetext, "output.") >= 0 {
 		} else if fnc.vxtype.name == "none" {
 		} else if valuetext == "" {
 		} else {
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b3faac2..8ca6356 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -332,8 +332,9 @@ func JsFromFunc(
 		false,
 		path)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
-	if strings.Index(valuetext, "output ") > 0 {
-	} else if strings.Index(valuetext, "output.") > 0 {
+	isnative := FuncIsNative(fnc)
+	if isnative && strings.Index(valuetext, "output ") > 0 {
+	} else if isnative && strings.Index(valuetext, "output.") > 0 {
 	} else if fnc.vxtype.name == "none" {
 	} else if valuetext == "" {
 	} else {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index eeac384..d8868e8 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -127,6 +127,13 @@ func FloatFromValue(value vxvalue) float64 {
 	return output
 }
 
+// FuncIsNative returns true if the func's value is a (native) clause
+func FuncIsNative(
+	fnc *vxfunc) bool {
+	value := fnc.value
+	return value.code == ":func" && value.name == "native"
+}
+
 func FuncFromValue(value vxvalue) *vxfunc {
 	var output *vxfunc
 	switch value.code {
-- 
2.43.0


From 68ca7563e69c8bf61be7dfd5e38ffec2025a0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:57 +0000
Subject: [PATCH 14/78] fix: keep the key order of C++ maps

---
 dist/vxlisp/vx/core_cpp.txt | 14 ++++++++++++--
 src/vxlisp/lang-cpp.go      |  5 +++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 4a109fa..9b1f90b 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -1614,6 +1614,16 @@ let-async
       output = generic_map_1->vx_new_from_map(
         mapnew
       );
+      if (output != generic_map_1->vx_empty()) {
+        vx_core::Type_map outmap = vx_core::vx_any_from_any(
+          vx_core::t_map, output);
+        outmap->vx_p_keys.clear();
+        for (std::string key : valuemap->vx_p_keys) {
+          if (mapnew.contains(key)) {
+            outmap->vx_p_keys.push_back(key);
+          }
+        }
+      }
     }
     return output;
   }
@@ -2213,8 +2223,8 @@ let-async
           long indentint = indent;
           indentint += 2;
           vx_core::vx_Type_mapany mapval = valmap->vx_map();
-          for (auto const& [ckey, valsub] : mapval) {
-            std::string key = ckey;
+          for (std::string key : valmap->vx_p_keys) {
+            vx_core::Type_any valsub = mapval[key];
             if (!vx_boolean_from_string_starts(key, ":")) {
               key = ":" + key;
             }
diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 19949ca..5680cd0 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2100,7 +2100,11 @@ func CppBodyFromType(
 			"\n          }" +
 			"\n          if (newval == " + allowempty + ") {" +
 			"\n            this->vx_p_map.erase(key);" +
+			"\n            std::erase(this->vx_p_keys, key);" +
 			"\n          } else {" +
+			"\n            if (!oldval) {" +
+			"\n              this->vx_p_keys.push_back(key);" +
+			"\n            }" +
 			"\n            vx_core::vx_reserve(newval);" +
 			"\n            this->vx_p_map[key] = newval;" +
 			"\n          }" +
@@ -2124,6 +2128,7 @@ func CppBodyFromType(
 			"\n        output = " + CppPointerNewFromClassName(fullclassname) + ";" +
 			"\n        output->vx_p_map = map;" +
 			"\n        for (auto const& [key, val] : map) {" +
+			"\n          output->vx_p_keys.push_back(key);" +
 			"\n          vx_core::vx_reserve(val);" +
 			"\n        }" +
 			"\n        if (msgblock != vx_core::e_msgblock) {" +
-- 
2.43.0


From 0201185e3f7db9d70a04b0beba55ec80457e4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:24 +0000
Subject: [PATCH 15/78] fix: drop a disallowed map value together with its key

---
 src/vxlisp/lang-cpp.go  | 1 +
 src/vxlisp/lang-type.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 5680cd0..08f9ced 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2168,6 +2168,7 @@ func CppBodyFromType(
 				"\n          } else {" +
 				"\n            vx_core::Type_msg msg = vx_core::vx_msg_from_errortext(\"Invalid Key/Value: \" + skey + \" \"  + vx_core::vx_string_from_any(valsub) + \"\");" +
 				"\n            msgblock = vx_core::vx_copy(msgblock, {msg});" +
+				"\n            skey = \"\";" +
 				"\n          }"
 		}
 		mapallowname := allowname
diff --git a/src/vxlisp/lang-type.go b/src/vxlisp/lang-type.go
index 2240f60..5220cee 100644
--- a/src/vxlisp/lang-type.go
+++ b/src/vxlisp/lang-type.go
@@ -2035,8 +2035,12 @@ func LangTypeVxCopy(
 									"msgblock"},
 								[]string{
 									"msg"}))+
+						LangVarSet(lang, 6,
+							"key", "\"\"")+
 						LangIfEnd(lang, 5)+
 						LangIfThen(lang, 5,
+							LangVxEqualsString(lang, "key", "\"\""), "")+
+						LangIfElseIf(lang, 5,
 							LangClause(lang, false,
 								"!=",
 								"valany",
-- 
2.43.0


From 9b0096b0a55dc3acbfffdd6c1f708e77065f3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:09 +0000
Subject: [PATCH 16/78] fix: print values alike on every target

---
 dist/vxlisp/vx/core_java.txt | 6 +-----
 dist/vxlisp/vx/core_js.txt   | 7 ++++++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index 621f5c7..20d38e2 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -1104,11 +1104,7 @@
     } else if (value instanceof Core.Type_string) {
       Core.Type_string valstring = Core.f_any_from_any(Core.t_string, value);
       String sval = valstring.vx_string();
-      if (sval.indexOf("\"") < 0) {
-        sval = "\"" + sval + "\"";
-      } else {
-        sval = "`" + sval + "`";
-      }
+      sval = "\"" + sval.replace("\"", "\\\"") + "\"";
       if (valstring.vx_msgblock() != Core.e_msgblock) {
         String msgtext = Core.vx_string_from_any_indent(valstring.vx_msgblock(), indent, linefeed);
         output  = "\n" + indenttext + "(string";
diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index c4d7316..5fd5f6f 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -1376,6 +1376,8 @@
       } else {
         text = constpkg + '/' + constname
       }
+    } else if (Number.isNaN(value)) {
+      text = 'notanumber'
     } else {
       switch (typedef) {
       case vx_core.t_boolean:
@@ -1417,7 +1419,10 @@
         text = '(decimal ' + text + ')'
         break
       default:
-        const typedefname = typedef['vx_value']['name']
+        let typedefname = vx_core.f_typename_from_typedef(typedef)
+        if (typedefname.startsWith('vx/core/')) {
+          typedefname = typedefname.substring(8)
+        }
         const extend = vx_core.f_extends_from_typedef(typedef)
         const indent1 = indent + 1
         const indent2 = indent + 2
-- 
2.43.0


From f3fc5f5437ca346adf72769cc3feab8f928a3b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:07 +0000
Subject: [PATCH 17/78] fix: deny a JavaScript call without permission

---
 src/vxlisp/lang-js.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 8ca6356..55a129a 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -313,6 +313,16 @@ func JsFromFunc(
 			}
 		}
 	}
+	permissionheader := ""
+	permissionfooter := ""
+	if fnc.permission {
+		permissionheader = lineindent + "if (vx_core.f_boolean_permission_from_func(context, " + jstname + ")) {"
+		permissionfooter = "" +
+			lineindent + "} else {" +
+			lineindent + "  const msg = vx_core.f_msg_from_error_2(\"vx/core/func\", \":permissiondenied\", \"" + fnc.name + "\")" +
+			lineindent + "  output = vx_core.f_new_from_type(" + LangTypeT(lang, fnc.vxtype) + ", msg)" +
+			lineindent + "}"
+	}
 	tryheader := ""
 	tryfooter := ""
 	if fnc.messages {
@@ -358,9 +368,11 @@ func JsFromFunc(
 		logheader +
 		genericvars +
 		defaultvalue +
+		permissionheader +
 		tryheader +
 		body +
 		tryfooter +
+		permissionfooter +
 		logfooter +
 		footer
 	return output, statics, msgblock
-- 
2.43.0


From 3a698bcc784d4f9363cff3bd6301c94812ebdfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:07 +0000
Subject: [PATCH 18/78] fix: compare full type names in is-boolean and
 is-decimal

---
 dist/vxlisp/vx/type.vxlisp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/type.vxlisp b/dist/vxlisp/vx/type.vxlisp
index 8b83218..ac565b6 100644
--- a/dist/vxlisp/vx/type.vxlisp
+++ b/dist/vxlisp/vx/type.vxlisp
@@ -90,11 +90,11 @@
 
 (func is-boolean : boolean
  [value : any]
- (= "boolean" (typename<-any value)))
+ (= "vx/core/boolean" (typename<-any value)))
 
 (func is-decimal : boolean
  [value : any]
- (= "decimal" (typename<-any value)))
+ (= "vx/core/decimal" (typename<-any value)))
 
 (func is-none : boolean
  [value : any]
-- 
2.43.0


From 90528d1cb050e7adff0540edb5bb415ed07368af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:00 +0000
Subject: [PATCH 19/78] fix: look up a permission by the given id

---
 dist/vxlisp/vx/core.vxlisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 2399d0f..2ca3bb2 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -3246,7 +3246,7 @@
   [user          : user          := (user<-context)
    security      : security      := (:security user)
    permissionmap : permissionmap := (:permissionmap security)]
-  (:id permissionmap))
+  (any<-map : permission permissionmap id))
  :context
  :doc "Return a permission from context by id")
 
-- 
2.43.0


From 5bde48d7b8c0b46a4beb8b07154e07b8dd2fd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:58 +0000
Subject: [PATCH 20/78] fix: report source that ends inside an open delimiter

---
 src/vxlisp/textblock.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index eb3bf14..b4ec65a 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -385,17 +385,27 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		}
 		lastchar = char
 	}
+	openstates := []string{}
 	for _, stateblock := range blockstack {
-		state = stateblock.blocktype
+		openstates = append(openstates, stateblock.blocktype)
+	}
+	openstates = append(openstates, phrase.blocktype)
+	if state != phrase.blocktype {
+		openstates = append(openstates, state)
+	}
+	for _, openstate := range openstates {
+		state = openstate
 		switch state {
-		case BLOCKTYPE_UNDEFINED:
+		case BLOCKTYPE_UNDEFINED, BLOCKTYPE_COMMENT:
 		default:
 			var delim = "Unknown"
 			switch state {
 			case BLOCKTYPE_CLYBRACKETS:
 				delim = "Curly Brackets"
+			case BLOCKTYPE_COMMENTBLOCK:
+				delim = "Comment Block"
 			case BLOCKTYPE_PARENS:
-				delim = "Quotes"
+				delim = "Parens"
 			case BLOCKTYPE_QUOTE:
 				delim = "Quotes"
 			case BLOCKTYPE_QUOTEBLOCK:
-- 
2.43.0


From 29957ef0d67a45cd9b2bda7f506b5584ad344680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:58 +0000
Subject: [PATCH 21/78] fix: end a quoted text after an escaped backslash

---
 src/vxlisp/textblock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index b4ec65a..e051a3f 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -242,6 +242,9 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 					startchar = charnum
 				}
 				word += char
+				if lastchar == "\\" && char == "\\" {
+					char = ""
+				}
 			}
 		case BLOCKTYPE_PARENS, BLOCKTYPE_CLYBRACKETS, BLOCKTYPE_SQRBRACKETS:
 			switch char {
-- 
2.43.0


From cf0ebe3e5d5bf7ae50ed5b339c1e8c663b222eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:58 +0000
Subject: [PATCH 22/78] fix: keep a comment block open after its first star

---
 src/vxlisp/textblock.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index e051a3f..d8b4478 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -151,6 +151,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 			default:
 				if lastchar == "/" && char == "*" {
 					state = BLOCKTYPE_COMMENTBLOCK
+					char = ""
 				} else {
 					msg := NewMsgFromTextblock(
 						textblock, linenum, charnum, "Invalid Character", char)
@@ -380,6 +381,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 					startline = linenum
 					startchar = charnum - 1
 					state = BLOCKTYPE_COMMENTBLOCK
+					char = ""
 				} else if startline == 0 {
 					startline = linenum
 					startchar = charnum
-- 
2.43.0


From 13fed4741ab3163c052353998f7df0b1345ea3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:58 +0000
Subject: [PATCH 23/78] fix: allow line comments between top level forms

---
 src/vxlisp/textblock.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index d8b4478..540e95e 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -139,7 +139,11 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		switch state {
 		case BLOCKTYPE_UNDEFINED:
 			switch char {
-			case "\n", "\t", " ", "/":
+			case "\n", "\t", " ":
+			case "/":
+				if lastchar == "/" {
+					state = BLOCKTYPE_COMMENT
+				}
 			case "(":
 				blockstack = append(blockstack, phrase)
 				phrase = NewTextblock()
-- 
2.43.0


From 6aca012233576747ce42a2a3c7d76c01f7f2c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 24/78] fix: keep C++ map values whose type has an allowed
 trait

---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 08f9ced..85fd86a 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2160,7 +2160,7 @@ func CppBodyFromType(
 				castval := "vx_core::vx_any_from_any(" + allowttype + ", valsub)"
 				if allowedtypename != "" {
 					allowsub += "" +
-						"\n          } else if (valsubtype == " + allowedtypename + ") {" +
+						"\n          } else if (vx_core::vx_boolean_from_type_trait(valsubtype, " + allowedtypename + ")) {" +
 						"\n            valany = " + castval + ";"
 				}
 			}
-- 
2.43.0


From b42ed13ba9ad484229414334ccaaead1b94f0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 25/78] fix: keep a C++ struct value that is a kind of the
 property type

---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 85fd86a..0b47b11 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2305,7 +2305,7 @@ func CppBodyFromType(
 					default:
 						valnewswitch += "" +
 							"\n            if (vx_p_" + argname + " == valsub) {" +
-							"\n            } else if (valsubtype == " + argttype + ") {" +
+							"\n            } else if (dynamic_cast<" + argclassname + ">(valsub)) {" +
 							"\n              ischanged = true;" +
 							"\n              vx_p_" + argname + " = vx_core::vx_any_from_any(" +
 							"\n                " + argttype + ", valsub" +
-- 
2.43.0


From 702fe7456e4d2485fabbfa436f1679c069dcfe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 26/78] fix: skip absent keys when selecting from a map

---
 dist/vxlisp/vx/collection_cpp.txt  | 6 ++++--
 dist/vxlisp/vx/collection_java.txt | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/collection_cpp.txt b/dist/vxlisp/vx/collection_cpp.txt
index bf3bc7c..a9556a2 100644
--- a/dist/vxlisp/vx/collection_cpp.txt
+++ b/dist/vxlisp/vx/collection_cpp.txt
@@ -275,8 +275,10 @@ map<-map-start-end
       vx_core::vx_Type_listany values;
       for (vx_core::Type_string key : keylist) {
         vx_core::Type_any value = map[key->vx_string()];
-        values.push_back(key);
-        values.push_back(value);
+        if (value) {
+          values.push_back(key);
+          values.push_back(value);
+        }
       }
       vx_core::Type_anylist anyvalues = vx_core::vx_new_anylist(values);
       output = vx_core::f_new(generic_map_1, anyvalues);
diff --git a/dist/vxlisp/vx/collection_java.txt b/dist/vxlisp/vx/collection_java.txt
index cbafb18..ed7131f 100644
--- a/dist/vxlisp/vx/collection_java.txt
+++ b/dist/vxlisp/vx/collection_java.txt
@@ -205,8 +205,10 @@
       List<Core.Type_any> values = new ArrayList<>();
       for (Core.Type_string key : keylist) {
         Core.Type_any value = map.get(key.vx_string());
-        values.add(key);
-        values.add(value);
+        if (value != null) {
+          values.add(key);
+          values.add(value);
+        }
       }
       Core.Type_anylist anyvalues = Core.vx_new_anylist(values);
       output = Core.f_new(generic_map_1, anyvalues);
-- 
2.43.0


From da5f1ef9f7aa22e526e185f239f9c683a96e0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 27/78] fix: repeat text a negative number of times as empty
 text

---
 dist/vxlisp/vx/core.vxlisp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 2ca3bb2..51ff1ec 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -3389,9 +3389,12 @@
   :java
    "String stringtext = text.vx_string();
     int intrepeat = num.vx_int();
+    if (intrepeat < 0) {
+      intrepeat = 0;
+    }
     String stringresult = stringtext.repeat(intrepeat);
     output = Core.vx_new_string(stringresult);"
-  :js "text.repeat(num)")
+  :js "text.repeat((num > 0) ? num : 0)")
  :test (test "abab" (string-repeat "ab" 2)))
 
 (func string<-any : string
-- 
2.43.0


From c9ea0bfbb835c568481d92d4bced7ff2464c9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 28/78] fix: keep empty values in JavaScript maps

---
 dist/vxlisp/vx/core_js.txt | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 5fd5f6f..a5e5768 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -1065,9 +1065,7 @@
               break
             }
           } else {
-            if (vx_core.f_is_empty(value)) {
-              delete propmap[key]
-            } else if (allowany) {
+            if (allowany) {
               propmap[key] = value
             } else if (allowtypes.includes(valuetype)) {
               propmap[key] = value
@@ -1453,7 +1451,7 @@
           }
           for (let key of validkeys) {
             const valsub = valmap[key]
-            if (valsub) {
+            if (valsub || ((extend == ':map') && (valsub != undefined))) {
               if (!key.startsWith(':')) {
                 key = ':' + key
               }
-- 
2.43.0


From ec36214902823cf52ac20549d12e70af54fa378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 29/78] fix: copy a JavaScript boolean or number with more
 values

---
 dist/vxlisp/vx/core_js.txt | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index a5e5768..a8cd4ab 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -483,8 +483,10 @@
       output = false
       if (type == vx_core.t_boolean) {
       } else if ((typeof copy) == 'boolean') {
+        isfirst = false
         output = copy
       } else {
+        isfirst = false
         output = copy['vx_value']
         const msgblockcopy = copy['vx_msgblock']
         if (msgblockcopy != undefined) {
@@ -547,8 +549,10 @@
       output = 0
       if (type == vx_core.t_int) {
       } else if ((typeof copy) == 'number') {
+        isfirst = false
         output = copy
       } else {
+        isfirst = false
         output = copy['vx_value']
         const msgblockcopy = copy['vx_msgblock']
         if (msgblockcopy != undefined) {
@@ -639,8 +643,10 @@
       output = 0.0
       if (type == vx_core.t_float) {
       } else if ((typeof copy) == 'number') {
+        isfirst = false
         output = copy
       } else {
+        isfirst = false
         output = copy['vx_value']
         const msgblockcopy = copy['vx_msgblock']
         if (msgblockcopy != undefined) {
-- 
2.43.0


From 25e7ba1476a48e688c48f2b7fba953fdde2d1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:13 +0000
Subject: [PATCH 30/78] fix: a zero Java float is empty

---
 dist/vxlisp/vx/core_java.txt | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index 20d38e2..0a79fab 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -994,8 +994,14 @@
   public static Type_float vx_new_float(
     final float fval
   ) {
-    Class_float output = new Core.Class_float();
-    output.vxfloat = fval;
+    Type_float output;
+    if ((fval == 0) && Core.e_float != null) {
+      output = Core.e_float;
+    } else {
+      Class_float work = new Core.Class_float();
+      work.vxfloat = fval;
+      output = work;
+    }
     return output;
   }
 
-- 
2.43.0


From 5d3aa00b50ed23663219f8cca1d333e65ef61b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:42 +0000
Subject: [PATCH 31/78] fix: reduce a C++ map in key order

---
 dist/vxlisp/vx/core_cpp.txt | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 9b1f90b..c5d87a2 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -868,9 +868,11 @@ let-async
   vx_core::Type_any vx_any_from_map_start_reduce(vx_core::Type_any generic_any_1, vx_core::Type_map map, vx_core::Type_any start, vx_core::Func_any_from_any_key_value fn_reduce) {
     vx_core::Type_any output = start;
     std::map<std::string, vx_core::Type_any> mapval = map->vx_map();
-    for (auto const& [skey, value] : mapval) {
+    for (std::string skey : map->vx_p_keys) {
       vx_core::Type_string key = vx_core::vx_new_string(skey);
-      output = fn_reduce->vx_any_from_any_key_value(output, key, value);
+      vx_core::vx_reserve(key);
+      output = fn_reduce->vx_any_from_any_key_value(output, key, mapval[skey]);
+      vx_core::vx_release_one_except(key, output);
     }
     return output;
   }
-- 
2.43.0


From 8bb594b0ea5476e723ebf75601f5baeb923adfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:09 +0000
Subject: [PATCH 32/78] fix: make a C++ map from a list in list order

---
 dist/vxlisp/vx/core.vxlisp  | 4 ++--
 dist/vxlisp/vx/core_cpp.txt | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 51ff1ec..0e41d8c 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2901,8 +2901,8 @@
  (native
   :cpp
    "vx_core::vx_Type_listany listany = vallist->vx_list();
-    vx_core::vx_Type_mapany mapany = vx_core::vx_map_from_list(listany, fn_any_from_any);
-    output = vx_core::vx_new_map(generic_map_1, mapany);"
+    vx_core::vx_Type_listany listkeyvalue = vx_core::vx_map_from_list(listany, fn_any_from_any);
+    output = vx_core::vx_new(generic_map_1, listkeyvalue);"
   :java
    "List<Core.Type_any> listval = vallist.vx_list();
     Map<String, Core.Type_any> mapresult = Core.vx_map_from_list_fn(listval, (val) -> {
diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index c5d87a2..c519841 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -346,7 +346,7 @@ let-async
     vx_core::vx_Type_async async);
 
   // vx_map_from_list(listany, any<-any)
-  vx_core::vx_Type_mapany vx_map_from_list(
+  vx_core::vx_Type_listany vx_map_from_list(
     vx_core::vx_Type_listany listany,
     vx_core::Func_any_from_any fn_any_from_any);
 
@@ -1558,10 +1558,10 @@ let-async
   }
 
   // vx_map_from_list(listany, any<-any)
-  vx_core::vx_Type_mapany vx_map_from_list(
+  vx_core::vx_Type_listany vx_map_from_list(
     vx_core::vx_Type_listany listany,
     vx_core::Func_any_from_any fn_any_from_any) {
-    vx_core::vx_Type_mapany output;
+    vx_core::vx_Type_listany output;
     for (vx_core::Type_any item : listany) {
       vx_core::Type_any keyany = fn_any_from_any->vx_any_from_any(
         item);
@@ -1576,7 +1576,8 @@ let-async
       }
       vx_core::vx_release(keyany);
       if (key != "") {
-        output.insert({key, item});
+        output.push_back(vx_core::vx_new_string(key));
+        output.push_back(item);
       }
     }
     return output;
-- 
2.43.0


From f3c17bfad7af3800be22ba3d780c2c648350fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:09 +0000
Subject: [PATCH 33/78] fix: convert a map to a map that allows any value

---
 dist/vxlisp/vx/core_cpp.txt  | 2 +-
 dist/vxlisp/vx/core_java.txt | 2 +-
 dist/vxlisp/vx/core_js.txt   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index c519841..5837af2 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -1608,7 +1608,7 @@ let-async
         );
         vx_core::vx_release_one_except(valkey, value);
         vx_core::Type_any chgtype = chgvalue->vx_type();
-        if (vx_core::vx_boolean_from_list_find(lallowtypes, chgtype)) {
+        if (vx_core::vx_boolean_from_list_find(lallowtypes, chgtype) || vx_core::vx_boolean_from_list_find(lallowtypes, vx_core::t_any)) {
           mapnew[key] = chgvalue;
         } else {
           vx_core::vx_release({chgvalue});
diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index 0a79fab..ece418f 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -821,7 +821,7 @@
           Core.t_any, stringkey, value
         );
         Core.Type_any chgtype = chgvalue.vx_type();
-        if (lallowtypes.contains(chgtype)) {
+        if (lallowtypes.contains(chgtype) || lallowtypes.contains(Core.t_any)) {
           mapnew.put(key, chgvalue);
         }
       }
diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index a8cd4ab..3fed0ad 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -259,7 +259,7 @@
     typedef
   ) {
     let output = false
-    if (allowtypes.includes(typedef)) {
+    if (allowtypes.includes(typedef) || allowtypes.includes(vx_core.t_any)) {
       output = true
     } else {
       const traits = vx_core.f_traits_from_typedef(typedef)
-- 
2.43.0


From c22a60979b654c274a4dc96482adb43df2b0920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:06 +0000
Subject: [PATCH 34/78] fix: order text by its characters

---
 dist/vxlisp/vx/core.vxlisp  |  8 ++++++--
 dist/vxlisp/vx/core_cpp.txt | 11 +++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 0e41d8c..23def13 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1933,8 +1933,12 @@
         intresult = 1;
       }
     } else {
-      String stringval1 = Core.f_string_from_any(val1).vx_string();
-      String stringval2 = Core.f_string_from_any(val2).vx_string();
+      String stringval1 = (val1 instanceof Core.Type_string)
+        ? ((Core.Type_string)val1).vx_string()
+        : Core.f_string_from_any(val1).vx_string();
+      String stringval2 = (val2 instanceof Core.Type_string)
+        ? ((Core.Type_string)val2).vx_string()
+        : Core.f_string_from_any(val2).vx_string();
       int compare = stringval1.compareTo(stringval2);
       if (compare > 0) {
         intresult = 1;
diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 5837af2..bc2abec 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -1027,8 +1027,15 @@ let-async
         output = 1;
       }
     } else {
-      std::string stringval1 = vx_core::vx_string_from_any(val1);
-      std::string stringval2 = vx_core::vx_string_from_any(val2);
+      std::string stringval1;
+      std::string stringval2;
+      if (val1->vx_type() == vx_core::t_string && val2->vx_type() == vx_core::t_string) {
+        stringval1 = vx_core::vx_any_from_any(vx_core::t_string, val1)->vx_string();
+        stringval2 = vx_core::vx_any_from_any(vx_core::t_string, val2)->vx_string();
+      } else {
+        stringval1 = vx_core::vx_string_from_any(val1);
+        stringval2 = vx_core::vx_string_from_any(val2);
+      }
       int compare = stringval1.compare(stringval2);
       if (compare > 0) {
         output = 1;
-- 
2.43.0


From a481b391a59ab4d13a9d189b6371b31b543174e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:06 +0000
Subject: [PATCH 35/78] fix: text without digits is not an int in C++

---
 dist/vxlisp/vx/core_cpp.txt | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index bc2abec..4397e92 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -1305,7 +1305,9 @@ let-async
   bool vx_is_int(
     std::string value) {
     bool output = true;
-    if (value == "notanumber") {
+    if (value == "" || value == "-") {
+      output = false;
+    } else if (value == "notanumber") {
       output = true;
     } else if (value == "infinity") {
       output = true;
-- 
2.43.0


From e08710620e703f474b31b89fcdfcb76e2e7fc9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:06 +0000
Subject: [PATCH 36/78] fix: casting a map or struct to a primitive is empty in
 JavaScript

---
 dist/vxlisp/vx/core_js.txt | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 3fed0ad..e3e78f4 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -23,6 +23,13 @@
       if (valuetypeof != typeofname) {
         if (valuetypeof != 'object' || Array.isArray(value) || value === vx_core.e_any) {
           output = vx_core.f_empty(generic_any_1)
+        } else {
+          switch (vx_core.f_extends_from_any(value)) {
+          case ':map':
+          case ':struct':
+            output = vx_core.f_empty(generic_any_1)
+            break
+          }
         }
       }
     }
-- 
2.43.0


From f16a8ef60db3636bf3c8fecc97d992212a3e3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:06 +0000
Subject: [PATCH 37/78] fix: a switch case with an empty list never matches

---
 dist/vxlisp/vx/core.vxlisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 23def13..4ff01fa 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -3524,7 +3524,7 @@
           break
         case ':casemany':
           const values = thenelse['values']
-          if (values.includes(value)) {
+          if (values && values.includes(value)) {
             fn_any = thenelse['fn-any']
           }
           break
-- 
2.43.0


From d36bb73f462fb446639c686b14a5fee235737ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:46 +0000
Subject: [PATCH 38/78] fix: strict equality of equal Java text

---
 dist/vxlisp/vx/core_java.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index ece418f..60f9cc6 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -489,13 +489,13 @@
       } else if (type1 == Core.t_decimal) {
         Core.Type_decimal valdecimal1 = (Core.Type_decimal)val1;
         Core.Type_decimal valdecimal2 = (Core.Type_decimal)val2;
-        if (valdecimal1.vx_string() == valdecimal2.vx_string()) {
+        if (valdecimal1.vx_string().equals(valdecimal2.vx_string())) {
           output = true;
         }
       } else if (type1 == Core.t_string) {
         Core.Type_string valstring1 = (Core.Type_string)val1;
         Core.Type_string valstring2 = (Core.Type_string)val2;
-        if (valstring1.vx_string() == valstring2.vx_string()) {
+        if (valstring1.vx_string().equals(valstring2.vx_string())) {
           output = true;
         }
       }
-- 
2.43.0


From 6684ebb95864e1d660289d60a31767f248931a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:46 +0000
Subject: [PATCH 39/78] fix: recognise computed find keywords in Java

---
 dist/vxlisp/vx/type_java.txt | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dist/vxlisp/vx/type_java.txt b/dist/vxlisp/vx/type_java.txt
index bcfcae4..4b5de4a 100644
--- a/dist/vxlisp/vx/type_java.txt
+++ b/dist/vxlisp/vx/type_java.txt
@@ -13,8 +13,8 @@
   // vx_int_from_string_findkeyword(string, string)
   public static int vx_int_from_string_findkeyword(String text, String find) {
     int output = -1;
-    if (text == "") {
-    } else if (find == ":nonwhitespace") {
+    if (text.equals("")) {
+    } else if (find.equals(":nonwhitespace")) {
       String wschars1 = " \n\r\t";
       int ilen = text.length();
       for (int i = 0; i < ilen; i++) {
@@ -25,7 +25,7 @@
           break;
         }
       }
-    } else if (find == ":whitespace") {
+    } else if (find.equals(":whitespace")) {
       char[] wschars2 = {' ', '\n', '\r', '\t'};
       for (char cchar : wschars2) {
         int pos = text.indexOf(cchar);
-- 
2.43.0


From f10be6eb3c48742140ce8367f0bcbed5458e14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:42 +0000
Subject: [PATCH 40/78] fix: every empty JavaScript list is empty

---
 dist/vxlisp/vx/core.vxlisp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 4ff01fa..6c042bc 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2441,6 +2441,8 @@
    "const type = vx_core.f_type_from_any(value)
     if (value == vx_core.f_empty(type)) {
       output = vx_core.c_true
+    } else if (Array.isArray(value) && value.length == 0 && !value['vx_msgblock']) {
+      output = vx_core.c_true
     } else {
       output = vx_core.c_false
     }"
-- 
2.43.0


From fbe4de50cf3ab64a482607f5d1e085a6342fd039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:24 +0000
Subject: [PATCH 41/78] fix: a map made from a list holds only allowed values

---
 dist/vxlisp/vx/core.vxlisp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 6c042bc..fe44c6c 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2914,19 +2914,17 @@
     Map<String, Core.Type_any> mapresult = Core.vx_map_from_list_fn(listval, (val) -> {
       return fn_any_from_any.vx_any_from_any(Core.t_string, val);
     });
-    output = Core.f_any_from_any(generic_map_1, output.vx_new_from_map(mapresult));"
+    if (mapresult.size() > 0) {
+      output = Core.f_any_from_any(generic_map_1, output.vx_new_from_map(mapresult));
+    }"
   :js
-   "const valmap = {}
-    vallist.map(value => {
-      const fn = fn_any_from_any['vx_value']
-      if (fn) {
-        const key = fn(value)
-        valmap[key] = value
+   "const fn = fn_any_from_any['vx_value']
+    if (fn) {
+      const keyvalues = []
+      for (const value of vallist) {
+        keyvalues.push(fn(value), value)
       }
-    })
-    output = {
-      vx_type: generic_map_1,
-      vx_value: valmap
+      output = vx_core.f_new_from_type(generic_map_1, ...keyvalues)
     }")
  :test (test
         (stringmap
-- 
2.43.0


From 942b51c1ccd959a69a59ffe825705f59904354dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:08 +0000
Subject: [PATCH 42/78] fix: JavaScript lists made from lists hold only allowed
 values

---
 dist/vxlisp/vx/collection.vxlisp |  4 ++--
 dist/vxlisp/vx/core.vxlisp       |  3 +--
 dist/vxlisp/vx/core_js.txt       | 25 ++++++++++++++++++++++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/dist/vxlisp/vx/collection.vxlisp b/dist/vxlisp/vx/collection.vxlisp
index 174dd1f..77237c6 100644
--- a/dist/vxlisp/vx/collection.vxlisp
+++ b/dist/vxlisp/vx/collection.vxlisp
@@ -438,8 +438,8 @@ output : list-1 := (empty list-1)
    "const fn = fn_any_from_any['vx_value']
     if (fn) {
       const listoflist = values.map(fn)
-      output = listoflist.flat()
-      output['vx_type'] = generic_list_1
+      const lists = listoflist.filter((value) => Array.isArray(value))
+      output = vx_core.vx_list_from_allowed(generic_list_1, lists.flat())
     }")
  :test (test
         (stringlist "a" "b" "c" "d")
diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index fe44c6c..765a4a3 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2748,8 +2748,7 @@
   :js
    "const fn = fn_any_from_any['vx_value']
     if (fn) {
-      output = values.map(fn)
-      output['vx_type'] = generic_list_1
+      output = vx_core.vx_list_from_allowed(generic_list_1, values.map(fn))
     }")
  :doc "Returns a list of processed items from another list")
 
diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index e3e78f4..4689f44 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -349,6 +349,25 @@
     return output
   }
 
+  // vx_list_from_allowed(list-1, list-2)
+  static vx_list_from_allowed(
+    generic_list_1,
+    values
+  ) {
+    const typedef = vx_core.f_typedef_from_any(generic_list_1)
+    const allowtypes = vx_core.f_allowtypes_from_typedef(typedef)
+    let output = values
+    if (allowtypes.length > 0) {
+      output = values.filter((value) => {
+        const valuetype = vx_core.f_typedef_from_any(value)
+        return vx_core.vx_is_allowtype(allowtypes, valuetype)
+      })
+    }
+    output['vx_type'] = generic_list_1
+    return output
+  }
+
+  // vx_list_from_list_intany(list-1, list-2, fn)
   static vx_list_from_list_intany(
     generic_list_1,
     valuelist,
@@ -357,13 +376,13 @@
     let output = vx_core.f_empty(generic_list_1)
     const fn = fn_any_from_int_any['vx_value']
     if (fn) {
-      output = []
-      output['vx_type'] = generic_list_1
+      const outvals = []
       for (let i = 0; i < valuelist.length; i++) {
         const value = valuelist[i]
         const outval = fn(i+1, value)
-        output[i] = outval
+        outvals[i] = outval
       }
+      output = vx_core.vx_list_from_allowed(generic_list_1, outvals)
     }
     return output
   }
-- 
2.43.0


From bcc9e9a7d64fa066b7f8b9fe82cb278301af52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:45 +0000
Subject: [PATCH 43/78] fix: get a struct property by a computed name in Java
 and C++

---
 src/vxlisp/lang-cpp.go  | 2 ++
 src/vxlisp/lang-func.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 0b47b11..98b4ef6 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2675,6 +2675,8 @@ func CppFromValue(
 						work = work + "->" + LangFromName(propname) + "()"
 						argtexts = append(argtexts, work)
 						isskip = true
+					default:
+						output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
 					}
 				default:
 					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_" + LangFuncName(fnc) + "("
diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 3635b47..d48d71d 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -821,6 +821,8 @@ func LangFuncValue(
 					LangFromName(propname))
 				//				listargtext = append(listargtext, work)
 				//				isskip = true
+			default:
+				funcprefix = "f"
 			}
 		case "vx/core/fn":
 		case "vx/core/let":
-- 
2.43.0


From f59b665a504a16219383f33a9293f6dba246b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:01 +0000
Subject: [PATCH 44/78] fix: text that starts with a colon is text, not a
 keyword

---
 src/vxlisp/arg.go   | 5 ++++-
 src/vxlisp/const.go | 2 +-
 src/vxlisp/func.go  | 2 +-
 src/vxlisp/value.go | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/arg.go b/src/vxlisp/arg.go
index bb4b4d0..3fff754 100644
--- a/src/vxlisp/arg.go
+++ b/src/vxlisp/arg.go
@@ -306,7 +306,7 @@ func ListArgFromTextblock(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				arg.value = value
 			default:
-				if strings.HasPrefix(argstr, ":") && (textblock.blocktype != "\"") {
+				if strings.HasPrefix(argstr, ":") && (argtextblock.blocktype != "\"") {
 					switch argstr {
 					case ":", "::", ":alias", ":doc", ":=":
 					case ":default":
@@ -326,6 +326,9 @@ func ListArgFromTextblock(
 				}
 			}
 			lastargstr = argstr
+			if argtextblock.blocktype == "\"" {
+				lastargstr = ""
+			}
 		}
 	}
 	if arg.name != "" {
diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index 0934c73..c6d3e51 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -107,7 +107,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 					cnst.doc = StringRemoveQuotes(word)
 				}
 				lastword = ""
-			} else if strings.HasPrefix(word, ":") && (textblock.blocktype != "\"") {
+			} else if strings.HasPrefix(word, ":") && (wordtextblock.blocktype != "\"") {
 				switch word {
 				case ":", ":alias", ":deprecated", ":doc":
 					lastword = word
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index d013427..b64e271 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -513,7 +513,7 @@ func FuncFromTextblock(
 						fnc.sideeffects = StringRemoveQuotes(word)
 					}
 					lastword = ""
-				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && (textblock.blocktype != "\"") {
+				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && (wordtextblock.blocktype != "\"") {
 					switch word {
 					case ":", ":alias", ":bigospace", ":bigotime", ":clientserver", ":doc", ":deprecated", ":sideeffects":
 						lastword = word
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index d8868e8..c40668c 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -466,7 +466,7 @@ func ValueFromTextblock(
 							}
 						}
 						if !isused {
-							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") {
+							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") && (clausetextblocks[idx+1].blocktype != "\"") {
 								nativeconst := NewConst()
 								nativeconst.name = clausepart
 								nativeconst.pkgname = ":native"
-- 
2.43.0


From cc7b77752553e7c8277e8f1b75209ed9aa009176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:01 +0000
Subject: [PATCH 45/78] fix: constants of every kind in Java and C++

---
 dist/vxlisp/vx/core.vxlisp  | 10 +++++-----
 dist/vxlisp/vx/core_cpp.txt |  3 ++-
 src/vxlisp/lang-const.go    |  5 ++++-
 src/vxlisp/lang-cpp.go      |  9 +++++----
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 765a4a3..83b40c8 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -65,7 +65,7 @@
        return vxboolean;
      }"
    :java
-    "protected boolean vxboolean = false;
+    "public boolean vxboolean = false;
 
      @Override
      public boolean vx_boolean() {
@@ -163,7 +163,7 @@
        return vxdecimal;
      }"
    :java
-    "protected String vxdecimal = “0.0”;
+    "public String vxdecimal = “0.0”;
 
      @Override
      public float vx_float() {
@@ -220,7 +220,7 @@
        return vxfloat;
      }"
    :java
-    "protected float vxfloat = 0;
+    "public float vxfloat = 0;
 
      @Override
      public float vx_float() {
@@ -311,7 +311,7 @@
        return vxint;
      }"
    :java
-    "protected int vxint = 0;
+    "public int vxint = 0;
 
      @Override
      public int vx_int() {
@@ -624,7 +624,7 @@
        return vxstring;
      }"
    :java
-    "protected String vxstring = “”;
+    "public String vxstring = “”;
 
      @Override
      public String vx_string() {
diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 4397e92..48f6d5e 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -2090,7 +2090,8 @@ let-async
       if (pkgname != "vx/core") {
         typedefname = pkgname + "/" + typedefname;
       }
-      if (constdef != nullptr) {
+      bool issimple = type == vx_core::t_boolean || type == vx_core::t_decimal || type == vx_core::t_float || type == vx_core::t_int || type == vx_core::t_string;
+      if (constdef != nullptr && !issimple) {
         text = constdef->name()->vx_string();
         pkgname = constdef->pkgname()->vx_string();
         if (pkgname != "vx/core") {
diff --git a/src/vxlisp/lang-const.go b/src/vxlisp/lang-const.go
index 3862620..1ecd1da 100644
--- a/src/vxlisp/lang-const.go
+++ b/src/vxlisp/lang-const.go
@@ -85,7 +85,7 @@ func LangConst(
 						"value", clstext) +
 					LangVarSet(lang, 3,
 						"outval.vx_p_map",
-						"val.vx_map"+maptypename+"()")
+						"value.vx_map"+maptypename+"()")
 			}
 		case ":struct":
 			clstext, msgs := LangFromValue(lang, 3, cnst.value, cnst.pkgname, emptyfunc, true, false, path)
@@ -158,6 +158,9 @@ func LangConstValFromConst(
 	cnst *vxconst,
 	project *vxproject) string {
 	cnstval := StringValueFromValue(cnst.value)
+	if cnst.value.code == ":const" && NameFromConst(ConstFromValue(cnst.value)) == "vx/core/true" {
+		cnstval = "true"
+	}
 	switch NameFromConst(cnst) {
 	case "vx/core/path-test-resources":
 		cnstval = "\"src/test/resources\""
diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 98b4ef6..32eb744 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -477,8 +477,6 @@ func CppFromConst(
 	cnsttype := cnst.vxtype
 	cnstname := LangFromName(cnst.alias)
 	cnstclassname := "Class_" + cnstname
-	cnsttypename := LangNameFromType(
-		lang, cnst.vxtype)
 	cnsttypeclassname := LangNameTypeFullFromType(
 		lang, cnsttype)
 	pkgname := LangPkgName(
@@ -569,13 +567,16 @@ func CppFromConst(
 			msgblock = MsgblockAddBlock(
 				msgblock, msgs)
 			if clstext != "" {
-				maptypename := cnsttypename
+				allowtype, _ := TypeAllowFromType(cnsttype)
+				maptypename := LangNameFromType(
+					lang, allowtype)
 				if maptypename == "any" {
 					maptypename = ""
 				}
 				cnstval = "" +
 					"\n      " + cnsttypeclassname + " val = " + clstext + ";" +
-					"\n      output->vx_p_map" + maptypename + " = val->vx_map" + maptypename + "();"
+					"\n      output->vx_p_map = val->vx_map" + maptypename + "();" +
+					"\n      output->vx_p_keys = val->vx_p_keys;"
 			}
 		case ":struct":
 			clstext, msgs := CppFromValue(
-- 
2.43.0


From 3c33f3ca4bb19ac59ce8628e0aa5add840b41b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:35 +0000
Subject: [PATCH 46/78] fix: allow comments between any two tokens of a package
 or project

---
 src/vxlisp/project.go   |  2 ++
 src/vxlisp/textblock.go | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 0295eec..439f744 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -345,6 +345,7 @@ func ProjectReadAllFromPath(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				if !msgblock.iserror {
 					textblock, msgs = TextblockParse(textblock)
+					textblock = TextblockRemoveComments(textblock)
 					msgblock = MsgblockAddBlock(msgblock, msgs)
 					if !msgblock.iserror {
 						pkg, msgs := PackageFromTextblock(textblock)
@@ -401,6 +402,7 @@ func ProjectFromTextblock(
 	var foundproject = false
 	var lastword = ""
 	textblock, msgs := TextblockParse(textblock)
+	textblock = TextblockRemoveComments(textblock)
 	msgblock = MsgblockAddBlock(msgblock, msgs)
 	for _, alltextblock := range textblock.listtextblock {
 		wordtextblocks := alltextblock.listtextblock
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 540e95e..52215a8 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -436,3 +436,16 @@ func TextblocksPop(textblocks []*vxtextblock) (*vxtextblock, []*vxtextblock) {
 	blocks := textblocks[:len(textblocks)-1]
 	return block, blocks
 }
+
+func TextblockRemoveComments(textblock *vxtextblock) *vxtextblock {
+	var listtextblock []*vxtextblock
+	for _, subtextblock := range textblock.listtextblock {
+		switch subtextblock.blocktype {
+		case "/*", "//":
+		default:
+			listtextblock = append(listtextblock, TextblockRemoveComments(subtextblock))
+		}
+	}
+	textblock.listtextblock = listtextblock
+	return textblock
+}
-- 
2.43.0


From 22672ce8dde8846af47347a623bc1f2e7fa18a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:35 +0000
Subject: [PATCH 47/78] fix: run the commands given after the project path

---
 src/vxlisp/project.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 439f744..650c734 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -96,6 +96,7 @@ func ExecuteProjectFromArgs(
 				switch lastarg {
 				case "--path", ":path":
 					projectpath = arg
+					lastarg = ""
 				default:
 					switch arg {
 					case "--path", ":path":
-- 
2.43.0


From 8d8a2c54e02132d45cbb69e1546dd4effcb3fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:39 +0000
Subject: [PATCH 48/78] fix: add items to the default list property of a C++
 struct whatever its name

---
 src/vxlisp/lang-cpp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 32eb744..fc1ebdd 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2347,10 +2347,10 @@ func CppBodyFromType(
 						defaultkey += "" +
 							"\n          } else if (valsubtype == " + subargttype + ") { // default property" +
 							"\n            ischanged = true;" +
-							"\n            vx_p_nodes = vx_core::vx_copy(vx_p_nodes, {valsub});" +
+							"\n            vx_p_" + lastargname + " = vx_core::vx_copy(vx_p_" + lastargname + ", {valsub});" +
 							"\n          } else if (vx_core::vx_boolean_from_type_trait(valsubtype, " + subargttype + ")) { // default property" +
 							"\n            ischanged = true;" +
-							"\n            vx_p_nodes = vx_core::vx_copy(vx_p_nodes, {valsub});"
+							"\n            vx_p_" + lastargname + " = vx_core::vx_copy(vx_p_" + lastargname + ", {valsub});"
 					}
 				}
 			}
-- 
2.43.0


From 206f70abe319ece56e829eb7bd899c0ac0b732b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:41 +0000
Subject: [PATCH 49/78] fix: keep empty items of an allowed type in JavaScript
 lists

---
 dist/vxlisp/vx/core_js.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 4689f44..25b61d2 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -984,7 +984,7 @@
           if (allowany) {
             listvals.push(value)
             isfound = true
-          } else if ((value !== '') && vx_core.f_is_empty(value)) {
+          } else if ((value !== '') && !allowtypes.includes(valuetype) && vx_core.f_is_empty(value)) {
             isfound = true
           } else if (typedef == valuetype) {
             listvals.push(...value)
-- 
2.43.0


From 393a1eaaf326f55a64caa65774e4169d1ae29bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:31 +0000
Subject: [PATCH 50/78] fix: compile maps of booleans in Java

---
 src/vxlisp/lang-type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-type.go b/src/vxlisp/lang-type.go
index 5220cee..41a4809 100644
--- a/src/vxlisp/lang-type.go
+++ b/src/vxlisp/lang-type.go
@@ -1944,7 +1944,7 @@ func LangTypeVxCopy(
 				if allowedtypename == allowclass {
 					switch NameFromType(allowedtype) {
 					case "vx/core/boolean":
-						allowedtype = rawbooltype
+						allowedtype = rawbooleantype
 						castval = LangFuncCallVariadicVx(lang, 6,
 							func_new,
 							[]string{
-- 
2.43.0


From 5592f20b4b5bc9e9f749bda329d1a52013b157df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:03 +0000
Subject: [PATCH 51/78] fix: a JavaScript struct with only empty properties is
 empty

---
 dist/vxlisp/vx/core.vxlisp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 83b40c8..4d93743 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2443,6 +2443,8 @@
       output = vx_core.c_true
     } else if (Array.isArray(value) && value.length == 0 && !value['vx_msgblock']) {
       output = vx_core.c_true
+    } else if (type['vx_value'].extends == ':struct' && value['vx_value'] && !value['vx_msgblock'] && Object.values(value['vx_value']).every((val) => !val)) {
+      output = vx_core.c_true
     } else {
       output = vx_core.c_false
     }"
-- 
2.43.0


From edc3804a156cf6b59906005b0159528106ed0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:36 +0000
Subject: [PATCH 52/78] fix: allow dashes in the parameter names of functions
 written in place

---
 src/vxlisp/lang-func.go   | 4 ++--
 src/vxlisp/lang-js.go     | 2 +-
 src/vxlisp/lang-native.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index d48d71d..4bb5b90 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -968,11 +968,11 @@ func LangFuncValueArgIndex(
 					argtype := lambdaarg.vxtype
 					lambdavar :=
 						LangVal(lang, indent+2, argtype,
-							lambdaarg.name,
+							LangFromName(lambdaarg.name),
 							LangFuncCallF(lang, indent+2,
 								func_any_from_any,
 								LangTypeT(lang, argtype),
-								lambdaarg.name+"_any"))
+								LangFromName(lambdaarg.name)+"_any"))
 					lambdavars = append(lambdavars, lambdavar)
 				}
 				slambdaargs := vx_core.V_stringn_from_liststringn_joinn(lambdaargs, ", ")
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 55a129a..99b8a9c 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -723,7 +723,7 @@ func JsFromValue(
 						var lambdaargs []string
 						arglist := ListArgLocalFromFunc(argfunc)
 						for _, lambdaarg := range arglist {
-							lambdaargs = append(lambdaargs, lambdaarg.name)
+							lambdaargs = append(lambdaargs, LangFromName(lambdaarg.name))
 						}
 						lambdatext := strings.Join(lambdaargs, ", ")
 						work, msgs := JsFromValue(lang, argvalue, pkgname, fnc, 0, true, test, argsubpath)
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index c741ed9..b5f96ff 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -1344,7 +1344,7 @@ func LangFuncLambdaArgAny(
 func LangFuncLambdaArgName(
 	lang *vxlang,
 	lambdaarg vxarg) string {
-	output := lambdaarg.name + "_any"
+	output := LangFromName(lambdaarg.name) + "_any"
 	switch lang {
 	case langkotlin:
 		output += " : vx_core.Type_any"
-- 
2.43.0


From d7dba00973a05aeed936d27c79697fb6c55ba715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:06 +0000
Subject: [PATCH 53/78] fix: capture the variable that is the whole body of a
 let in C++

---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index fc1ebdd..69160a0 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -86,7 +86,7 @@ func ListCaptureFromFunc(
 					subarg := ArgFromValue(argvalue)
 					outer := LangFromName(subarg.alias)
 					if !vx_core.V_booleann_from_liststringn_containsn(listlocalarg, outer) {
-						listlocalarg = append(listlocalarg, outer)
+						output = append(output, outer)
 					}
 				case ":func":
 					listmore := ListCaptureFromValue(argvalue, listlocalarg, subpath)
-- 
2.43.0


From 1e5000e56158e780d26022c65d24fd1e3cc740d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:40 +0000
Subject: [PATCH 54/78] fix: do not take an item for a list or map of such
 items when matching types

---
 src/vxlisp/type.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index dbb4640..b40d70f 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -566,6 +566,11 @@ func BooleanMatchFromTypeType(
 			// It doesn't matter what type. It will be discarded.
 			pass = true
 		default:
+			if !multi && actualtype.extends != expectedtype.extends &&
+				(expectedtype.extends == ":list" || expectedtype.extends == ":map") {
+				// an item is not a list or a map of such items
+				break
+			}
 			ok, msgs := BooleanAllowFromTypeType(
 				expectedtype, actualtype)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -581,7 +586,7 @@ func BooleanMatchFromTypeType(
 		pass = true
 	default:
 		if pass {
-		} else if !multi && (expectedtype.extends == ":list") {
+		} else if !multi && (expectedtype.extends == ":list" || expectedtype.extends == ":map") {
 		} else if index == 0 && (expectedtype.extends == "") {
 			// first value cannot be within allow types
 		} else {
-- 
2.43.0


From de4ab81cb3058371a747441594c1aaaf8be5b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:05 +0000
Subject: [PATCH 55/78] fix: text in backquotes that starts with a colon is
 text, not a keyword

---
 src/vxlisp/arg.go       | 4 ++--
 src/vxlisp/const.go     | 2 +-
 src/vxlisp/func.go      | 2 +-
 src/vxlisp/textblock.go | 6 ++++++
 src/vxlisp/value.go     | 6 +++---
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/vxlisp/arg.go b/src/vxlisp/arg.go
index 3fff754..c773e03 100644
--- a/src/vxlisp/arg.go
+++ b/src/vxlisp/arg.go
@@ -306,7 +306,7 @@ func ListArgFromTextblock(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				arg.value = value
 			default:
-				if strings.HasPrefix(argstr, ":") && (argtextblock.blocktype != "\"") {
+				if strings.HasPrefix(argstr, ":") && !BooleanIsTextFromTextblock(argtextblock) {
 					switch argstr {
 					case ":", "::", ":alias", ":doc", ":=":
 					case ":default":
@@ -326,7 +326,7 @@ func ListArgFromTextblock(
 				}
 			}
 			lastargstr = argstr
-			if argtextblock.blocktype == "\"" {
+			if BooleanIsTextFromTextblock(argtextblock) {
 				lastargstr = ""
 			}
 		}
diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index c6d3e51..dab6e86 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -107,7 +107,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 					cnst.doc = StringRemoveQuotes(word)
 				}
 				lastword = ""
-			} else if strings.HasPrefix(word, ":") && (wordtextblock.blocktype != "\"") {
+			} else if strings.HasPrefix(word, ":") && !BooleanIsTextFromTextblock(wordtextblock) {
 				switch word {
 				case ":", ":alias", ":deprecated", ":doc":
 					lastword = word
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index b64e271..cbc181e 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -513,7 +513,7 @@ func FuncFromTextblock(
 						fnc.sideeffects = StringRemoveQuotes(word)
 					}
 					lastword = ""
-				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && (wordtextblock.blocktype != "\"") {
+				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && !BooleanIsTextFromTextblock(wordtextblock) {
 					switch word {
 					case ":", ":alias", ":bigospace", ":bigotime", ":clientserver", ":doc", ":deprecated", ":sideeffects":
 						lastword = word
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 52215a8..f7e4cda 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -15,6 +15,12 @@ type vxtextblock struct {
 
 var emptytextblock = NewTextblock()
 
+// BooleanIsTextFromTextblock returns true for text in quotes or backquotes
+func BooleanIsTextFromTextblock(
+	textblock *vxtextblock) bool {
+	return textblock.blocktype == "\"" || textblock.blocktype == "`"
+}
+
 func NewTextblock() *vxtextblock {
 	output := new(vxtextblock)
 	output.linenum = 1
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index c40668c..ad9b5c6 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -420,7 +420,7 @@ func ValueFromTextblock(
 				switch idx {
 				case 0:
 					fncname := clausepart
-					if vx_core.V_booleann_from_stringn_startsn(fncname, ":") && (clausetextblock.blocktype != "\"") {
+					if vx_core.V_booleann_from_stringn_startsn(fncname, ":") && !BooleanIsTextFromTextblock(clausetextblock) {
 						keyname := vx_core.V_stringn_from_string_startn_endn(fncname, 1, len(fncname))
 						if BooleanIsIntFromString(keyname) {
 							fncname = "any<-list"
@@ -453,7 +453,7 @@ func ValueFromTextblock(
 					default:
 						lastword = ""
 						isused := false
-						if clausetextblock.blocktype != "\"" {
+						if !BooleanIsTextFromTextblock(clausetextblock) {
 							switch clausepart {
 							case ":":
 								lastword = clausepart
@@ -466,7 +466,7 @@ func ValueFromTextblock(
 							}
 						}
 						if !isused {
-							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") && (clausetextblocks[idx+1].blocktype != "\"") {
+							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") && !BooleanIsTextFromTextblock(clausetextblocks[idx+1]) {
 								nativeconst := NewConst()
 								nativeconst.name = clausepart
 								nativeconst.pkgname = ":native"
-- 
2.43.0


From 6a3a1e8837649dcd1431536ee243d0278fb80f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:42 +0000
Subject: [PATCH 56/78] fix: only plain words are keywords, and line ends
 written CR are line ends in form text

---
 src/vxlisp/arg.go       | 4 ++--
 src/vxlisp/const.go     | 2 +-
 src/vxlisp/func.go      | 2 +-
 src/vxlisp/textblock.go | 7 ++++---
 src/vxlisp/value.go     | 6 +++---
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/vxlisp/arg.go b/src/vxlisp/arg.go
index c773e03..a3a1df3 100644
--- a/src/vxlisp/arg.go
+++ b/src/vxlisp/arg.go
@@ -306,7 +306,7 @@ func ListArgFromTextblock(
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				arg.value = value
 			default:
-				if strings.HasPrefix(argstr, ":") && !BooleanIsTextFromTextblock(argtextblock) {
+				if strings.HasPrefix(argstr, ":") && BooleanIsWordFromTextblock(argtextblock) {
 					switch argstr {
 					case ":", "::", ":alias", ":doc", ":=":
 					case ":default":
@@ -326,7 +326,7 @@ func ListArgFromTextblock(
 				}
 			}
 			lastargstr = argstr
-			if BooleanIsTextFromTextblock(argtextblock) {
+			if !BooleanIsWordFromTextblock(argtextblock) {
 				lastargstr = ""
 			}
 		}
diff --git a/src/vxlisp/const.go b/src/vxlisp/const.go
index dab6e86..2d5063a 100644
--- a/src/vxlisp/const.go
+++ b/src/vxlisp/const.go
@@ -107,7 +107,7 @@ func ConstFromTextblock(textblock *vxtextblock, pkg *vxpackage) (*vxconst, *vxms
 					cnst.doc = StringRemoveQuotes(word)
 				}
 				lastword = ""
-			} else if strings.HasPrefix(word, ":") && !BooleanIsTextFromTextblock(wordtextblock) {
+			} else if strings.HasPrefix(word, ":") && BooleanIsWordFromTextblock(wordtextblock) {
 				switch word {
 				case ":", ":alias", ":deprecated", ":doc":
 					lastword = word
diff --git a/src/vxlisp/func.go b/src/vxlisp/func.go
index cbc181e..30d48ae 100644
--- a/src/vxlisp/func.go
+++ b/src/vxlisp/func.go
@@ -513,7 +513,7 @@ func FuncFromTextblock(
 						fnc.sideeffects = StringRemoveQuotes(word)
 					}
 					lastword = ""
-				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && !BooleanIsTextFromTextblock(wordtextblock) {
+				} else if vx_core.V_booleann_from_stringn_startsn(word, ":") && BooleanIsWordFromTextblock(wordtextblock) {
 					switch word {
 					case ":", ":alias", ":bigospace", ":bigotime", ":clientserver", ":doc", ":deprecated", ":sideeffects":
 						lastword = word
diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index f7e4cda..0b814b1 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -15,10 +15,10 @@ type vxtextblock struct {
 
 var emptytextblock = NewTextblock()
 
-// BooleanIsTextFromTextblock returns true for text in quotes or backquotes
-func BooleanIsTextFromTextblock(
+// BooleanIsWordFromTextblock returns true for a plain word, not text or a form
+func BooleanIsWordFromTextblock(
 	textblock *vxtextblock) bool {
-	return textblock.blocktype == "\"" || textblock.blocktype == "`"
+	return textblock.blocktype == "text"
 }
 
 func NewTextblock() *vxtextblock {
@@ -133,6 +133,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 	text := textblock.text
 	text = vx_core.V_stringn_from_stringn_findn_replacen(text, "\r\n", "\n")
 	text = vx_core.V_stringn_from_stringn_findn_replacen(text, "\r", "\n")
+	textblock.text = text
 	for _, rune := range text {
 		char := string(rune)
 		switch char {
diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index ad9b5c6..353f5f7 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -420,7 +420,7 @@ func ValueFromTextblock(
 				switch idx {
 				case 0:
 					fncname := clausepart
-					if vx_core.V_booleann_from_stringn_startsn(fncname, ":") && !BooleanIsTextFromTextblock(clausetextblock) {
+					if vx_core.V_booleann_from_stringn_startsn(fncname, ":") && BooleanIsWordFromTextblock(clausetextblock) {
 						keyname := vx_core.V_stringn_from_string_startn_endn(fncname, 1, len(fncname))
 						if BooleanIsIntFromString(keyname) {
 							fncname = "any<-list"
@@ -453,7 +453,7 @@ func ValueFromTextblock(
 					default:
 						lastword = ""
 						isused := false
-						if !BooleanIsTextFromTextblock(clausetextblock) {
+						if BooleanIsWordFromTextblock(clausetextblock) {
 							switch clausepart {
 							case ":":
 								lastword = clausepart
@@ -466,7 +466,7 @@ func ValueFromTextblock(
 							}
 						}
 						if !isused {
-							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") && !BooleanIsTextFromTextblock(clausetextblocks[idx+1]) {
+							if idx < (partslen-1) && (clausetextblocks[idx+1].text == ":native") && BooleanIsWordFromTextblock(clausetextblocks[idx+1]) {
 								nativeconst := NewConst()
 								nativeconst.name = clausepart
 								nativeconst.pkgname = ":native"
-- 
2.43.0


From 2976818de99a1654bab4ffbbc3905e31f900691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:01 +0000
Subject: [PATCH 57/78] fix: accept documentation that is a single quote
 character

---
 src/vxlisp/primative.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index f378cc9..c7ed00e 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -244,7 +244,9 @@ func StringOutdentLines(str string, indent string) string {
 
 func StringRemoveQuotes(str string) string {
 	var output = ""
-	if strings.HasPrefix(str, "`") && strings.HasSuffix(str, "`") {
+	if len(str) < 2 {
+		output = str
+	} else if strings.HasPrefix(str, "`") && strings.HasSuffix(str, "`") {
 		output = str[1 : len(str)-1]
 	} else if strings.HasPrefix(str, "\"") && strings.HasSuffix(str, "\"") {
 		output = str[1 : len(str)-1]
-- 
2.43.0


From dbf787093269a614167f90c07034c46cd7c0b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:32 +0000
Subject: [PATCH 58/78] fix: escape a quote that follows an escaped backslash

---
 src/vxlisp/lang-cpp.go    |  3 +--
 src/vxlisp/lang-native.go |  3 +--
 src/vxlisp/primative.go   | 24 ++++++++++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 69160a0..90e4d7f 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -1513,8 +1513,7 @@ func CppFromText(
 	text string) string {
 	var output = text
 	output = strings.ReplaceAll(output, "\n", "\\n")
-	output = strings.ReplaceAll(output, "\\\"", "\\\\\"")
-	output = strings.ReplaceAll(output, "\"", "\\\"")
+	output = StringEscapeQuotes(output)
 	return output
 }
 
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index b5f96ff..4cf000e 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -659,8 +659,7 @@ func LangNativeFromText(
 	var output = text
 	output = strings.ReplaceAll(output, "\r", "")
 	output = strings.ReplaceAll(output, "\n", "\\n")
-	output = strings.ReplaceAll(output, "\\\"", "\\\\\"")
-	output = strings.ReplaceAll(output, "\"", "\\\"")
+	output = StringEscapeQuotes(output)
 	switch lang {
 	case langkotlin:
 		output = strings.ReplaceAll(output, "$", "\\$")
diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index c7ed00e..bd6efe4 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -238,6 +238,30 @@ func StringFromListString(liststring []string) string {
 	return output
 }
 
+// StringEscapeQuotes escapes every quote, leaving escapes other than \" as they are
+func StringEscapeQuotes(str string) string {
+	output := ""
+	isescape := false
+	for _, rune := range str {
+		char := string(rune)
+		switch char {
+		case "\\":
+			output += char
+			isescape = !isescape
+		case "\"":
+			if isescape {
+				output += "\\"
+			}
+			output += "\\" + char
+			isescape = false
+		default:
+			output += char
+			isescape = false
+		}
+	}
+	return output
+}
+
 func StringOutdentLines(str string, indent string) string {
 	return vx_core.V_stringn_from_stringn_findn_replacen(str, "\n"+indent, "\n")
 }
-- 
2.43.0


From 0e499088e6a944c72381d5f4f26afc674861106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:06 +0000
Subject: [PATCH 59/78] fix: documentation cannot end the comment it is
 generated into

---
 src/vxlisp/lang-cpp.go    | 2 +-
 src/vxlisp/lang-js.go     | 4 ++--
 src/vxlisp/lang-native.go | 8 ++++----
 src/vxlisp/lang-type.go   | 2 +-
 src/vxlisp/primative.go   | 8 ++++++++
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 90e4d7f..54d24d3 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -343,7 +343,7 @@ func CppEmptyValueFromTypeIndent(
 						lang, property.vxtype, indent+"  ")
 					output += indent + "    " + LangFromName(property.name) + ": " + propdefault + ","
 					if property.doc != "" {
-						output += " // " + property.doc
+						output += " // " + StringCommentFromString(property.doc, "// ")
 					}
 					output += "\n"
 				}
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 99b8a9c..fa1c87c 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -34,7 +34,7 @@ func JsEmptyValueFromTypeIndent(
 					if propdefault != "\"\"" {
 						proptext := "\"" + property.name + "\": " + propdefault
 						if property.doc != "" {
-							proptext += " // " + property.doc
+							proptext += " // " + StringCommentFromString(property.doc, "// ")
 						}
 						proptexts = append(proptexts, proptext)
 					}
@@ -608,7 +608,7 @@ func JsFromType(
 		"\n    }"
 	output := "" +
 		"\n  /**" +
-		"\n   * " + StringFromStringIndent(doc, "   * ") +
+		"\n   * " + StringCommentFromString(doc, "   * ") +
 		"\n   */" +
 		"\n  static t_" + typename + " = {}" +
 		"\n  static e_" + typename + " = " + evalue +
diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 4cf000e..0400929 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -518,7 +518,7 @@ func LangConstDoc(
 		doc += "{" + cnst.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   */"
 	}
 	return output
@@ -971,7 +971,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   */"
 	default:
 		switch NameFromFunc(fnc) {
@@ -1011,7 +1011,7 @@ func LangFuncDoc(
 			"\n@return {" + fnc.vxtype.name + "}"
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   * (func " + fnc.name + ")" +
 			"\n   */"
 	}
@@ -3216,7 +3216,7 @@ func LangTypeDoc(
 		}
 		output = "" +
 			"  /**" +
-			"\n   * " + StringFromStringIndent(doc, "   * ") +
+			"\n   * " + StringCommentFromString(doc, "   * ") +
 			"\n   * (type " + typ.name + ")" +
 			"\n   */"
 	}
diff --git a/src/vxlisp/lang-type.go b/src/vxlisp/lang-type.go
index 41a4809..e18a002 100644
--- a/src/vxlisp/lang-type.go
+++ b/src/vxlisp/lang-type.go
@@ -515,7 +515,7 @@ func LangTypeEmptyValue(lang *vxlang, typ *vxtype, indent string) string {
 					propdefault := LangTypeEmptyValue(lang, property.vxtype, indent+"  ")
 					output += indent + "    " + LangFromName(property.name) + ": " + propdefault + ","
 					if property.doc != "" {
-						output += " // " + property.doc
+						output += " // " + StringCommentFromString(property.doc, "// ")
 					}
 					output += "\n"
 				}
diff --git a/src/vxlisp/primative.go b/src/vxlisp/primative.go
index bd6efe4..84c8f6b 100644
--- a/src/vxlisp/primative.go
+++ b/src/vxlisp/primative.go
@@ -238,6 +238,14 @@ func StringFromListString(liststring []string) string {
 	return output
 }
 
+// StringCommentFromString returns documentation that cannot end the comment it is put in
+func StringCommentFromString(str string, indent string) string {
+	output := strings.ReplaceAll(str, "*/", "* /")
+	output = strings.ReplaceAll(output, "\\u", "\\ u")
+	output = StringFromStringIndent(output, indent)
+	return output
+}
+
 // StringEscapeQuotes escapes every quote, leaving escapes other than \" as they are
 func StringEscapeQuotes(str string) string {
 	output := ""
-- 
2.43.0


From e25aac47bd6120b25fda951302f5babfc2f2e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:16 +0000
Subject: [PATCH 60/78] fix: generate applications without a main or context,
 and with an async one, that compile

---
 src/vxlisp/lang-cpp.go | 13 +++++++------
 src/vxlisp/lang-js.go  |  4 ++--
 src/vxlisp/lang.go     | 16 +++++++++-------
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 54d24d3..18b10c9 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4654,11 +4654,12 @@ func CppApp(
 		PackageCoreFromProject(project),
 		imports)
 	contexttext := `
-    vx_core::Type_context context = vx_core::f_context_main(arglist);`
+    context = vx_core::f_context_main(arglist);
+    vx_core::vx_reserve_context(context);`
 	maintext := `
-    vx_core::Type_string output = vx_core::f_main(arglist);
-		std::cout << output->vx_string();
-		vx_core::vx_release(output);`
+    vx_core::Type_string mainstring = vx_core::f_main(arglist);
+    soutput = mainstring->vx_string();
+    vx_core::vx_release(mainstring);`
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
@@ -4680,7 +4681,7 @@ func CppApp(
 			}
 			if contextfunc.async {
 				contexttext = `
-    asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
+    vx_core::vx_Type_async asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
     context = vx_core::vx_sync_from_async(vx_core::t_context, asynccontext);
     vx_core::vx_reserve_context(context);`
 			} else {
@@ -4764,7 +4765,7 @@ func CppAppTest(
 			}
 			if contextfunc.async {
 				contexttext = `
-    asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
+    vx_core::vx_Type_async asynccontext = ` + LangFuncF(lang, contextfunc) + `(arglist);
     vx_core::Type_context context = vx_core::vx_sync_from_async(vx_core::t_context, asynccontext);`
 			} else {
 				contexttext = `
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index fa1c87c..47fa2b0 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1347,9 +1347,9 @@ func JsApp(
 	cmd *vxcommand) string {
 	includetext := ""
 	contexttext := `
-    const context = vx_core.f_context_main(arglist)`
+    const context = vx_core.f_context_main(...arglist)`
 	maintext := `
-    const output = vx_core::f_main(arglist)`
+    const output = vx_core.f_main(...arglist)`
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
diff --git a/src/vxlisp/lang.go b/src/vxlisp/lang.go
index 77cadb3..c982d97 100644
--- a/src/vxlisp/lang.go
+++ b/src/vxlisp/lang.go
@@ -842,13 +842,9 @@ func LangApp(
 	contexttext := LangVal(lang, 3, contexttype,
 		"context",
 		LangPkgNameDot(lang, "vx/core")+"f_context_main(arglist)")
-	maintext := "" +
-		LangVal(lang, 3, stringtype,
-			"mainval",
-			LangPkgNameDot(lang, "vx/core")+"f_main(arglist)") +
-		LangVarSet(lang, 3,
-			"output",
-			"mainval.vx_string()")
+	maintext := LangVal(lang, 3, stringtype,
+		"mainstring",
+		LangPkgNameDot(lang, "vx/core")+"f_main(arglist)")
 	if cmd.context == "" && cmd.main == "" {
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, cmd.context)
@@ -912,6 +908,12 @@ func LangApp(
 			}
 		}
 	}
+	switch lang {
+	case langjava, langkotlin:
+		if strings.Contains(contexttext+maintext, lang.future) {
+			imports += "import java.util.concurrent." + lang.future + lang.lineend + "\n"
+		}
+	}
 	packageopen := ""
 	classopen, classclose := LangAppClassOpenClose(lang)
 	mainopen, mainclose := LangAppMainOpenClose(lang, project)
-- 
2.43.0


From e4eb472a58e1b9324a95c59539920819d295b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:19 +0000
Subject: [PATCH 61/78] fix: reject a command without a known code, language,
 main or context before anything is written

---
 src/vxlisp/command.go | 32 ++++++++++++++++++++++++++++++++
 src/vxlisp/project.go |  2 ++
 2 files changed, 34 insertions(+)

diff --git a/src/vxlisp/command.go b/src/vxlisp/command.go
index e767587..502ddad 100644
--- a/src/vxlisp/command.go
+++ b/src/vxlisp/command.go
@@ -135,3 +135,35 @@ func ListCommandFromProject(
 	}
 	return output, msgblock
 }
+
+func ListCommandValidate(
+	project *vxproject,
+	listcommand []*vxcommand) *vxmsgblock {
+	msgblock := NewMsgBlock("ListCommandValidate")
+	for _, command := range listcommand {
+		switch command.code {
+		case ":doc", ":webserver":
+		case ":source", ":test":
+			if command.lang == nil {
+				msg := NewMsg(
+					"Command without a known :lang in project.vxlisp: " + command.name)
+				msgblock = MsgblockAddError(msgblock, msg)
+			}
+			if command.context != "" && FuncFromProjectFuncname(project, command.context) == emptyfunc {
+				msg := NewMsg(
+					"Context Not Found: (project (cmd :context " + command.context + "))")
+				msgblock = MsgblockAddError(msgblock, msg)
+			}
+			if command.main != "" && FuncFromProjectFuncname(project, command.main) == emptyfunc {
+				msg := NewMsg(
+					"Main Not Found: (project (cmd :main " + command.main + "))")
+				msgblock = MsgblockAddError(msgblock, msg)
+			}
+		default:
+			msg := NewMsg(
+				"Command without a known :code in project.vxlisp: " + command.name)
+			msgblock = MsgblockAddError(msgblock, msg)
+		}
+	}
+	return msgblock
+}
diff --git a/src/vxlisp/project.go b/src/vxlisp/project.go
index 650c734..94ee7ec 100644
--- a/src/vxlisp/project.go
+++ b/src/vxlisp/project.go
@@ -115,6 +115,8 @@ func ExecuteProjectFromArgs(
 		if !IsErrorFromMsgblock(msgblock) {
 			cmds, msgs := ListCommandFromProject(project, cmdtexts)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
+			msgs = ListCommandValidate(project, cmds)
+			msgblock = MsgblockAddBlock(msgblock, msgs)
 			if !IsErrorFromMsgblock(msgblock) {
 				msgs = ExecuteProjectCmds(project, cmds)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
-- 
2.43.0


From 6b869e383ca0d0cde1b109f05b6ec44237cc4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:52 +0000
Subject: [PATCH 62/78] fix: check the result of a function against the type it
 is used as

---
 src/vxlisp/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 353f5f7..93ec9e2 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -767,7 +767,7 @@ func ValueLink(
 				fnc.textblock = origfunc.textblock
 				fnc.debug = origfunc.debug
 				fnc.argname = origfunc.argname
-				if origfunc.vxtype.name != "" {
+				if origfunc.vxtype.name != "" && lookupfunc.vxtype.isgeneric {
 					fnc.vxtype = origfunc.vxtype
 				}
 			} else {
-- 
2.43.0


From 29549c5ac03f0d8d8c45804eff5621df289a7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:33 +0000
Subject: [PATCH 63/78] fix: report let, fn, <- and <<- without arguments
 instead of crashing

---
 src/vxlisp/value.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 93ec9e2..007bdc3 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -490,7 +490,7 @@ func ValueFromTextblock(
 		}
 		switch fnc.name {
 		case "<-", "<<-":
-			var prevarg vxarg
+			prevarg := NewArg("")
 			for argidx, arg := range fnc.listarg {
 				switch argidx {
 				case 0:
@@ -690,12 +690,14 @@ func ValueLink(
 		}
 		switch fnc.name {
 		case "fn", "let":
-			arglet := fnc.listarg[0]
-			listarglet := ListArgFromValue(arglet.value)
-			listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
-			msgblock = MsgblockAddBlock(msgblock, msgs)
-			arglet.value = NewValueFromArgList(listarglet)
-			fnc.listarg[0] = arglet
+			if len(fnc.listarg) > 0 {
+				arglet := fnc.listarg[0]
+				listarglet := ListArgFromValue(arglet.value)
+				listarglet, msgs := ListArgLinkType(listarglet, listscope, textblock, subpath)
+				msgblock = MsgblockAddBlock(msgblock, msgs)
+				arglet.value = NewValueFromArgList(listarglet)
+				fnc.listarg[0] = arglet
+			}
 		}
 		listscope = ListScopeAddFuncLocalArg(listscope, fnc)
 		chgargs, msgs := ListArgLink(
-- 
2.43.0


From 48c665839937e6be93b30bf437e107d17abc0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:35 +0000
Subject: [PATCH 64/78] fix: a JavaScript string that carries messages can be
 compared and printed

---
 dist/vxlisp/vx/core_js.txt | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 25b61d2..7923587 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -1435,8 +1435,15 @@
         }
         break
       case vx_core.t_string:
-        text = value.replaceAll("\"", "\\\"")
+        text = (value['vx_msgblock'] != null) ? value['vx_value'] : value
+        text = text.replaceAll("\"", "\\\"")
         text = '\"' + text + '\"'
+        if (value['vx_msgblock'] != null) {
+          const msgtext = vx_core.vx_string_from_any_indent(
+            value['vx_msgblock'], indent, linefeed
+          )
+          text = '(string ' + text + '\n ' + indenttext + msgtext + ')'
+        }
         break
       case vx_core.t_decimal:
         text = '' + value['vx_value']
-- 
2.43.0


From 1970992ae9f5c79e238901daae6ec6e80f157d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:02 +0000
Subject: [PATCH 65/78] fix: report an unknown type named in a call

---
 src/vxlisp/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 007bdc3..7b67cf1 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -675,6 +675,10 @@ func ValueLink(
 				if lookuptype.isgeneric {
 					fnc.generictype = lookuptype
 				}
+			} else if fnc.vxtype.name != "" {
+				msg := NewMsgFromTextblock(
+					textblock, 0, 0, subpath, "Function Type Not Found", functype.pkgname, functype.name)
+				msgblock = MsgblockAddError(msgblock, msg)
 			}
 		}
 		switch NameFromFunc(fnc) {
-- 
2.43.0


From c30919b5106c1bb1f0b8d00da3f6cee3fdd55a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:02 +0000
Subject: [PATCH 66/78] fix: check the type of a condition that is a call

---
 src/vxlisp/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vxlisp/value.go b/src/vxlisp/value.go
index 7b67cf1..0c34ea3 100644
--- a/src/vxlisp/value.go
+++ b/src/vxlisp/value.go
@@ -911,6 +911,11 @@ func ValueValidate(
 						msgblock = MsgblockAddBlock(msgblock, msgs)
 						//actualtype = actualfunc.vxtype
 						pass = true
+						if !actualfunc.vxtype.isgeneric {
+							_, pass, msgs = BooleanMatchFromTypeType(
+								expectedfuncref.vxtype, actualfunc.vxtype, multi, -1, subpath)
+							msgblock = MsgblockAddBlock(msgblock, msgs)
+						}
 					case "vx/core/any<-any", "vx/core/any<-any-async",
 						"v/core/any<-key-value", "vx/core/any<-key-value-async":
 						actualargs := actualfunc.listarg
-- 
2.43.0


From ce5de3ace6e85ff17f4d3da846ff323f001544bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:27 +0000
Subject: [PATCH 67/78] fix: count overloads as functions in the test coverage

---
 src/vxlisp/lang-cpp.go  | 2 +-
 src/vxlisp/lang-js.go   | 6 +-----
 src/vxlisp/lang-test.go | 2 +-
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 18b10c9..86a1fe8 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -4335,9 +4335,9 @@ func CppTestFromPackage(
 	funcheaders := ""
 	functexts := ""
 	for _, fncid := range fnckeys {
-		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
+			coverfunctotal += 1
 			test, msgs := CppTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 47fa2b0..6c5fc79 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1097,13 +1097,12 @@ func JsTestFromPackage(
 	coverfunctotal := 0
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	for _, fncid := range fnckeys {
-		isfound := false
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
 			switch fnc.clientserver {
 			case ":server":
 			default:
-				isfound = true
+				coverfunctotal += 1
 				test, msgs := JsTestFromFunc(lang, fnc)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
 				msgblock = MsgblockAddBlock(msgblock, msgs)
@@ -1123,9 +1122,6 @@ func JsTestFromPackage(
 				}
 			}
 		}
-		if isfound {
-			coverfunctotal += 1
-		}
 	}
 	coverbigospacepct := 100
 	if coverbigospacetotal > 0 {
diff --git a/src/vxlisp/lang-test.go b/src/vxlisp/lang-test.go
index d38bd68..ebedbd7 100644
--- a/src/vxlisp/lang-test.go
+++ b/src/vxlisp/lang-test.go
@@ -267,9 +267,9 @@ func LangTestFromPackage(
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	functexts := ""
 	for _, fncid := range fnckeys {
-		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
+			coverfunctotal += 1
 			test, msgs := LangTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			coverfunc = append(
-- 
2.43.0


From a7b12b06c04c14c21a03ca7e87aef4e46f6597a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:02 +0000
Subject: [PATCH 68/78] fix: the JavaScript test suite of a command without a
 context can be loaded

---
 src/vxlisp/lang-js.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 6c5fc79..c7a0daf 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -1432,7 +1432,7 @@ func JsAppTest(
 	lang *vxlang,
 	project *vxproject,
 	command *vxcommand) string {
-	includetext := ""
+	includetext := "\n"
 	contexttext := `
     const context = vx_core.f_context_main(arglist)`
 	if command.context == "" {
@@ -1449,7 +1449,7 @@ func JsAppTest(
 			default:
 				importname := vx_core.V_stringn_from_stringn_findn_replacen(
 					contextfunc.pkgname, "/", "_")
-				includetext += "\nimport " + importname + " from \"../src/" + contextfunc.pkgname + ".js\"\n"
+				includetext += "import " + importname + " from \"../src/" + contextfunc.pkgname + ".js\"\n"
 			}
 		}
 		if contextfunc.async {
-- 
2.43.0


From faa6aaadabe0cb31452715a3f862a96596dd05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:04 +0000
Subject: [PATCH 69/78] fix: keep every test of a type, not every other one

---
 src/vxlisp/type.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index b40d70f..3534d02 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -1137,15 +1137,13 @@ func TypeFromTextblock(
 		case 1:
 			typ.name = word
 		default:
+			if testcls && vx_core.V_booleann_from_stringn_startsn(word, ":") {
+				testcls = false
+			}
 			if testcls {
-				if vx_core.V_booleann_from_stringn_startsn(word, ":") {
-					testcls = false
-					lastword = word
-				} else {
-					testvalue, msgs := ValueFromTextblock(wordtextblock, emptyfunc, pkg)
-					msgblock = MsgblockAddBlock(msgblock, msgs)
-					testvalues = append(testvalues, testvalue)
-				}
+				testvalue, msgs := ValueFromTextblock(wordtextblock, emptyfunc, pkg)
+				msgblock = MsgblockAddBlock(msgblock, msgs)
+				testvalues = append(testvalues, testvalue)
 			} else if lastword != "" {
 				switch lastword {
 				case ":":
-- 
2.43.0


From e27931cdc5cb4ed286102aea2db75e086c3f3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:35 +0000
Subject: [PATCH 70/78] fix: the text of a test with characters beyond ASCII is
 not cut short

---
 src/vxlisp/textblock.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index 0b814b1..622d2fd 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -1,6 +1,8 @@
 package vxlisp
 
 import (
+	"unicode/utf8"
+
 	vx_core "vxlisp/vxlisp/vx/core"
 )
 
@@ -38,6 +40,16 @@ func StringFromTextblock(textblock *vxtextblock) string {
 	return StringFromTextblockIndent(textblock, "")
 }
 
+// IntPosFromStringChars gives the byte position a number of characters after pos
+func IntPosFromStringChars(text string, pos int, chars int) int {
+	for chars > 0 && pos >= 0 && pos < len(text) {
+		_, size := utf8.DecodeRuneInString(text[pos:])
+		pos += size
+		chars -= 1
+	}
+	return pos + chars
+}
+
 func StringFromTextblockStartEnd(textblock *vxtextblock, startline int, startchar int, endline int, endchar int) string {
 	output := ""
 	text := textblock.text
@@ -46,14 +58,14 @@ func StringFromTextblockStartEnd(textblock *vxtextblock, startline int, startcha
 	startpos := 0
 	endpos := 0
 	if startlinenum == 0 {
-		startpos = startchar - textblock.charnum
+		startpos = IntPosFromStringChars(text, 0, startchar-textblock.charnum)
 	} else {
-		startpos = IntFromStringFindNth(text, "\n", startlinenum) + startchar
+		startpos = IntPosFromStringChars(text, IntFromStringFindNth(text, "\n", startlinenum), startchar)
 	}
 	if endlinenum == 0 {
-		endpos = endchar - textblock.charnum + 1
+		endpos = IntPosFromStringChars(text, 0, endchar-textblock.charnum+1)
 	} else {
-		endpos = IntFromStringFindNth(text, "\n", endlinenum) + endchar + 1
+		endpos = IntPosFromStringChars(text, IntFromStringFindNth(text, "\n", endlinenum), endchar+1)
 	}
 	output = vx_core.V_stringn_from_string_startn_endn(text, startpos, endpos)
 	if startchar > 1 {
-- 
2.43.0


From 70b602e4bcf8b9095aa9a9274a48e53fd360b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:32:26 +0000
Subject: [PATCH 71/78] fix: the Java test suite of a command without a context
 compiles

---
 src/vxlisp/lang-native.go | 14 ++++++++++++++
 src/vxlisp/lang-test.go   |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 0400929..8527471 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -3007,6 +3007,20 @@ func LangTestPackagePrefix(
 	return output
 }
 
+func LangTestContext(
+	lang *vxlang,
+	pkgprefix string) string {
+	output := LangPkgNameDot(lang, "vx/test") + "f_context_test"
+	switch lang {
+	case langjava:
+		// Test alone is the annotation of JUnit
+		output = pkgprefix + "vx." + output
+	default:
+		output = pkgprefix + output
+	}
+	return output
+}
+
 func LangTestPackages(
 	lang *vxlang,
 	project *vxproject,
diff --git a/src/vxlisp/lang-test.go b/src/vxlisp/lang-test.go
index ebedbd7..ef2bedd 100644
--- a/src/vxlisp/lang-test.go
+++ b/src/vxlisp/lang-test.go
@@ -18,7 +18,7 @@ func LangTestApp(
 		contexttext += "" +
 			LangVarStatic(lang, 2, contexttype,
 				"context",
-				pkgprefix+LangPkgNameDot(lang, "vx/test")+"f_context_test(arglist)")
+				LangTestContext(lang, pkgprefix)+"(arglist)")
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, command.context)
 		if command.context != "" && contextfunc == emptyfunc {
-- 
2.43.0


From 2b4a33fffad17b2ebb8b515ebc105c8fdb74e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:25 +0000
Subject: [PATCH 72/78] fix: the text about a parameter is shown as written on
 the documentation page

---
 src/vxlisp/doc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 945625e..066c458 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -74,7 +74,7 @@ func HtmlFromListFuncIndent(listfunc []*vxfunc, indent string) (string, string)
 			lineindent + "          <div class=\"td\">Description</div>" +
 			lineindent + "        </div>"
 		for _, arg := range fnc.listarg {
-			argdoc := arg.doc
+			argdoc := HtmlFromString(arg.doc)
 			arguments += "" +
 				lineindent + "        <div class=\"tr\">" +
 				lineindent + "          <div class=\"td\">" + HtmlFromString(arg.name) + "</div>" +
-- 
2.43.0


From 59296836cc47f0669308f7ca03a0136ec246d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:17 +0000
Subject: [PATCH 73/78] fix: a property, allowed type or trait named with its
 library is the type of that library

---
 src/vxlisp/type.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/type.go b/src/vxlisp/type.go
index 3534d02..45fdd0c 100644
--- a/src/vxlisp/type.go
+++ b/src/vxlisp/type.go
@@ -765,7 +765,7 @@ func ListTypeLink(
 		if len(typ.traits) > 0 {
 			var values []*vxtype
 			for _, val := range typ.traits {
-				chgval, ok := TypeOrFuncFromListScope(scopes, "", val.name, subpath)
+				chgval, ok := TypeOrFuncFromListScope(scopes, val.pkgname, val.name, subpath)
 				if ok {
 					values = append(values, chgval)
 				} else {
@@ -783,7 +783,7 @@ func ListTypeLink(
 			var values []*vxtype
 			for _, val := range typ.allowtypes {
 				chgval, ok := TypeOrFuncFromListScope(
-					scopes, "", val.name, subpath)
+					scopes, val.pkgname, val.name, subpath)
 				if ok {
 					values = append(values, chgval)
 				} else {
@@ -798,7 +798,7 @@ func ListTypeLink(
 			var values []*vxtype
 			for _, val := range typ.disallowtypes {
 				chgval, ok := TypeOrFuncFromListScope(
-					scopes, "", val.name, subpath)
+					scopes, val.pkgname, val.name, subpath)
 				if ok {
 					values = append(values, chgval)
 				} else {
@@ -872,7 +872,7 @@ func ListTypeLink(
 		if len(typ.properties) > 0 {
 			var properties []vxarg
 			for _, property := range typ.properties {
-				lookuptype, ok := TypeOrFuncFromListScope(scopes, "", property.vxtype.name, subpath)
+				lookuptype, ok := TypeOrFuncFromListScope(scopes, property.vxtype.pkgname, property.vxtype.name, subpath)
 				if ok {
 					property.vxtype = lookuptype
 					properties = append(properties, property)
-- 
2.43.0


From dd303f7a6f1014513fba06f824d832c3d1bda7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:31 +0000
Subject: [PATCH 74/78] fix: links to generic types and function types lead to
 an entry of the documentation page

---
 src/vxlisp/doc.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vxlisp/doc.go b/src/vxlisp/doc.go
index 066c458..ffe3377 100644
--- a/src/vxlisp/doc.go
+++ b/src/vxlisp/doc.go
@@ -795,7 +795,7 @@ func HtmlLinkFromPackageName(pkgname string) string {
 
 func HtmlLinkFromType(typ *vxtype) string {
 	output := "" +
-		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlNameFromType(typ) + "')\">" + HtmlFromString(typ.pkgname) + "/" + HtmlFromString(typ.name) + "</span>"
+		"<span class=\"ntype\" onclick=\"docjs.navigate('" + HtmlTargetFromType(typ) + "')\">" + HtmlFromString(typ.pkgname) + "/" + HtmlFromString(typ.name) + "</span>"
 	return output
 }
 
@@ -813,7 +813,7 @@ func HtmlLinkNameFromFunc(fnc *vxfunc) string {
 
 func HtmlLinkNameFromType(typ *vxtype) string {
 	output := "" +
-		"<span class=\"ntype\" onclick=\"docjs.navigate('type_" + HtmlNameFromType(typ) + "')\">" + HtmlFromString(typ.name) + "</span>"
+		"<span class=\"ntype\" onclick=\"docjs.navigate('" + HtmlTargetFromType(typ) + "')\">" + HtmlFromString(typ.name) + "</span>"
 	return output
 }
 
@@ -840,6 +840,20 @@ func HtmlNameFromType(typ *vxtype) string {
 	return output
 }
 
+// HtmlTargetFromType returns the entry of a type:
+// a function used as a type has the entry of the function,
+// a generic type such as list-1 that of the type it stands for
+func HtmlTargetFromType(typ *vxtype) string {
+	output := "type_" + HtmlNameFromType(typ)
+	if typ.isfunc {
+		output = "func_" + HtmlNameFromType(typ)
+	} else if typ.isgeneric {
+		ipos := vx_core.V_intn_from_stringn_findlastn(output, "-")
+		output = output[0:ipos]
+	}
+	return output
+}
+
 func WriteDocFromProjectCmd(project *vxproject, command *vxcommand) *vxmsgblock {
 	msgblock := NewMsgBlock("WriteDocFromProjectCmd")
 	html := HtmlFromProject(project)
-- 
2.43.0


From 0e86c618c59094c5595152ef3af838772b50cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:21 +0000
Subject: [PATCH 75/78] fix: a binding before an awaited one can be read by the
 bindings after it in C++

---
 src/vxlisp/lang-cpp.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 86a1fe8..ac73cb9 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -268,17 +268,6 @@ func CppCaptureFromValue(
 	return output
 }
 
-func CppCaptureFromValueListInner(
-	value vxvalue,
-	listinnerarg []string,
-	path string) string {
-	var listcapturetext []string = ListCaptureFromValue(
-		value, listinnerarg, path)
-	output := vx_core.V_stringn_from_liststringn_joinn(
-		listcapturetext, ", ")
-	return output
-}
-
 func CppFolderCopyTestdataFromProjectPath(
 	project *vxproject,
 	targetpath string) *vxmsgblock {
@@ -2831,7 +2820,15 @@ func CppFromValue(
 											default:
 												lambdarelease = arglineindent + "vx_core::vx_release_one({" + vx_core.V_stringn_from_liststringn_joinn(lambdaargrelease, ", ") + "});"
 											}
-											valuecapturetext := CppCaptureFromValueListInner(funcarg.value, localargs, valuesubpath)
+											listcapture := ListCaptureFromValue(funcarg.value, localargs, valuesubpath)
+											for _, laterarg := range arglist[lambdaidx+1:] {
+												for _, outer := range ListCaptureFromValue(laterarg.value, localargs, valuesubpath) {
+													if !vx_core.V_booleann_from_liststringn_containsn(listcapture, outer) {
+														listcapture = append(listcapture, outer)
+													}
+												}
+											}
+											valuecapturetext := vx_core.V_stringn_from_liststringn_joinn(listcapture, ", ")
 											lambdavaluetext, msgs := CppFromValue(lang, lambdaarg.value, pkgname, fnc, argindent, true, test, lambdaargpath)
 											msgblock = MsgblockAddBlock(msgblock, msgs)
 											outputname := "output_" + vx_core.V_stringn_from_intn(argindent)
-- 
2.43.0


From 6ffe95662b038417111b6daeff4d37780ac463c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:50 +0000
Subject: [PATCH 76/78] fix: functions written in place before an awaited
 binding keep the Java output variables apart

---
 src/vxlisp/lang-func.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/lang-func.go b/src/vxlisp/lang-func.go
index 4bb5b90..e321140 100644
--- a/src/vxlisp/lang-func.go
+++ b/src/vxlisp/lang-func.go
@@ -657,6 +657,7 @@ func LangFuncLambdaArgIndex(
 	listarglambda []vxarg,
 	indexarglambda int,
 	isstart bool,
+	lastoutputnum int,
 	pkgname string,
 	fnc *vxfunc,
 	argvalue vxvalue,
@@ -675,6 +676,7 @@ func LangFuncLambdaArgIndex(
 		if iswrapped {
 			g_ifuncdepth += 1
 			ioutputnum = g_ifuncdepth
+			lastoutputnum = ioutputnum
 			outputname = "output_" + vx_core.V_stringn_from_intn(ioutputnum)
 			listarg := fnc.listarg
 			lastarg := listarg[len(listarg)-1]
@@ -687,7 +689,6 @@ func LangFuncLambdaArgIndex(
 			}
 		}
 		if lambdaarg.async {
-			lastoutputnum := g_ifuncdepth
 			lastoutputname := "output_" + vx_core.V_stringn_from_intn(lastoutputnum)
 			listarg := fnc.listarg
 			lastarg := listarg[len(listarg)-1]
@@ -704,7 +705,7 @@ func LangFuncLambdaArgIndex(
 				outputname, sfncvalue)
 			slambdarest := ""
 			work, msgs := LangFuncLambdaArgIndex(lang, indent+2,
-				listarglambda, indexarglambda+1, false, pkgname, fnc, argvalue, test, path)
+				listarglambda, indexarglambda+1, false, ioutputargnum, pkgname, fnc, argvalue, test, path)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			slambdarest = work
 			sfuturevar := LangValFuture(lang, indent+1, lambdaarg.vxtype,
@@ -734,7 +735,7 @@ func LangFuncLambdaArgIndex(
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			slambdarest := ""
 			work, msgs := LangFuncLambdaArgIndex(lang, indent,
-				listarglambda, indexarglambda+1, false, pkgname, fnc, argvalue, test, path)
+				listarglambda, indexarglambda+1, false, lastoutputnum, pkgname, fnc, argvalue, test, path)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			slambdarest = work
 			slambdavar := LangVal(lang, indent+2, lambdaarg.vxtype,
@@ -1057,7 +1058,7 @@ func LangFuncValueArgIndex(
 				case 1:
 					lambdaarglist := ListArgLocalFromFunc(fnc)
 					lambdaargs, msgs := LangFuncLambdaArgIndex(lang, indent,
-						lambdaarglist, 0, true, pkgname, fnc, argvalue, test, argsubpath)
+						lambdaarglist, 0, true, 0, pkgname, fnc, argvalue, test, argsubpath)
 					msgblock = MsgblockAddBlock(msgblock, msgs)
 					output = lambdaargs
 				}
-- 
2.43.0


From 76509d3e71cd651ef3e2b3b9a4e6426a3cdae6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:23 +0000
Subject: [PATCH 77/78] fix: a let that awaits nothing gives its value inside
 an async function in JavaScript

---
 src/vxlisp/lang-js.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index c7a0daf..8907fca 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -754,7 +754,11 @@ func JsFromValue(
 								"\n  " + lambdatext +
 								"\n  return " + work +
 								"\n}"
-							if parentfn.async {
+							isasync := fnc.async
+							if argvalue.code == ":func" && FuncFromValue(argvalue).async {
+								isasync = true
+							}
+							if isasync {
 								argtext = "async " + argtext
 							}
 							argtext = "vx_core.f_new_from_type(" + LangTypeTGeneric(lang, funcarg.vxtype) + ", " + argtext + ")"
-- 
2.43.0


From 33a925b2c06cc48d5afc71bae6d61a2ac4c8eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:54 +0000
Subject: [PATCH 78/78] fix: name the context of a Java test suite where its
 prefix is chosen

The generator of test suites is as it was before.
---
 src/vxlisp/lang-native.go | 14 --------------
 src/vxlisp/lang-test.go   |  4 ++--
 src/vxlisp/lang.go        |  7 ++++++-
 3 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/vxlisp/lang-native.go b/src/vxlisp/lang-native.go
index 8527471..0400929 100644
--- a/src/vxlisp/lang-native.go
+++ b/src/vxlisp/lang-native.go
@@ -3007,20 +3007,6 @@ func LangTestPackagePrefix(
 	return output
 }
 
-func LangTestContext(
-	lang *vxlang,
-	pkgprefix string) string {
-	output := LangPkgNameDot(lang, "vx/test") + "f_context_test"
-	switch lang {
-	case langjava:
-		// Test alone is the annotation of JUnit
-		output = pkgprefix + "vx." + output
-	default:
-		output = pkgprefix + output
-	}
-	return output
-}
-
 func LangTestPackages(
 	lang *vxlang,
 	project *vxproject,
diff --git a/src/vxlisp/lang-test.go b/src/vxlisp/lang-test.go
index ef2bedd..d38bd68 100644
--- a/src/vxlisp/lang-test.go
+++ b/src/vxlisp/lang-test.go
@@ -18,7 +18,7 @@ func LangTestApp(
 		contexttext += "" +
 			LangVarStatic(lang, 2, contexttype,
 				"context",
-				LangTestContext(lang, pkgprefix)+"(arglist)")
+				pkgprefix+LangPkgNameDot(lang, "vx/test")+"f_context_test(arglist)")
 	} else {
 		contextfunc := FuncFromProjectFuncname(project, command.context)
 		if command.context != "" && contextfunc == emptyfunc {
@@ -267,9 +267,9 @@ func LangTestFromPackage(
 	fnckeys := ListKeyFromMapFunc(pkg.mapfunc)
 	functexts := ""
 	for _, fncid := range fnckeys {
+		coverfunctotal += 1
 		fncs := pkg.mapfunc[fncid]
 		for _, fnc := range fncs {
-			coverfunctotal += 1
 			test, msgs := LangTestFromFunc(lang, fnc)
 			msgblock = MsgblockAddBlock(msgblock, msgs)
 			coverfunc = append(
diff --git a/src/vxlisp/lang.go b/src/vxlisp/lang.go
index c982d97..7a79885 100644
--- a/src/vxlisp/lang.go
+++ b/src/vxlisp/lang.go
@@ -52,8 +52,13 @@ func LangFilesFromProjectCmd(
 		file := NewFile()
 		file.name = "AppTest" + lang.sourcefile
 		file.path = LangAppTestPath(lang, testpath)
+		testprefix := pkgprefix
+		if lang == langjava {
+			// Test alone is the annotation of JUnit
+			testprefix += "vx."
+		}
 		file.text = LangTestApp(
-			lang, project, command, pkgprefix)
+			lang, project, command, testprefix)
 		files = append(files, file)
 		file = NewFile()
 		file.name = "TestLib" + lang.sourcefile
-- 
2.43.0

