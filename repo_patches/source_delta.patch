From 64d7a3b25320b72f6aa8600a3e57b521eba48cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 01/27] fix: New<Primitive>Array leaked its zero-initialised
 buffer

Array(T*, length) copies the given data, so the temporary was never freed.
---
 src/jnivm/internal/array.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..85bb1ca 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/class.h>
+#include <algorithm>
 #include "array.hpp"
 
 using namespace jnivm;
@@ -28,7 +29,8 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    std::fill_n(arr->getArray(), length, T{});
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From b32ed4b9577e0b66e9238ee921279ff09678364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 02/27] fix: NewObjectArray stored a global or weak reference
 instead of its object

---
 src/jnivm/internal/array.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 85bb1ca..eb8173c 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -14,9 +14,10 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
-    if(init) {
+    auto value = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
+    if(value) {
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = value;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From 59c05c3da227dd2a54da0668accbefc50bb348e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 03/27] fix: FromReflectedMethod/Field never recognised
 reflected objects

ToReflected* returned an object without class, so the class comparison
failed, and a global or weak reference would have been used as identifier
itself instead of the object it refers to.
---
 src/jnivm/vm.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..e120921 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -32,23 +32,17 @@ jclass FindClass(JNIEnv *env, const char *name) {
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
-	} else {
-		return nullptr;
-	}
+	auto ref = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj);
+	return (jmethodID) dynamic_cast<Method*>(ref.get());
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
-	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
-	} else {
-		return nullptr;
-	}
+	auto ref = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj);
+	return (jfieldID) dynamic_cast<Field*>(ref.get());
 };
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
 	if(c && method && method->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) method);
+		return JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
 	return 0;
 };
@@ -75,7 +69,7 @@ jboolean IsAssignableFrom(JNIEnv *env, jclass c1, jclass c2) {
 jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic) {
 	auto field = (Field*)fid;
 	if(c && field && field->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) field);
+		return JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Field>(field->shared_from_this(), field));
 	}
 	return 0;
 };
-- 
2.43.0


From 76a089e93afc30a09608f32d25b15343b97e87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 04/27] fix: RegisterNatives did not replace an already
 registered native

---
 src/jnivm/vm.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index e120921..7365150 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -260,11 +260,18 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
-			auto m = std::make_shared<Method>();
-			m->name = method->name;
-			m->signature = method->signature;
-			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			auto registered = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](const std::shared_ptr<Method>& m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(registered != clazz->methods.end()) {
+				(*registered)->native = method->fnPtr;
+			} else {
+				auto m = std::make_shared<Method>();
+				m->name = method->name;
+				m->signature = method->signature;
+				m->native = method->fnPtr;
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From 659dc9ea65d75d5f4624c4078f1df009008b9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 05/27] fix: attaching an attached library again unloaded it
 behind its back

The rejected second instance ran JNI_OnLoad again and, when dropped,
JNI_OnUnload and dlclose.
---
 include/fake-jni/fake-jni.h | 3 +++
 src/fake-jni/fake-jni.cpp   | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 54707e1..35dfa2c 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -64,6 +64,9 @@ namespace FakeJni {
         public:
             libinst(const std::string& rpath, JavaVM* javaVM, LibraryOptions loptions);
             ~libinst();
+            bool loaded() const {
+                return handle != nullptr;
+            }
         };
         std::unordered_map<std::string, std::unique_ptr<libinst>> libraries;
         // JNIInvokeInterface oldinterface;
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..7111a43 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,7 +88,14 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
-	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	if(libraries.find(rpath) != libraries.end()) {
+		return;
+	}
+	auto lib = std::make_unique<libinst>(rpath, this, loptions);
+	// Keep nothing if it could not be opened, to be able to retry
+	if(lib->loaded()) {
+		libraries.insert({ rpath, std::move(lib) });
+	}
 }
 
 void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &options) {
-- 
2.43.0


From ebb50bd777405cb2e1fe985ece037975f0ba8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 06/27] fix: wrong or missing default arrays for unimplemented
 members

boolean arrays were missing, nested arrays got one dimension too many, and
an element class unknown to a strict FindClass was dereferenced as null.
---
 src/jnivm/internal/method.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..05bfd0e 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -99,6 +99,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
@@ -114,8 +116,10 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             case 'D':
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
-            case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+            case '[': {
+                auto element = env->GetClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]);
+                return env->GetJNIEnv()->NewObjectArray(0, JNITypes<std::shared_ptr<Class>>::ToJNIType(env, element), nullptr);
+            }
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From d00a7e01251d02bb50575a0836d9ce0a1ae17990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 07/27] fix: unterminated descriptors were read past their end

---
 src/jnivm/internal/codegen/parseJNIType.cpp | 7 ++++++-
 src/jnivm/internal/findclass.cpp            | 4 ++++
 src/jnivm/internal/skipJNIType.cpp          | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/codegen/parseJNIType.cpp b/src/jnivm/internal/codegen/parseJNIType.cpp
index 4ca4667..7907718 100644
--- a/src/jnivm/internal/codegen/parseJNIType.cpp
+++ b/src/jnivm/internal/codegen/parseJNIType.cpp
@@ -66,6 +66,10 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 		}
 		break;
 	case '[':
+		if(last + 1 == end) {
+			// Missing element type
+			break;
+		}
 		cur = ParseJNIType(last + 1, end, type);
 		if(!JNIVM_FAKE_JNI_SYNTAX) {
 			type = "std::shared_ptr<jnivm::Array<" + ( type.rfind("std::shared_ptr<" , 0) == 0 && type[type.length() - 1] == '>' ? type.substr(16, type.length() - 17) : type) + ">>";
@@ -122,7 +126,8 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 																"::") +
 						">";
 		}
-		cur = cend;
+		// Never step over the end, if the class name is unterminated
+		cur = cend == end ? end - 1 : cend;
 		break;
 	}
 	return cur;
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..9d6457a 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -108,6 +108,10 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 			cur++) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
+			if(cend == end) {
+				// Unterminated class name
+				break;
+			}
 			std::string classpath(cur + 1, cend);
 			InternalFindClass(env, classpath.data());
 			cur = cend;
diff --git a/src/jnivm/internal/skipJNIType.cpp b/src/jnivm/internal/skipJNIType.cpp
index adec7d6..7bbabf1 100644
--- a/src/jnivm/internal/skipJNIType.cpp
+++ b/src/jnivm/internal/skipJNIType.cpp
@@ -2,6 +2,9 @@
 #include <algorithm>
 
 const char * jnivm::SkipJNIType(const char *cur, const char *end) {
+    if(cur == end) {
+        return end;
+    }
     switch (*cur) {
     case 'V':
             // Void has size 0 ignore it
@@ -20,6 +23,9 @@ const char * jnivm::SkipJNIType(const char *cur, const char *end) {
             break;
     case 'L':
             cur = std::find(cur, end, ';');
+            if(cur == end) {
+                return end;
+            }
             break;
     case '(':
             return SkipJNIType(cur + 1, end);
-- 
2.43.0


From 0f979e0436721ff89317a1c9b786e13ccaa183a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 08/27] fix: thrown throwables without native exception
 aborted, ThrowNew ignored its class

---
 include/jnivm/method.h | 3 +++
 src/jnivm/vm.cpp       | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index bbba0f7..62352fd 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -138,6 +138,9 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
         ret = jinvoke(*ENV::FromJNIEnv(&env), cl, args);
     }
     if((ENV::FromJNIEnv(&env))->current_exception) {
+        if(!(ENV::FromJNIEnv(&env))->current_exception->except) {
+            throw std::runtime_error("Pending exception without native exception");
+        }
         std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);
     }
     return ret;
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7365150..56ee7d7 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -84,6 +84,7 @@ jint ThrowNew(JNIEnv *env, jclass c, const char * message) {
 	} catch(...) {
 		auto th = std::make_shared<Throwable>();
 		th->except = std::current_exception();
+		th->clazz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
 		(ENV::FromJNIEnv(env))->current_exception = th;
 	}
 	return 0;
@@ -93,6 +94,10 @@ jthrowable ExceptionOccurred(JNIEnv * env) {
 };
 void ExceptionDescribe(JNIEnv *env) {
 	if((ENV::FromJNIEnv(env))->current_exception) {
+		if(!(ENV::FromJNIEnv(env))->current_exception->except) {
+			LOG("JNIVM", "Exception without native exception was thrown");
+			return;
+		}
 		try {
 			std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
 		} catch (const std::exception& ex) {
-- 
2.43.0


From e8a66232fcba8b43e6411f7b7d5ea27f0b8f9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 09/27] fix: exceptions of field accessors propagated through
 the function table

Methods already turn them into the pending exception.
---
 src/jnivm/internal/field.cpp | 18 ++++++++++++++++--
 src/jnivm/vm.cpp             |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..336d6ec 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -3,6 +3,7 @@
 #include "log.h"
 #include <jnivm/field.h>
 #include <jnivm/class.h>
+#include <jnivm/throwable.h>
 #include <functional>
 #include "method.h"
 
@@ -120,7 +121,14 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        try {
+            return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        } catch (...) {
+            auto cur = std::make_shared<Throwable>();
+            cur->except = std::current_exception();
+            (ENV::FromJNIEnv(env))->current_exception = cur;
+            return defaultVal<T>(ENV::FromJNIEnv(env), fid->type);
+        }
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -149,7 +157,13 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         jvalue val;
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        try {
+            Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        } catch (...) {
+            auto cur = std::make_shared<Throwable>();
+            cur->except = std::current_exception();
+            (ENV::FromJNIEnv(env))->current_exception = cur;
+        }
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 56ee7d7..7c5ca67 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -80,7 +80,7 @@ jint Throw(JNIEnv *env, jthrowable ex) {
 };
 jint ThrowNew(JNIEnv *env, jclass c, const char * message) {
 	try {
-		throw std::runtime_error(message);
+		throw std::runtime_error(message ? message : "");
 	} catch(...) {
 		auto th = std::make_shared<Throwable>();
 		th->except = std::current_exception();
-- 
2.43.0


From 715aa058f67838b3583077e0681f22f9a593f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 10/27] fix: out of range array and string accesses corrupted
 memory instead of raising an exception

Also raise ArrayStoreException instead of letting a C++ exception escape
from the function table, if an element has the wrong class.
---
 src/jnivm/internal/array.cpp  | 53 +++++++++++++++++++++++++++++++++--
 src/jnivm/internal/string.cpp | 14 +++++++++
 2 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index eb8173c..dff71bc 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -4,10 +4,39 @@
 
 using namespace jnivm;
 
+static bool CheckLength(JNIEnv *env, jsize length) {
+    if(length >= 0) {
+        return true;
+    }
+    env->ThrowNew(env->FindClass("java/lang/NegativeArraySizeException"), "Negative array length");
+    return false;
+}
+
+static bool CheckRegion(JNIEnv *env, jsize size, jsize start, jsize len) {
+    if(start >= 0 && len >= 0 && start <= size - len) {
+        return true;
+    }
+    env->ThrowNew(env->FindClass("java/lang/ArrayIndexOutOfBoundsException"), "Array region out of bounds");
+    return false;
+}
+
+static bool StoreElement(JNIEnv *env, Array<Object>& arr, jsize i, const std::shared_ptr<Object>& value) {
+    try {
+        arr[i] = value;
+        return true;
+    } catch(const std::exception& ex) {
+        env->ThrowNew(env->FindClass("java/lang/ArrayStoreException"), ex.what());
+        return false;
+    }
+}
+
 jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {
     return a ? JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a)->getSize() : 0;
 }
 jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject init) {
+    if(!CheckLength(env, length)) {
+        return nullptr;
+    }
     auto cl0 = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
     auto classname = cl0->nativeprefix[0] == '[' ? "[" + cl0->nativeprefix : "[L" + cl0->nativeprefix + ";";
     auto cl = InternalFindClass(ENV::FromJNIEnv(env), classname.data());
@@ -17,19 +46,31 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     auto value = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
     if(value) {
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = value;
+            if(!StoreElement(env, *arr, i, value)) {
+                return nullptr;
+            }
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
 jobject jnivm::GetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i ) {
-    return JNITypes<std::shared_ptr<Object>>::ToJNIType(ENV::FromJNIEnv(env), (std::shared_ptr<Object>) (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i]);
+    auto arr = JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(env, arr->getSize(), i, 1)) {
+        return nullptr;
+    }
+    return JNITypes<std::shared_ptr<Object>>::ToJNIType(ENV::FromJNIEnv(env), (std::shared_ptr<Object>) (*arr)[i]);
 }
 void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject v) {
-    (*JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a))[i] = v ? JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), v) : nullptr;
+    auto arr = JNITypes<std::shared_ptr<Array<Object>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(CheckRegion(env, arr->getSize(), i, 1)) {
+        StoreElement(env, *arr, i, JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), v));
+    }
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
+    if(!CheckLength(env, length)) {
+        return nullptr;
+    }
     auto arr = std::make_shared<Array<T>>(length);
     std::fill_n(arr->getArray(), length, T{});
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
@@ -52,12 +93,18 @@ void jnivm::ReleaseArrayElements(JNIEnv *, typename JNITypes<T>::Array a, T *car
 template <class T>
 void jnivm::GetArrayRegion(JNIEnv *env, typename JNITypes<T>::Array a, jsize start, jsize len, T * buf) {
     auto ja = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(env, ja->getSize(), start, len)) {
+        return;
+    }
     memcpy(buf, ja->getArray() + start, sizeof(T)* len);
 }
 
 template <class T>
 void jnivm::SetArrayRegion(JNIEnv *env, typename JNITypes<T>::Array a, jsize start, jsize len, const T * buf) {
     auto ja = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    if(!CheckRegion(env, ja->getSize(), start, len)) {
+        return;
+    }
     memcpy(ja->getArray() + start, buf, sizeof(T)* len);
 }
 
diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 0504e7b..09f59e3 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -73,8 +73,19 @@ void jnivm::ReleaseStringUTFChars(JNIEnv * env, jstring str, const char * cstr)
     // Never copied, never free
 };
 
+static bool CheckRegion(JNIEnv *env, jstring str, jsize start, jsize length) {
+    if(start >= 0 && length >= 0 && start <= GetStringLength(env, str) - length) {
+        return true;
+    }
+    env->ThrowNew(env->FindClass("java/lang/StringIndexOutOfBoundsException"), "String region out of bounds");
+    return false;
+}
+
 void jnivm::GetStringRegion(JNIEnv *env, jstring str, jsize start, jsize length, jchar * buf) {
     std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(!CheckRegion(env, str, start, length)) {
+        return;
+    }
     jchar* bend = buf + length;
     auto cur = cstr->data(), end = cur + cstr->length();
     while(start) {
@@ -91,6 +102,9 @@ void jnivm::GetStringRegion(JNIEnv *env, jstring str, jsize start, jsize length,
 
 void jnivm::GetStringUTFRegion(JNIEnv *env, jstring str, jsize start, jsize len, char * buf) {
     std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(!CheckRegion(env, str, start, len)) {
+        return;
+    }
     char * bend = buf + len;
     auto cur = cstr->data(), end = cur + cstr->length();
     while(start) {
-- 
2.43.0


From e060d9cefd4bfddb21c03268d3a5f3d2160f6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 11/27] fix: instance calls ignored overrides of intermediate
 base classes

Calls on a class without own implementation ran the one the identifier was
obtained from, instead of the nearest inherited one, non-virtual calls of
inherited methods dereferenced null, and identifiers of unimplemented base
methods never reached the implementation of a derived class.
---
 src/jnivm/internal/method.cpp | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 05bfd0e..271564a 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -169,27 +169,31 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
     return nullptr;
 }
 
-static Method* findNonVirtualOverload(Class*cl, Method*mid) {
+// Finds the implementation the class has or inherits from the nearest base class
+static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     if(!cl) {
-        return mid;
+        return nullptr;
     }
     auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
         return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
     });
     if(res != cl->methods.end()) {
         return res->get();
-    } else {
-        return nullptr;
     }
+    if(cl->baseclasses) {
+        for(auto&& base : cl->baseclasses(env)) {
+            auto r = findOverload(env, base.get(), mid);
+            if(r) {
+                return r;
+            }
+        }
+    }
+    return nullptr;
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
-    auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
-    }
+static Method* resolveOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = mid ? findOverload(env, cl, mid) : nullptr;
+    return r ? r : mid;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -200,10 +204,13 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto object = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj);
+    if(object) {
+        mid = resolveOverload(ENV::FromJNIEnv(env), object->getClassInternal(ENV::FromJNIEnv(env)).get(), mid);
+    }
     if (mid && mid->nativehandle) {
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
-        mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
 #ifdef JNI_TRACE
+        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
         try {
@@ -262,12 +269,12 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    mid = resolveOverload(ENV::FromJNIEnv(env), clz.get(), mid);
     if (mid && mid->nativehandle) {
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl); 
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
@@ -281,7 +288,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
         LOG("JNIVM", "Call Unknown NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From f53dcb6fe0612e8e12d3f6ef88c48a8b5a830dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 12/27] fix: arrays of classes with two or more ancestors
 corrupted their elements through base views

The storage was reinterpreted as pointers to an intermediate class, which
lie elsewhere than pointers to the element class.
---
 include/jnivm/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..b223778 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -243,14 +243,15 @@ namespace jnivm {
 
         template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
+                // The elements may be of a class derived from Z, let the most derived array access them
+                return dynamic_cast<const Array<Z, void, false>*>(this)->Get(i, array_type_t<Z>{});
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                 std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                 if(val && !nval) {
                     throw std::runtime_error("Class Type Exception");
                 }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+                dynamic_cast<Array<Z, void, false>*>(this)->Set(i, nval);
             }
         };
 
-- 
2.43.0


From 94fb53a6563a790997cf9fd00c4f99d09da2e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 13/27] fix: destructors of objects released by detach or
 PopLocalFrame could not use the VM

DetachCurrentThread destroyed them while holding the VM lock and without
environment, PopLocalFrame while clearing the frame they add references to.
---
 src/jnivm/vm.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7c5ca67..6ea0e0b 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -135,13 +135,16 @@ jobject PopLocalFrame(JNIEnv * env, jobject result) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	// save reference on stack
 	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);
-	// Clear current Frame and move to freelist
-	nenv.localframe.front().clear();
-	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
+	// Detach current Frame first, destructors of the released objects may use this ENV
+	decltype(nenv.localframe) popped;
+	popped.splice_after(popped.before_begin(), nenv.localframe, nenv.localframe.before_begin());
 	if(nenv.localframe.empty()) {
 		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
 		nenv.localframe.emplace_front();
 	}
+	// Clear it and move to freelist
+	popped.front().clear();
+	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), popped, popped.before_begin());
 	// Add result to previous frame
 	if(res) {
 		return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
@@ -493,11 +496,23 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
-				auto fe = nvm.jnienvs.end();
-				auto f = nvm.jnienvs.find(pthread_self());
-				if(f != fe) {
-					nvm.jnienvs.erase(f);
+				std::shared_ptr<ENV> env;
+				{
+					std::lock_guard<std::mutex> lock(nvm.mtx);
+					auto f = nvm.jnienvs.find(pthread_self());
+					if(f != nvm.jnienvs.end()) {
+						env = f->second;
+					}
+				}
+				if(env) {
+					// Destructors of the released objects may use the VM, release them while still attached and unlocked
+					env->current_exception = nullptr;
+					auto frames = std::move(env->localframe);
+					env->localframe.clear();
+					env->localframe.emplace_front();
+					frames.clear();
+					std::lock_guard<std::mutex> lock(nvm.mtx);
+					nvm.jnienvs.erase(pthread_self());
 				}
 #endif
 				return JNI_OK;
-- 
2.43.0


From f5ba3f687f92641fed12d89829ec1fce9a0551f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 14/27] fix: data races between threads using one machine

Class and member tables, environments, lazily assigned classes and array
factories were read or written without the lock that guards them, and
first lookups of one method from two threads could yield two identifiers.

VM::mtx becomes recursive, since lookups nest.
---
 include/fake-jni/fake-jni.h      |  2 +-
 include/jnivm/class.h            |  2 ++
 include/jnivm/env.h              | 11 +++++++++--
 include/jnivm/extends.h          |  1 +
 include/jnivm/hookManager.h      |  4 ++++
 include/jnivm/jnitypes.h         | 16 +++++++++------
 include/jnivm/vm.h               |  2 +-
 src/fake-jni/jvm.cpp             |  1 +
 src/jnivm/internal/array.cpp     |  7 ++++++-
 src/jnivm/internal/findclass.cpp |  1 +
 src/jnivm/internal/method.cpp    | 34 ++++++++++++++++++++++----------
 src/jnivm/object.cpp             |  1 +
 src/jnivm/vm.cpp                 | 23 +++++++++++----------
 13 files changed, 72 insertions(+), 33 deletions(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 35dfa2c..47ce859 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -266,7 +266,7 @@ namespace FakeJni {
                                         }
 #define BEGIN_NATIVE_DESCRIPTOR(name, ...)  std::shared_ptr<jnivm::Class> name ::getDescriptor() {\
                                                 auto cl = jnivm::ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->GetClass< name >( name ::getClassName().data());\
-                                                if(cl->methods.size() == 0 && cl->fields.size() == 0 && !cl->Instantiate && !cl->baseclasses) {\
+                                                if(!cl->baseclasses && !cl->Instantiate && cl->methods.size() == 0 && cl->fields.size() == 0) {\
                                                     registerClass();\
                                                 }\
                                                 return cl;\
diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index dd096c3..0acb83a 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -72,6 +72,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<1>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<1>>::value) {
+                    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<1>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
@@ -85,6 +86,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<0>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<0>>::value) {
+                    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<0>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5505207..39a5cf5 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -62,6 +62,7 @@ namespace jnivm {
             static_assert(std::is_base_of<Object, T>::value, "You have to public extend jnivm::Object / FakeJni::JObject");
             return [](ENV* env) -> std::shared_ptr<jnivm::Object> {
                 auto res = std::make_shared<T>();
+                std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                 auto f = env->GetVM()->typecheck.find(typeid(T));
                 if(f != env->GetVM()->typecheck.end()) {
                     res->clazz = f->second;
@@ -85,8 +86,14 @@ namespace jnivm {
 }
 
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
-    std::lock_guard<std::mutex> lock(vm->mtx);
-    auto& c = vm->typecheck[typeid(T)] = GetClass(name);
+    std::lock_guard<std::recursive_mutex> lock(vm->mtx);
+    auto cl = GetClass(name);
+    auto& c = vm->typecheck[typeid(T)];
+    if(c == cl) {
+        // Already registered, don't modify a class which may be in use by other threads
+        return cl;
+    }
+    c = cl;
     c->Instantiate = jnivm::Factory<T>::CreateLambda();
     IsClass<T>::AddInherience(c, this);
     return c;
diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index d7b7aad..2a37f0a 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -14,6 +14,7 @@ namespace jnivm {
             template<class T>
             using ArrayBaseType = ArrayBase<T, BaseClasses...>;
             static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
+                std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                 std::vector<std::shared_ptr<Class>> ret = { env->GetVM()->typecheck[typeid(BaseClasses)]... };
 #ifndef NDEBUG
                 for(size_t i = 0, size = ret.size(); i < size; ++i) {
diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..70fb1a7 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -46,6 +46,7 @@ namespace jnivm {
     template<class w, class W, bool isStatic> struct FunctionBase {
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, T&& t) {
             auto ssig = InvokeSignature<isStatic, typename w::Wrapper>::Get(env);
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
@@ -67,6 +68,7 @@ namespace jnivm {
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, const std::string& signature, T&& t) {
             auto ssig = signature;
             static_assert(Function<T>::plength == 3 && std::is_same<typename Function<T>::Return, jvalue>::value  && std::is_same<typename Function<T>::template Parameter<0>,JNIEnv*>::value && std::is_same<typename Function<T>::template Parameter<2>,jvalue*>::value, "Invalid arbitary function");
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
@@ -99,6 +101,7 @@ namespace jnivm {
     template<class w, class W, bool isStatic, bool isGetter, class handle_t, handle_t handle> struct PropertyBase {
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, T&& t) {
             auto ssig = PropertySignature<isStatic, isGetter, typename w::Wrapper>::Get(env);
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->fields.begin(), cl->fields.end(),
                                             [&id, &ssig](std::shared_ptr<Field> &f) {
@@ -120,6 +123,7 @@ namespace jnivm {
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, const std::string& signature, T&& t) {
             static_assert(Function<T>::plength == 3 && std::is_same<typename Function<T>::Return, jvalue>::value && std::is_same<typename Function<T>::template Parameter<0>,JNIEnv*>::value && std::is_same<typename Function<T>::template Parameter<2>,jvalue*>::value, "Invalid arbitary function");
             auto ssig = signature;
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->fields.begin(), cl->fields.end(),
                                             [&id, &ssig](std::shared_ptr<Field> &f) {
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..aa960ab 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -229,6 +229,7 @@ namespace jnivm {
     template<class T, bool> struct utility_ {
         static void utility(ENV*env, const std::string& res) {
             auto c = InternalFindClass(env, res.data());
+            std::lock_guard<std::mutex> lock(c->mtx);
             if(!c->InstantiateArray) {
                 c->InstantiateArray = [wref = std::weak_ptr<Class>(c)](ENV* env, jsize s) -> std::shared_ptr<jnivm::Array<Object>>{
                     auto a = std::make_shared<jnivm::Array<T>>(s);
@@ -274,7 +275,7 @@ template<class T> struct ClassName<T, true> {
 #include "env.h"
 
 template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<T, B, orgtype>::GetJNISignature(jnivm::ENV *env){
-    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return "L" + r->second->nativeprefix + ";";
@@ -284,8 +285,7 @@ template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<
 }
 
 template<class T, class B, class orgtype> std::shared_ptr<jnivm::Class> jnivm::JNITypesObjectBase<T, B, orgtype>::GetClass(jnivm::ENV *env) {
-    // ToDo find the deadlock or replace with recursive_mutex
-    // std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return r->second;
@@ -300,9 +300,13 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
     
     std::shared_ptr<Object> obj(p, p.get());
     if(obj) {
-        auto clazz = obj->clazz.lock();
-        if(!clazz) {
-            obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+        {
+            // The same object may be returned to multiple threads
+            std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+            auto clazz = obj->clazz.lock();
+            if(!clazz) {
+                obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+            }
         }
         auto ref = (B)obj.get();
         env->localframe.front().push_back(std::move(obj));
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 0e8a3e3..d843d87 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -60,7 +60,7 @@ namespace jnivm {
         // Map of all classes hooked or implicitly declared
         std::unordered_map<std::string, std::shared_ptr<Class>> classes;
 
-        std::mutex mtx;
+        std::recursive_mutex mtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
         // Stores all classes by c++ typeid
diff --git a/src/fake-jni/jvm.cpp b/src/fake-jni/jvm.cpp
index 12d8c41..e8b7bd9 100644
--- a/src/fake-jni/jvm.cpp
+++ b/src/fake-jni/jvm.cpp
@@ -37,6 +37,7 @@ std::shared_ptr<jnivm::ENV> FakeJni::Jvm::CreateEnv() {
 }
 
 std::vector<std::shared_ptr<jnivm::Class>> FakeJni::Jvm::getClasses() {
+    std::lock_guard<std::recursive_mutex> lock(mtx);
     std::vector<std::shared_ptr<jnivm::Class>> ret;
     for(auto&& c : classes) {
         ret.emplace_back(c.second);
diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index dff71bc..c0706a9 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -41,7 +41,12 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     auto classname = cl0->nativeprefix[0] == '[' ? "[" + cl0->nativeprefix : "[L" + cl0->nativeprefix + ";";
     auto cl = InternalFindClass(ENV::FromJNIEnv(env), classname.data());
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
-    auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
+    std::function<std::shared_ptr<Array<Object>>(ENV*, jsize)> instantiate;
+    {
+        std::lock_guard<std::mutex> lock(cl->mtx);
+        instantiate = cl->InstantiateArray;
+    }
+    auto arr = instantiate ? instantiate(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
     auto value = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
     if(value) {
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index 9d6457a..ef40af6 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -8,6 +8,7 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 	auto prefix = name;
 	auto && nenv = *env;
 	auto && vm = nenv.GetVM();
+	std::lock_guard<std::recursive_mutex> lock(vm->mtx);
 #ifdef JNI_TRACE
 	if(trace) {
 		LOG("JNIVM", "FindClass %s", name);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 271564a..b8f14c8 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -60,15 +60,26 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return nullptr;
         }
         next = std::make_shared<Method>();
+        next->name = sname;
+        next->signature = ssig;
+        next->_static = isStatic;
         if(cur) {
-            cur->methods.push_back(next);
+            std::lock_guard<std::mutex> lock(cur->mtx);
+            // Another thread may have constructed it in the meantime
+            auto ccl =
+                    std::find_if(cur->methods.begin(), cur->methods.end(),
+                                            [&sname, &ssig](std::shared_ptr<Method> &namesp) {
+                                                return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
+                                            });
+            if (ccl != cur->methods.end()) {
+                next = *ccl;
+            } else {
+                cur->methods.push_back(next);
+            }
         } else {
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
         }
-        next->name = std::move(sname);
-        next->signature = std::move(ssig);
-        next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->signature.data());
 #endif
@@ -135,7 +146,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
                 return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, c->Instantiate(env));
             } else {
-                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
+                std::lock_guard<std::recursive_mutex> guard(env->GetVM()->mtx);
                 bool safetocreatedummy = true;
                 for(auto&& ty : env->GetVM()->typecheck) {
                     if(ty.second == c) {
@@ -174,11 +185,14 @@ static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     if(!cl) {
         return nullptr;
     }
-    auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
-        return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
-    });
-    if(res != cl->methods.end()) {
-        return res->get();
+    {
+        std::lock_guard<std::mutex> lock(cl->mtx);
+        auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
+            return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
+        });
+        if(res != cl->methods.end()) {
+            return res->get();
+        }
     }
     if(cl->baseclasses) {
         for(auto&& base : cl->baseclasses(env)) {
diff --git a/src/jnivm/object.cpp b/src/jnivm/object.cpp
index ed7ab83..0f3f39c 100644
--- a/src/jnivm/object.cpp
+++ b/src/jnivm/object.cpp
@@ -3,6 +3,7 @@
 #include <jnivm/weak.h>
 
 std::shared_ptr<jnivm::Class> jnivm::Object::getClassInternal(jnivm::ENV *env) {
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     return clazz.lock();
 }
 
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 6ea0e0b..16df754 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -27,8 +27,6 @@ jclass DefineClass(JNIEnv *, const char *, jobject, const jbyte *, jsize) {
 
 template<bool returnZero=false>
 jclass FindClass(JNIEnv *env, const char *name) {
-	auto&& nenv = *ENV::FromJNIEnv(env);
-	std::lock_guard<std::mutex> lock(nenv.GetVM()->mtx);
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
@@ -157,7 +155,7 @@ jobject NewGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 	if(!obj) return nullptr;
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	auto&& nvm = *nenv.GetVM();
-	std::lock_guard<std::mutex> guard{nvm.mtx};
+	std::lock_guard<std::recursive_mutex> guard{nvm.mtx};
 	nvm.globals.emplace_back(obj);
 #endif
 	return (jobject)obj.get();
@@ -177,7 +175,7 @@ void DeleteGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 	if(!obj) return;
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	auto&& nvm = *nenv.GetVM();
-	std::lock_guard<std::mutex> guard{nvm.mtx};
+	std::lock_guard<std::recursive_mutex> guard{nvm.mtx};
 	auto fe = nvm.globals.end();
 	auto f = std::find(nvm.globals.begin(), fe, obj);
 	if(f != fe) {
@@ -313,7 +311,7 @@ jint MonitorExit(JNIEnv *env, jobject o) {
 
 jint GetJavaVM(JNIEnv * env, JavaVM ** vm) {
 	if(vm) {
-		std::lock_guard<std::mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
+		std::lock_guard<std::recursive_mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
 		*vm = (ENV::FromJNIEnv(env))->GetVM()->GetJavaVM();
 	}
 	return 0;
@@ -477,7 +475,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm, JNIEnv **penv, void * args) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
+				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 				auto&& nenv = nvm.jnienvs[pthread_self()];
 				if(!nenv) {
 					nenv = nvm.CreateEnv();
@@ -487,8 +485,8 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 				}
 #else
 				if(penv) {
-					std::lock_guard<std::mutex> lock((VM::FromJavaVM(vm)))->mtx);
-					*penv = (VM::FromJavaVM(vm)))->GetJNIEnv();
+					std::lock_guard<std::recursive_mutex> lock(VM::FromJavaVM(vm)->mtx);
+					*penv = VM::FromJavaVM(vm)->GetJNIEnv();
 				}
 #endif
 				return JNI_OK;
@@ -498,7 +496,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 				auto&& nvm = *VM::FromJavaVM(vm);
 				std::shared_ptr<ENV> env;
 				{
-					std::lock_guard<std::mutex> lock(nvm.mtx);
+					std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 					auto f = nvm.jnienvs.find(pthread_self());
 					if(f != nvm.jnienvs.end()) {
 						env = f->second;
@@ -511,7 +509,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 					env->localframe.clear();
 					env->localframe.emplace_front();
 					frames.clear();
-					std::lock_guard<std::mutex> lock(nvm.mtx);
+					std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 					nvm.jnienvs.erase(pthread_self());
 				}
 #endif
@@ -522,8 +520,8 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 #ifdef EnableJNIVMGC
 					return vm->AttachCurrentThread((JNIEnv**)penv, nullptr);
 #else
-					std::lock_guard<std::mutex> lock((VM::FromJavaVM(vm)))->mtx);
-					*penv = (VM::FromJavaVM(vm)))->GetJNIEnv();
+					std::lock_guard<std::recursive_mutex> lock(VM::FromJavaVM(vm)->mtx);
+					*penv = VM::FromJavaVM(vm)->GetJNIEnv();
 #endif
 				}
 				return JNI_OK;
@@ -565,6 +563,7 @@ JNIEnv *VM::GetJNIEnv() {
 }
 
 const std::shared_ptr<ENV>& VM::GetEnv() {
+	std::lock_guard<std::recursive_mutex> lock(mtx);
 #ifdef EnableJNIVMGC
 	return jnienvs[pthread_self()];
 #else
-- 
2.43.0


From 8985b08b460aedee6383da021e7a90867c8eda99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 15/27] fix: objects first passed through a base class pointer
 reported the base class

The class of an object was taken from the static type it was first
handed to the function table with, so GetObjectClass, IsInstanceOf and
virtual dispatch used the base class for an object of a registered
derived class.
---
 include/jnivm/jnitypes.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index aa960ab..7002019 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -305,7 +305,10 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
             std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
             auto clazz = obj->clazz.lock();
             if(!clazz) {
-                obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+                // The object may be of a registered class derived from Y
+                auto&& ref = *obj;
+                auto r = env->GetVM()->typecheck.find(typeid(ref));
+                obj->clazz = r != env->GetVM()->typecheck.end() ? r->second : JNITypesObjectBase<Y, B>::GetClass(env);
             }
         }
         auto ref = (B)obj.get();
-- 
2.43.0


From 8ac278865c27b39b24ff39dbed2f669e68f2d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 16/27] fix: instance hooks taking their object as jobject did
 not compile

---
 include/jnivm/wrap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/jnivm/wrap.h b/include/jnivm/wrap.h
index c30b057..7e645b8 100644
--- a/include/jnivm/wrap.h
+++ b/include/jnivm/wrap.h
@@ -47,6 +47,12 @@ namespace jnivm {
         }
     };
     template<>
+    struct AnotherHelper<jobject> {
+        static jobject GetEnvOrObject(ENV * env, jobject o) {
+            return o;
+        }
+    };
+    template<>
     struct AnotherHelper<jclass> {
         static jclass GetEnvOrClass(ENV * env, Class* clazz) {
             return JNITypes<Class*>::ToJNIType(env, clazz->shared_from_this());
-- 
2.43.0


From 0d0efe002c456782e41f1bd202aba28190a3d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 17/27] fix: native libraries were unloaded after their
 Baron::Jvm was destroyed

JNI_OnUnload of still attached libraries could use the function table of
the already destroyed Baron::Jvm.
---
 include/baron/baron.h       | 1 +
 include/fake-jni/fake-jni.h | 3 +++
 src/baron/jvm.cpp           | 4 ++++
 src/fake-jni/fake-jni.cpp   | 6 ++++++
 4 files changed, 14 insertions(+)

diff --git a/include/baron/baron.h b/include/baron/baron.h
index 6d7307f..cd06424 100644
--- a/include/baron/baron.h
+++ b/include/baron/baron.h
@@ -16,6 +16,7 @@ namespace Baron {
     public:
         Jvm();
         Jvm(std::function<void(Jvm*)> setup);
+        ~Jvm();
         using jnivm::VM::AddHook;
         void printStatistics();
         bool isClassDenied(const char * name) const;
diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 47ce859..3582bc1 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -73,6 +73,9 @@ namespace FakeJni {
     protected:
         virtual std::shared_ptr<jnivm::ENV> CreateEnv() override;
         Jvm(bool skipInit, bool returnNull);
+        // Derived classes, which override virtual members or jni functions, have to call this in their destructor:
+        // the unload entry points may still use the vm
+        void removeLibraries();
     public:
         Jvm();
 
diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index d933aee..6af1fec 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -13,6 +13,10 @@ Baron::Jvm::Jvm(std::function<void(Jvm*)> setup) : FakeJni::Jvm(true, false) {
     initialize();
 }
 
+Baron::Jvm::~Jvm() {
+    removeLibraries();
+}
+
 std::shared_ptr<jnivm::ENV> Baron::Jvm::CreateEnv() {
     if(FakeJni::JniEnvContext::env.env.lock()) {
         throw std::runtime_error("Attempt to initialize a FakeJni::Env twice in one thread!");
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index 7111a43..b56d7e5 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -102,6 +102,12 @@ void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &op
 	libraries.erase(rpath);
 }
 
+void FakeJni::Jvm::removeLibraries() {
+	while(!libraries.empty()) {
+		libraries.erase(libraries.begin());
+	}
+}
+
 std::shared_ptr<FakeJni::JObject> FakeJni::Env::resolveReference(jobject obj) {
     return jnivm::JNITypes<std::shared_ptr<JObject>>::JNICast(this, obj);
 }
-- 
2.43.0


From fda8b207636f1d95386cfe720b244c15a07f46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:12 +0000
Subject: [PATCH 18/27] fix: long descriptors overflowed the stack

Every array dimension was one level of recursion, and the indentation of
generated code by std::regex recursed for every character of a line.
---
 include/jnivm/internal/codegen/indent.h     | 19 +++++
 src/jnivm/internal/codegen/class.cpp        |  7 +-
 src/jnivm/internal/codegen/namespace.cpp    |  5 +-
 src/jnivm/internal/codegen/parseJNIType.cpp | 90 ++++++++++++---------
 src/jnivm/internal/skipJNIType.cpp          |  9 +--
 5 files changed, 81 insertions(+), 49 deletions(-)
 create mode 100644 include/jnivm/internal/codegen/indent.h

diff --git a/include/jnivm/internal/codegen/indent.h b/include/jnivm/internal/codegen/indent.h
new file mode 100644
index 0000000..c839672
--- /dev/null
+++ b/include/jnivm/internal/codegen/indent.h
@@ -0,0 +1,19 @@
+#pragma once
+#include <string>
+
+namespace jnivm {
+    // Indents all non empty lines
+    // Not a std::regex, its recursion overflows the stack on long lines
+    inline std::string Indent(const std::string& lines) {
+        std::string ret;
+        bool start = true;
+        for(char c : lines) {
+            if(start && c != '\n') {
+                ret += "    ";
+            }
+            ret += c;
+            start = c == '\n';
+        }
+        return ret;
+    }
+}
diff --git a/src/jnivm/internal/codegen/class.cpp b/src/jnivm/internal/codegen/class.cpp
index 717c9a5..821431c 100644
--- a/src/jnivm/internal/codegen/class.cpp
+++ b/src/jnivm/internal/codegen/class.cpp
@@ -1,6 +1,7 @@
 #include <jnivm/class.h>
 #include <jnivm/method.h>
 #include <jnivm/internal/codegen/parseJNIType.h>
+#include <jnivm/internal/codegen/indent.h>
 #include <sstream>
 #include <regex>
 using namespace jnivm;
@@ -24,21 +25,21 @@ std::string Class::GenerateHeader(std::string scope) {
 	for (auto &cl : classes) {
 		auto sub = cl->GeneratePreDeclaration();
 		if(!sub.empty()) {
-			ss << std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2");
+			ss << Indent(sub);
 			ss << "\n";
 		}
 	}
 	for (auto &field : fields) {
 		auto sub = field->GenerateHeader();
 		if(!sub.empty()) {
-			ss << std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2");
+			ss << Indent(sub);
 			ss << "\n";
 		}
 	}
 	for (auto &method : methods) {
 		auto sub = method->GenerateHeader(name);
 		if(!sub.empty()) {
-			ss << std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2");
+			ss << Indent(sub);
 			ss << "\n";
 		}
 	}
diff --git a/src/jnivm/internal/codegen/namespace.cpp b/src/jnivm/internal/codegen/namespace.cpp
index 80ac064..6d306d9 100644
--- a/src/jnivm/internal/codegen/namespace.cpp
+++ b/src/jnivm/internal/codegen/namespace.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/internal/codegen/namespace.h>
+#include <jnivm/internal/codegen/indent.h>
 #include <jnivm/class.h>
 #include <sstream>
 #include <regex>
@@ -43,7 +44,7 @@ std::string Namespace::GeneratePreDeclaration() {
 			} else {
 				ss << "\n";
 			}
-			ss << (indent ? std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2") : sub);
+			ss << (indent ? Indent(sub) : sub);
 		}
 	}
 	for (auto &np : namespaces) {
@@ -57,7 +58,7 @@ std::string Namespace::GeneratePreDeclaration() {
 			} else {
 				ss << "\n";
 			}
-			ss << (indent ? std::regex_replace(sub, std::regex("(^|\n)([^\n]+)"), "$1    $2") : sub);
+			ss << (indent ? Indent(sub) : sub);
 		}
 	}
 	if (!empty && indent) {
diff --git a/src/jnivm/internal/codegen/parseJNIType.cpp b/src/jnivm/internal/codegen/parseJNIType.cpp
index 7907718..145a7c8 100644
--- a/src/jnivm/internal/codegen/parseJNIType.cpp
+++ b/src/jnivm/internal/codegen/parseJNIType.cpp
@@ -65,50 +65,62 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 			type = "FakeJni::JDouble";
 		}
 		break;
-	case '[':
-		if(last + 1 == end) {
-			// Missing element type
-			break;
+	case '[': {
+		// Count the dimensions instead of recursing, there can be any number
+		size_t dim = 1;
+		while(last + dim != end && last[dim] == '[') {
+			++dim;
 		}
-		cur = ParseJNIType(last + 1, end, type);
-		if(!JNIVM_FAKE_JNI_SYNTAX) {
-			type = "std::shared_ptr<jnivm::Array<" + ( type.rfind("std::shared_ptr<" , 0) == 0 && type[type.length() - 1] == '>' ? type.substr(16, type.length() - 17) : type) + ">>";
+		if(last + dim == end) {
+			// Missing element type
+			--dim;
+			cur = last + dim;
 		} else {
-			if((cur - last) == 1) {
-				switch (*cur)
-				{
-				case 'Z':
-					type = "std::shared_ptr<FakeJni::JBooleanArray>";
-					break;
-				case 'B':
-					type = "std::shared_ptr<FakeJni::JByteArray>";
-					break;
-				case 'S':
-					type = "std::shared_ptr<FakeJni::JShortArray>";
-					break;
-				case 'C':
-					type = "std::shared_ptr<FakeJni::JCharArray>";
-					break;
-				case 'I':
-					type = "std::shared_ptr<FakeJni::JIntArray>";
-					break;
-				case 'J':
-					type = "std::shared_ptr<FakeJni::JLongArray>";
-					break;
-				case 'F':
-					type = "std::shared_ptr<FakeJni::JFloatArray>";
-					break;
-				case 'D':
-					type = "std::shared_ptr<FakeJni::JDoubleArray>";
-					break;
-				default:
-					break;
-				}
-			} else {
-				type = "std::shared_ptr<FakeJni::JArray<" + ( type.rfind("std::shared_ptr<" , 0) == 0 && type[type.length() - 1] == '>' ? type.substr(16, type.length() - 17) : type) + ">>";
+			cur = ParseJNIType(last + dim, end, type);
+		}
+		if(JNIVM_FAKE_JNI_SYNTAX && dim && (cur - last) == dim) {
+			--dim;
+			switch (*cur)
+			{
+			case 'Z':
+				type = "std::shared_ptr<FakeJni::JBooleanArray>";
+				break;
+			case 'B':
+				type = "std::shared_ptr<FakeJni::JByteArray>";
+				break;
+			case 'S':
+				type = "std::shared_ptr<FakeJni::JShortArray>";
+				break;
+			case 'C':
+				type = "std::shared_ptr<FakeJni::JCharArray>";
+				break;
+			case 'I':
+				type = "std::shared_ptr<FakeJni::JIntArray>";
+				break;
+			case 'J':
+				type = "std::shared_ptr<FakeJni::JLongArray>";
+				break;
+			case 'F':
+				type = "std::shared_ptr<FakeJni::JFloatArray>";
+				break;
+			case 'D':
+				type = "std::shared_ptr<FakeJni::JDoubleArray>";
+				break;
+			default:
+				break;
 			}
 		}
+		if(dim) {
+			auto element = type.rfind("std::shared_ptr<" , 0) == 0 && type[type.length() - 1] == '>' ? type.substr(16, type.length() - 17) : type;
+			type = "std::shared_ptr<";
+			for(size_t i = 0; i < dim; ++i) {
+				type += JNIVM_FAKE_JNI_SYNTAX ? "FakeJni::JArray<" : "jnivm::Array<";
+			}
+			type += element;
+			type.append(dim + 1, '>');
+		}
 		break;
+	}
 	case 'L':
 		auto cend = std::find(++cur, end, ';');
 		if(JNIVM_FAKE_JNI_SYNTAX && (cend - cur) == 16 && !memcmp(cur, "java/lang/String", 16)) {
diff --git a/src/jnivm/internal/skipJNIType.cpp b/src/jnivm/internal/skipJNIType.cpp
index 7bbabf1..46d063e 100644
--- a/src/jnivm/internal/skipJNIType.cpp
+++ b/src/jnivm/internal/skipJNIType.cpp
@@ -2,6 +2,10 @@
 #include <algorithm>
 
 const char * jnivm::SkipJNIType(const char *cur, const char *end) {
+    // Skip the dimensions of an array and opening brackets without recursion, there can be any number
+    while(cur != end && (*cur == '[' || *cur == '(')) {
+        ++cur;
+    }
     if(cur == end) {
         return end;
     }
@@ -18,17 +22,12 @@ const char * jnivm::SkipJNIType(const char *cur, const char *end) {
     case 'F':
     case 'D':
             break;
-    case '[':
-            cur = SkipJNIType(cur + 1, end) - 1;
-            break;
     case 'L':
             cur = std::find(cur, end, ';');
             if(cur == end) {
                 return end;
             }
             break;
-    case '(':
-            return SkipJNIType(cur + 1, end);
     }
     return cur + 1;
 }
\ No newline at end of file
-- 
2.43.0


From 7347ddd94a1a019925e4029305ad41e2f9e33795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 19/27] fix: generated code using java.lang.ref.WeakReference
 did not compile

---
 include/jnivm/javatypes.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/jnivm/javatypes.h b/include/jnivm/javatypes.h
index 125d7b7..f9d0e75 100644
--- a/include/jnivm/javatypes.h
+++ b/include/jnivm/javatypes.h
@@ -18,6 +18,9 @@ namespace jnivm {
                 using Method = jnivm::Method;
                 using Field = jnivm::Field;
             }
+            namespace ref {
+                using WeakReference = jnivm::Weak;
+            }
         }
         namespace nio {
             using ByteBuffer = jnivm::ByteBuffer;
-- 
2.43.0


From 8a3655a3037d387e9f413be97f04aac2289fb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 20/27] fix: classes with two or more bases which override
 getClassInternal did not compile

---
 include/jnivm/extends.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index 2a37f0a..9a30a16 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -8,7 +8,17 @@
 namespace jnivm {
 
     namespace impl {
-        template<class, class... BaseClasses> class Extends : public virtual BaseClasses... {
+        template<class... BaseClasses> class ExtendsBases : public virtual BaseClasses... {
+        public:
+            // More than one base class may override this
+            std::shared_ptr<Class> getClassInternal(ENV* env) override {
+                return Object::getClassInternal(env);
+            }
+        };
+        template<class Base> class ExtendsBases<Base> : public virtual Base {
+        };
+
+        template<class, class... BaseClasses> class Extends : public ExtendsBases<BaseClasses...> {
         public:
             using BaseClasseTuple = std::tuple<BaseClasses...>;
             template<class T>
-- 
2.43.0


From 115eaa6547e18a3e9dca1173959e96ad8124b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 21/27] fix: createMainMethod crashed on FakeJni machines

---
 src/fake-jni/fake-jni.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index b56d7e5..ddf85df 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -195,13 +195,14 @@ jnivm::Class &jnivm::Object::getClass() {
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
-    createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", std::move(callback));
+    auto&& env = jnivm::VM::FromJavaVM(&jvm)->GetEnv();
+    // Jvm::findClass returns only known classes
+    env->GetClass("fakejni/impl/createMainMethod")->Hook(env.get(), "main", std::move(callback));
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (FakeJni::JArray<FakeJni::JString>* args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
-    createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
+    auto&& env = jnivm::VM::FromJavaVM(&jvm)->GetEnv();
+    env->GetClass("fakejni/impl/createMainMethod")->Hook(env.get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
         callback(args.get());
     });
 }
\ No newline at end of file
-- 
2.43.0


From 81056743a8cce752755f1fe4aed6c69438fa2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 22/27] fix: IsInstanceOf, default arrays and range errors left
 references in the local frame

---
 include/jnivm/internal/findclass.h | 2 ++
 src/jnivm/internal/array.cpp       | 6 +++---
 src/jnivm/internal/findclass.cpp   | 6 ++++++
 src/jnivm/internal/method.cpp      | 2 +-
 src/jnivm/internal/string.cpp      | 3 ++-
 src/jnivm/vm.cpp                   | 4 +++-
 6 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/jnivm/internal/findclass.h b/include/jnivm/internal/findclass.h
index 1269d71..13eeb5e 100644
--- a/include/jnivm/internal/findclass.h
+++ b/include/jnivm/internal/findclass.h
@@ -7,5 +7,7 @@ namespace jnivm {
     class ENV;
     jclass InternalFindClass(JNIEnv *env, const char *name, bool returnZero = false, bool trace = false);
     std::shared_ptr<Class> InternalFindClass(ENV *env, const char *name, bool returnZero = false, bool trace = false);
+    // ThrowNew with the class of this name, leaves no local reference behind
+    void InternalThrowNew(JNIEnv *env, const char *name, const char *message);
     void Declare(JNIEnv *env, const char *signature);
 }
\ No newline at end of file
diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index c0706a9..3557e29 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -8,7 +8,7 @@ static bool CheckLength(JNIEnv *env, jsize length) {
     if(length >= 0) {
         return true;
     }
-    env->ThrowNew(env->FindClass("java/lang/NegativeArraySizeException"), "Negative array length");
+    InternalThrowNew(env, "java/lang/NegativeArraySizeException", "Negative array length");
     return false;
 }
 
@@ -16,7 +16,7 @@ static bool CheckRegion(JNIEnv *env, jsize size, jsize start, jsize len) {
     if(start >= 0 && len >= 0 && start <= size - len) {
         return true;
     }
-    env->ThrowNew(env->FindClass("java/lang/ArrayIndexOutOfBoundsException"), "Array region out of bounds");
+    InternalThrowNew(env, "java/lang/ArrayIndexOutOfBoundsException", "Array region out of bounds");
     return false;
 }
 
@@ -25,7 +25,7 @@ static bool StoreElement(JNIEnv *env, Array<Object>& arr, jsize i, const std::sh
         arr[i] = value;
         return true;
     } catch(const std::exception& ex) {
-        env->ThrowNew(env->FindClass("java/lang/ArrayStoreException"), ex.what());
+        InternalThrowNew(env, "java/lang/ArrayStoreException", ex.what());
         return false;
     }
 }
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index ef40af6..9c02b4f 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -104,6 +104,12 @@ jclass jnivm::InternalFindClass(JNIEnv *env, const char *name, bool returnZero,
 	return JNITypes<std::shared_ptr<Class>>::ToJNIType(ENV::FromJNIEnv(env), InternalFindClass(ENV::FromJNIEnv(env), name, returnZero, trace));
 }
 
+void jnivm::InternalThrowNew(JNIEnv *env, const char *name, const char *message) {
+	auto c = env->FindClass(name);
+	env->ThrowNew(c, message);
+	env->DeleteLocalRef(c);
+}
+
 void jnivm::Declare(JNIEnv *env, const char *signature) {
 	for (const char *cur = signature, *end = cur + strlen(cur); cur != end;
 			cur++) {
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index b8f14c8..b8a729b 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -129,7 +129,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             case 'L':
             case '[': {
                 auto element = env->GetClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]);
-                return env->GetJNIEnv()->NewObjectArray(0, JNITypes<std::shared_ptr<Class>>::ToJNIType(env, element), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, (jclass)element.get(), nullptr);
             }
             default:
 #ifdef JNI_TRACE
diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 09f59e3..7f253a6 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/class.h>
+#include <jnivm/internal/findclass.h>
 #include "string.hpp"
 #include "stringUtil.h"
 #include <stdexcept>
@@ -77,7 +78,7 @@ static bool CheckRegion(JNIEnv *env, jstring str, jsize start, jsize length) {
     if(start >= 0 && length >= 0 && start <= GetStringLength(env, str) - length) {
         return true;
     }
-    env->ThrowNew(env->FindClass("java/lang/StringIndexOutOfBoundsException"), "String region out of bounds");
+    InternalThrowNew(env, "java/lang/StringIndexOutOfBoundsException", "String region out of bounds");
     return false;
 }
 
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 16df754..1468b33 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -242,7 +242,9 @@ jclass GetObjectClass(JNIEnv *env, jobject jo) {
 	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	auto obj = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	// GetObjectClass would leave a reference in the local frame, which the caller never gets to delete
+	return obj && HasBaseClass(env, obj->getClassInternal(ENV::FromJNIEnv(env)).get(), JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), cl).get());
 };
 
 #include "internal/method.h"
-- 
2.43.0


From 3ea058f9fd769316caba3ee06308bae457314772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:03 +0000
Subject: [PATCH 23/27] fix: hooking a function does not replace a registered
 native's entry of the same name and descriptor

---
 include/jnivm/hookManager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index 70fb1a7..7a3174e 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -50,6 +50,8 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
+                                                // Registered natives have entries of their own
+                                                if(m->native) return false;
                                                 return m->_static == isStatic && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
@@ -72,6 +74,8 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
+                                                // Registered natives have entries of their own
+                                                if(m->native) return false;
                                                 return m->_static == isStatic && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
-- 
2.43.0


From 524e578c3d8cbb77adbffb437ab6438ddb66e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:11 +0000
Subject: [PATCH 24/27] fix: a method which was only looked up does not hide
 the native registered for it

---
 src/fake-jni/method.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fake-jni/method.cpp b/src/fake-jni/method.cpp
index 899a9d6..f0fbdfb 100644
--- a/src/fake-jni/method.cpp
+++ b/src/fake-jni/method.cpp
@@ -6,8 +6,12 @@ using namespace jnivm;
 MethodProxy Class::getMethod(const char *sig, const char *name) {
     jmethodID _member = GetMethodID<false, true, false, false>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig);
     jmethodID _static = GetMethodID<true, true, false, false>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig);
-    if(!_member && !_static) {
-        return { nullptr, nullptr, GetMethodID<false, true, true>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig)};
+    // Methods which are only known by a lookup have no implementation
+    if(!(_member && ((Method*)_member)->nativehandle) && !(_static && ((Method*)_static)->nativehandle)) {
+        jmethodID _native = GetMethodID<false, true, true>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig);
+        if(_native) {
+            return { nullptr, nullptr, _native };
+        }
     }
     return { _member, _static, nullptr };
 }
\ No newline at end of file
-- 
2.43.0


From b5c18b11c078c09ba66559de8ba8b64570be6e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 25/27] fix: the library did not compile without
 JNIVM_ENABLE_DEBUG

---
 include/jnivm/vm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index d843d87..a959e48 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -1,6 +1,7 @@
 #ifndef JNIVM_VM_H_1
 #define JNIVM_VM_H_1
 #include <memory>
+#include <string>
 #include <mutex>
 #include <vector>
 #include <unordered_map>
-- 
2.43.0


From 109d2b1ae2c8649930c486886f66747916de0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:41 +0000
Subject: [PATCH 26/27] fix: tracing of instance calls and field accesses left
 references in the local frame

---
 src/jnivm/internal/field.cpp  | 4 +++-
 src/jnivm/internal/method.cpp | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index 336d6ec..1664211 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -65,7 +65,9 @@ jfieldID jnivm::GetFieldID(JNIEnv *env, jclass cl_, const char *name, const char
 
 namespace Util {
     std::shared_ptr<Class> GetClass(jnivm::ENV* env, jobject o) {
-        return JNITypes<std::shared_ptr<Class>>::JNICast(env, env->GetJNIEnv()->GetObjectClass(o));
+        // GetObjectClass would leave a reference in the local frame
+        auto object = JNITypes<std::shared_ptr<Object>>::JNICast(env, o);
+        return object ? object->getClassInternal(env) : nullptr;
     }
     std::shared_ptr<Class> GetClass(jnivm::ENV* env, jclass o) {
         return JNITypes<std::shared_ptr<Class>>::JNICast(env, o);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index b8a729b..8be4350 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -224,7 +224,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     }
     if (mid && mid->nativehandle) {
 #ifdef JNI_TRACE
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
+        auto cl = object ? object->getClassInternal(ENV::FromJNIEnv(env)) : nullptr;
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
         try {
@@ -240,7 +240,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
+        auto cl = object ? object->getClassInternal(ENV::FromJNIEnv(env)) : nullptr;
         LOG("JNIVM", "Call Unknown Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From 99806c4a6d6d103959f1d6c8082ba5e594509dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:55 +0000
Subject: [PATCH 27/27] fix: looking up members with class names in their
 descriptor left references in the local frame

---
 src/jnivm/internal/findclass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index 9c02b4f..3c28cfa 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -120,7 +120,8 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 				break;
 			}
 			std::string classpath(cur + 1, cend);
-			InternalFindClass(env, classpath.data());
+			// The overload for JNIEnv would leave a reference in the local frame
+			InternalFindClass(ENV::FromJNIEnv(env), classpath.data());
 			cur = cend;
 		}
 	}
-- 
2.43.0

