// Every way of the function table to make an object that nothing but the local reference it returns holds
#pragma once
#include "calls.h"
#include "jh.h"
namespace jh {
    struct Made : Tracked {
        std::shared_ptr<jnivm::Object> slot;
        static std::shared_ptr<jnivm::Object>& next() { static thread_local std::shared_ptr<jnivm::Object> n; return n; }
        static std::shared_ptr<jnivm::Object>& sslot() { static thread_local std::shared_ptr<jnivm::Object> n; return n; }
    };
    struct Makers {
        jclass cls = nullptr, str = nullptr, thr = nullptr, ints = nullptr; // global references
        jmethodID init, smake, vmake;
        jfieldID slot, sslot;
        jobject receiver = nullptr; // global
        JNIEnv* owner;
        static const int COUNT = 26;
        static const char* name(int k) {
            static const char* n[] = { "NewBooleanArray", "NewByteArray", "NewCharArray", "NewShortArray", "NewIntArray", "NewLongArray", "NewFloatArray", "NewDoubleArray", "NewObjectArray", "NewObjectArray of arrays", "NewString", "NewStringUTF", "NewDirectByteBuffer", "ExceptionOccurred",
                "NewObject", "NewObjectV", "NewObjectA", "CallStaticObjectMethod", "CallStaticObjectMethodV", "CallStaticObjectMethodA", "CallObjectMethod", "CallObjectMethodA", "CallNonvirtualObjectMethod", "GetObjectField", "GetStaticObjectField", "GetObjectArrayElement" };
            return n[k];
        }
        explicit Makers(JNIEnv* env) : owner(env) {
            auto e = jnivm::ENV::FromJNIEnv(env);
            auto c = e->GetClass<Made>("makers/Made");
            auto next = [](jnivm::ENV*) { return std::move(Made::next()); };
            c->Hook(e, "<init>", [](jnivm::ENV*) { return std::make_shared<Made>(); });
            c->Hook(e, "smake", [](jnivm::ENV*) { return std::move(Made::next()); });
            c->HookInstanceFunction(e, "vmake", [](jnivm::ENV*, Made*) { return std::move(Made::next()); });
            c->HookInstanceGetterFunction(e, "slot", [](jnivm::ENV*, Made* m) { return m->slot; });
            c->HookGetterFunction(e, "sslot", [](jnivm::ENV*, jnivm::Class*) { return Made::sslot(); });
            env->PushLocalFrame(16);
            cls = (jclass)env->NewGlobalRef((jobject)klass(e, c));
            str = (jclass)env->NewGlobalRef(env->FindClass("java/lang/String"));
            thr = (jclass)env->NewGlobalRef(env->FindClass("java/lang/Throwable"));
            ints = (jclass)env->NewGlobalRef((jobject)klass(e, e->GetClass("[I")));
            init = env->GetMethodID(cls, "<init>", "()V");
            smake = env->GetStaticMethodID(cls, "smake", "()Ljava/lang/Object;");
            vmake = env->GetMethodID(cls, "vmake", "()Ljava/lang/Object;");
            slot = env->GetFieldID(cls, "slot", "Ljava/lang/Object;");
            sslot = env->GetStaticFieldID(cls, "sslot", "Ljava/lang/Object;");
            receiver = env->NewGlobalRef(local(e, std::make_shared<Made>()));
            env->PopLocalFrame(nullptr);
            (void)next;
        }
        void release(JNIEnv* env) {
            for(jobject o : { (jobject)cls, (jobject)str, (jobject)thr, (jobject)ints, receiver }) env->DeleteGlobalRef(o);
        }
        static jobject newv(JNIEnv* e, jclass c, jmethodID id, ...) {
            va_list l;
            va_start(l, id);
            auto r = e->functions->NewObjectV(e, c, id, l);
            va_end(l);
            return r;
        }
        // Exactly one new local reference, to a new object
        jobject make(JNIEnv* env, vh::Rng& r, int k) const {
            auto e = jnivm::ENV::FromJNIEnv(env);
            static thread_local char memory[16];
            jsize n = r.below(5);
            static const jvalue none[1] = {};
            switch(k) {
            case 0: return env->NewBooleanArray(n);
            case 1: return env->NewByteArray(n);
            case 2: return env->NewCharArray(n);
            case 3: return env->NewShortArray(n);
            case 4: return env->NewIntArray(n);
            case 5: return env->NewLongArray(n);
            case 6: return env->NewFloatArray(n);
            case 7: return env->NewDoubleArray(n);
            case 8: return env->NewObjectArray(n, str, nullptr);
            case 9: return env->NewObjectArray(n, ints, nullptr);
            case 10: { jchar c[] = { 'a', 0, 0xe9, 0x20ac }; return env->NewString(c, r.below(5)); }
            case 11: return env->NewStringUTF(n ? "text" : "");
            case 12: return env->NewDirectByteBuffer(memory, r.below(17));
            case 13: {
                env->ThrowNew(thr, n ? "message" : "");
                auto t = env->ExceptionOccurred();
                env->ExceptionClear();
                return t;
            }
            case 14: return env->NewObject(cls, init);
            case 15: return newv(env, cls, init);
            case 16: return env->NewObjectA(cls, init, const_cast<jvalue*>(none));
            case 23: case 24: case 25: {
                auto m = std::dynamic_pointer_cast<Made>(deref(e, receiver));
                std::shared_ptr<jnivm::Object> o = std::make_shared<Made>();
                jobject res;
                if(k == 23) { m->slot = o; res = env->GetObjectField(receiver, slot); m->slot = nullptr; }
                else if(k == 24) { Made::sslot() = o; res = env->GetStaticObjectField(cls, sslot); Made::sslot() = nullptr; }
                else {
                    jnivm::Array<jnivm::Object> stack(1);
                    auto a = std::make_shared<jnivm::Array<jnivm::Object>>(2);
                    (*a)[1] = o;
                    auto ja = (jobjectArray)local(e, a);
                    res = env->GetObjectArrayElement(ja, 1);
                    (*a)[1] = std::shared_ptr<jnivm::Object>();
                    env->DeleteLocalRef(ja);
                }
                return res;
            }
            default: {
                Made::next() = std::make_shared<Made>();
                using namespace calls;
                static const int how[] = { STATIC, STATIC, STATIC, VIRTUAL, VIRTUAL, NONVIRTUAL }, form[] = { FORM_VAR, FORM_V, FORM_A, FORM_VAR, FORM_A, FORM_VAR };
                int h = how[k - 17];
                return callObject(env, h, form[k - 17], receiver, cls, h == STATIC ? smake : vmake, none);
            }
            }
        }
    };
}
