// C23: memory. Random programs which release what they acquire are repeated, while instance counters and the
// allocator's byte count are watched; then the machine is destroyed, with and without leftovers, and all must be gone.
#include "jh.h"
#include "prim.h"
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
#include <sanitizer/allocator_interface.h>
using namespace jh;
using namespace jnivm;

namespace {
    struct MyFake : FakeJni::Jvm { using VM::AddHook; VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    struct Base : Extends<Object> {
        Track t;
        virtual int who() { return 1; }
    };
    struct Node : Extends<Base> {
        std::shared_ptr<Object> obj;
        std::shared_ptr<Node> next;
        std::shared_ptr<String> str;
        jlong num = 0;
        static std::shared_ptr<Object> sobj;
        std::shared_ptr<Object> echo(std::shared_ptr<Object> o) { return o; }
        std::shared_ptr<Node> fresh(jint n) { auto r = std::make_shared<Node>(); r->num = n; return r; }
        int who() override { return 2; }
        static std::shared_ptr<String> text(std::shared_ptr<String> s) { return std::make_shared<String>(*s + "!"); }
        static jint sum(std::shared_ptr<Array<jint>> a) { jint s = 0; for(jsize i = 0; i < a->getSize(); ++i) s += (*a)[i]; return s; }
        static std::shared_ptr<Array<Node>> several(jint n) {
            auto a = std::make_shared<Array<Node>>(n);
            for(jint i = 0; i < n; ++i) (*a)[i] = std::make_shared<Node>();
            return a;
        }
    };
    std::shared_ptr<Object> Node::sobj;
    // a class which is not registered with a default constructor
    struct NoCtor : Extends<Object> { Track t; explicit NoCtor(int) {} };
    struct Boom : std::runtime_error { Track t; explicit Boom(const std::string& s) : std::runtime_error(s) {} };

    // What programs work on. Identifiers and global references are made once, outside of the repeated part
    struct Ctx {
        VM* vm = nullptr;
        ENV* e = nullptr;
        JNIEnv* env = nullptr;
        JavaVM* jvm = nullptr;
        jclass node = nullptr, base = nullptr, noctor = nullptr, object = nullptr, string = nullptr, throwable = nullptr, unknown = nullptr;
        jmethodID ctor, ctorn, ctoro, who, echo, fresh, text, sum, several, boom, boomstr, noctorm, native, getnum;
        jfieldID obj, next, str, num, sobj;
        jobject keep = nullptr; // a node, global
        std::shared_ptr<Class> node_class;
        bool fabricates = false, fake = false;
        Baron::Jvm* baron = nullptr;
        FakeJni::Jvm* fj = nullptr;
        Worker* w = nullptr;
        void init(bool fab) {
            fabricates = fab;
            env = e->GetJNIEnv();
            jvm = vm->GetJavaVM();
            node_class = e->GetClass<Node>("c23/Node");
            auto b = e->GetClass<Base>("c23/Base");
            auto nc = e->GetClass<NoCtor>("c23/NoCtor");
            e->GetClass<Throwable>("java/lang/Throwable");
            auto c = node_class.get();
            c->Hook(e, "<init>", []() { return std::make_shared<Node>(); });
            c->Hook(e, "<init>", [](jlong n) { auto r = std::make_shared<Node>(); r->num = n; return r; });
            c->Hook(e, "<init>", [](std::shared_ptr<Object> o, std::shared_ptr<String> s) { auto r = std::make_shared<Node>(); r->obj = o; r->str = s; return r; });
            b->HookInstanceFunction(e, "who", [](ENV*, Object* o) -> jint { auto p = dynamic_cast<Base*>(o); return p ? p->who() : -1; });
            c->Hook(e, "echo", &Node::echo);
            c->Hook(e, "fresh", &Node::fresh);
            c->Hook(e, "text", &Node::text);
            c->Hook(e, "sum", &Node::sum);
            c->Hook(e, "several", &Node::several);
            c->Hook(e, "obj", &Node::obj);
            c->Hook(e, "next", &Node::next);
            c->Hook(e, "str", &Node::str);
            c->Hook(e, "num", &Node::num);
            c->Hook(e, "sobj", &Node::sobj);
            c->Hook(e, "boom", [](std::shared_ptr<String> s) { throw Boom(*s); });
            c->Hook(e, "boomobj", [](std::shared_ptr<String> s) -> std::shared_ptr<Object> { throw Boom(*s); });
            nc->Hook(e, "make", [](jint n) { return std::make_shared<NoCtor>(n); });
            env->PushLocalFrame(64);
            auto G = [&](const char* n) { auto l = env->FindClass(n); REQ(l, "C23:setup", "%s", n); return (jclass)env->NewGlobalRef(l); };
            node = G("c23/Node"); base = G("c23/Base"); noctor = G("c23/NoCtor"); object = G("java/lang/Object"); string = G("java/lang/String"); throwable = G("java/lang/Throwable");
            ctor = env->GetMethodID(node, "<init>", "()V");
            ctorn = env->GetMethodID(node, "<init>", "(J)V");
            ctoro = env->GetMethodID(node, "<init>", "(Ljava/lang/Object;Ljava/lang/String;)V");
            who = env->GetMethodID(node, "who", "()I");
            echo = env->GetMethodID(node, "echo", "(Ljava/lang/Object;)Ljava/lang/Object;");
            fresh = env->GetMethodID(node, "fresh", "(I)Lc23/Node;");
            text = env->GetStaticMethodID(node, "text", "(Ljava/lang/String;)Ljava/lang/String;");
            sum = env->GetStaticMethodID(node, "sum", "([I)I");
            several = env->GetStaticMethodID(node, "several", "(I)[Lc23/Node;");
            boom = env->GetStaticMethodID(node, "boom", "(Ljava/lang/String;)V");
            boomstr = env->GetStaticMethodID(node, "boomobj", "(Ljava/lang/String;)Ljava/lang/Object;");
            noctorm = env->GetStaticMethodID(noctor, "make", "(I)Lc23/NoCtor;");
            obj = env->GetFieldID(node, "obj", "Ljava/lang/Object;");
            next = env->GetFieldID(node, "next", "Lc23/Node;");
            str = env->GetFieldID(node, "str", "Ljava/lang/String;");
            num = env->GetFieldID(node, "num", "J");
            sobj = env->GetStaticFieldID(node, "sobj", "Ljava/lang/Object;");
            for(auto id : { ctor, ctorn, ctoro, who, echo, fresh, text, sum, several, boom, boomstr, noctorm }) REQ(id, "C23:setup", "method");
            for(auto id : { obj, next, str, num, sobj }) REQ(id, "C23:setup", "field");
            auto l = env->NewObject(node, ctor);
            REQ(l, "C23:setup", "object");
            keep = env->NewGlobalRef(l);
            env->PopLocalFrame(nullptr);
        }
    };
    // an unexpected result inside of a repeated part
#define MUST(c, what) do { if(!(c)) vh::fail("C23:result", what); } while(0)
    jobject some(Ctx& c, JNIEnv* env, vh::Rng& r) {
        switch(r.below(8)) {
        case 0: return env->NewObject(c.node, c.ctor);
        case 1: return env->NewObject(c.node, c.ctorn, (jlong)r.next());
        case 2: { auto s = env->NewStringUTF("a string too long for small buffers"); return env->NewObject(c.node, c.ctoro, c.keep, s); }
        case 3: return local(ENV::FromJNIEnv(env), std::make_shared<Node>());
        case 4: return env->NewStringUTF("another string too long for small buffers");
        case 5: return env->NewIntArray(r.below(50));
        case 6: return env->CallObjectMethod(c.keep, c.fresh, 5);
        default: return env->NewObjectArray(r.below(9), c.node, c.keep);
        }
    }
    using Op = void (*)(Ctx&, JNIEnv*, vh::Rng&);
    struct Named { const char* name; Op op; bool alone; };
    void jni_sink(JNIEnv* env, jobject, jobject o) { env->DeleteLocalRef(env->NewLocalRef(o)); }
    jobject jni_source(JNIEnv* env, jobject) { return env->NewStringUTF("a string made by a native method"); }
    template<class J, class A> void prim_array(JNIEnv* env, vh::Rng& r, A a, J* (*get)(JNIEnv*, A, jboolean*), void (*rel)(JNIEnv*, A, J*, jint), jsize n) {
        MUST(a && env->GetArrayLength(a) == n, "array");
        for(int k = r.below(3); k-- > 0;) {
            jboolean copy;
            auto p = get(env, a, &copy);
            MUST(p || !n, "elements");
            if(n) p[r.below(n)] = (J)r.next();
            if(r.chance(1, 2)) rel(env, a, p, JNI_COMMIT);
            rel(env, a, p, r.chance(1, 2) ? JNI_ABORT : 0);
        }
        if(r.chance(1, 2)) {
            auto p = env->GetPrimitiveArrayCritical(a, nullptr);
            env->ReleasePrimitiveArrayCritical(a, p, r.chance(1, 2) ? JNI_ABORT : 0);
        }
    }
    const Named ops[] = {
        { "new and drop", [](Ctx& c, JNIEnv* env, vh::Rng& r) { auto o = some(c, env, r); MUST(o, "object"); if(r.chance(1, 2)) env->DeleteLocalRef(o); } },
        { "nested frames", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            int d = 1 + r.below(6);
            for(int k = 0; k < d; ++k) { env->PushLocalFrame(r.below(20)); for(int q = r.below(20); q-- > 0;) some(c, env, r); }
            jobject res = some(c, env, r);
            for(int k = 0; k < d; ++k) { res = env->PopLocalFrame(r.chance(1, 8) ? nullptr : res); if(r.chance(1, 3)) some(c, env, r); } } },
        { "globals", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto o = some(c, env, r);
            std::vector<jobject> g;
            for(int k = r.below(20); k-- > 0;) g.push_back(env->NewGlobalRef(g.size() && r.chance(1, 2) ? r.pick(g) : o));
            if(r.chance(1, 2)) env->DeleteLocalRef(o);
            while(g.size()) { auto k = r.below(g.size()); env->DeleteGlobalRef(g[k]); g.erase(g.begin() + k); } } },
        { "weak globals", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            env->PushLocalFrame(5);
            std::vector<jweak> g;
            for(int k = 1 + r.below(10); k-- > 0;) {
                auto o = local(ENV::FromJNIEnv(env), std::make_shared<Node>());
                g.push_back(env->NewWeakGlobalRef(o));
                auto l = env->NewLocalRef(g.back());
                MUST(env->IsSameObject(l, o), "weak reference");
            }
            env->PopLocalFrame(nullptr);
            for(auto w : g) { MUST(env->IsSameObject(w, nullptr), "weak reference keeps its object"); MUST(!env->NewLocalRef(w), "dead weak reference"); env->DeleteWeakGlobalRef(w); } } },
        { "strings", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            std::vector<jchar> u(r.chance(1, 4) ? r.below(2) : r.below(200));
            for(auto& x : u) x = r.next();
            auto s = env->NewString(u.data(), u.size());
            MUST(s && env->GetStringLength(s) == (jsize)u.size(), "string");
            switch(r.below(4)) {
            case 0: env->ReleaseStringUTFChars(s, env->GetStringUTFChars(s, nullptr)); break;
            case 1: env->ReleaseStringChars(s, env->GetStringChars(s, nullptr)); break;
            case 2: env->ReleaseStringCritical(s, env->GetStringCritical(s, nullptr)); break;
            default: {
                std::vector<jchar> b(u.size() + 1);
                std::vector<char> m(u.size() * 3 + 1);
                env->GetStringRegion(s, 0, u.size(), b.data());
                env->GetStringUTFRegion(s, 0, u.size(), m.data());
                env->GetStringRegion(s, u.size(), 1, b.data());
                MUST(env->ExceptionCheck(), "range"); env->ExceptionClear();
            } }
            env->NewStringUTF("");
            env->CallStaticObjectMethod(c.node, c.text, s); } },
#define PA(N, J, z, d) { #N " arrays", [](Ctx& c, JNIEnv* env, vh::Rng& r) { \
            jsize n = r.chance(1, 5) ? 0 : r.below(300); \
            auto a = env->New##N##Array(n); \
            prim_array<J, J##Array>(env, r, a, [](JNIEnv* e, J##Array a, jboolean* c) { return e->Get##N##ArrayElements(a, c); }, [](JNIEnv* e, J##Array a, J* p, jint m) { e->Release##N##ArrayElements(a, p, m); }, n); \
            std::vector<J> b(n + 1); \
            env->Get##N##ArrayRegion(a, 0, n, b.data()); env->Set##N##ArrayRegion(a, 0, n, b.data()); \
            env->Get##N##ArrayRegion(a, n, 1, b.data()); MUST(env->ExceptionCheck(), "range"); env->ExceptionClear(); \
            if(r.chance(1, 2)) env->DeleteLocalRef(a); \
            MUST(!env->New##N##Array(-1 - r.below(5)), "negative length"); MUST(env->ExceptionCheck(), "negative length"); env->ExceptionClear(); } },
        PRIMS(PA)
#undef PA
        { "object arrays", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            jsize n = r.below(20);
            auto o = env->NewObject(c.node, c.ctor);
            auto a = env->NewObjectArray(n, c.node, r.chance(1, 2) ? o : nullptr);
            MUST(a && env->GetArrayLength(a) == n, "array");
            for(int k = n ? r.below(20) : 0; k-- > 0;) {
                if(r.chance(1, 2)) env->SetObjectArrayElement(a, r.below(n), r.chance(1, 4) ? nullptr : env->NewObject(c.node, c.ctor));
                else env->GetObjectArrayElement(a, r.below(n));
            }
            auto aa = env->NewObjectArray(3, env->GetObjectClass(c.keep), nullptr);
            env->DeleteLocalRef(aa);
            env->GetObjectArrayElement(a, n); MUST(env->ExceptionCheck(), "range"); env->ExceptionClear(); } },
        { "arrays from hooks", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            jint n = r.below(9);
            auto a = (jobjectArray)env->CallStaticObjectMethod(c.node, c.several, n);
            MUST(a && env->GetArrayLength(a) == n, "array");
            for(jint k = 0; k < n; ++k) { auto o = env->GetObjectArrayElement(a, k); if(r.chance(1, 2)) env->DeleteLocalRef(o); }
            auto ia = env->NewIntArray(n);
            MUST(env->CallStaticIntMethod(c.node, c.sum, ia) == 0, "sum"); } },
        { "direct buffers", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            char mem[64];
            auto b = env->NewDirectByteBuffer(mem, sizeof mem);
            MUST(b && env->GetDirectBufferAddress(b) == mem && env->GetDirectBufferCapacity(b) == 64, "buffer");
            auto g = env->NewGlobalRef(b);
            if(r.chance(1, 2)) env->DeleteLocalRef(b);
            env->DeleteGlobalRef(g); } },
        { "native exceptions", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto s = env->NewStringUTF("a message which is too long for small buffers");
            for(int k = 1 + r.below(4); k-- > 0;) {
                if(r.chance(1, 2)) env->CallStaticVoidMethod(c.node, c.boom, s); else env->CallStaticObjectMethod(c.node, c.boomstr, s);
                MUST(env->ExceptionCheck(), "exception");
                if(r.chance(1, 2)) {
                    auto t = env->ExceptionOccurred();
                    MUST(t, "exception");
                    env->ExceptionClear();
                    if(r.chance(1, 2)) { auto g = (jthrowable)env->NewGlobalRef(t); env->Throw(g); env->DeleteGlobalRef(g); }
                    if(r.chance(1, 2)) env->Throw(t);
                }
                if(r.chance(2, 3)) env->ExceptionClear();
            }
            env->ExceptionClear(); } },
        { "thrown exceptions", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            for(int k = r.below(4); k-- > 0;) env->ThrowNew(c.throwable, "a message which is too long for small buffers");
            if(r.chance(1, 2)) env->ExceptionOccurred();
            if(r.chance(1, 2)) { env->PushLocalFrame(3); env->ExceptionOccurred(); env->PopLocalFrame(nullptr); }
            env->ExceptionClear(); } },
        { "calls", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto o = env->NewObject(c.node, c.ctor);
            for(int k = r.below(6); k-- > 0;) switch(r.below(5)) {
            case 0: MUST(env->IsSameObject(env->CallObjectMethod(o, c.echo, c.keep), c.keep), "echo"); break;
            case 1: { jvalue v; v.l = o; env->CallObjectMethodA(c.keep, c.echo, &v); break; }
            case 2: MUST(env->CallNonvirtualIntMethod(o, c.base, c.who) == 2, "nonvirtual"); break;
            case 3: MUST(env->CallIntMethod(o, c.who) == 2, "who"); break;
            default: MUST(env->CallObjectMethod(o, c.echo, nullptr) == nullptr, "null"); MUST(env->CallStaticObjectMethod(c.noctor, c.noctorm, 3), "object");
            } } },
        { "fields", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto o = env->NewObject(c.node, c.ctor);
            for(int k = r.below(9); k-- > 0;) switch(r.below(6)) {
            case 0: env->SetObjectField(o, c.obj, some(c, env, r)); break;
            case 1: env->SetObjectField(o, c.next, r.chance(1, 3) ? nullptr : env->NewObject(c.node, c.ctor)); break;
            case 2: env->SetObjectField(o, c.str, env->NewStringUTF("a field value which is too long for small buffers")); break;
            case 3: env->SetLongField(o, c.num, env->GetLongField(o, c.num) + 1); break;
            case 4: env->SetStaticObjectField(c.node, c.sobj, some(c, env, r)); break;
            default: env->GetObjectField(o, c.obj); env->GetObjectField(o, c.next); env->GetObjectField(o, c.str); env->GetStaticObjectField(c.node, c.sobj);
            }
            env->SetObjectField(c.keep, c.obj, o);
            env->SetObjectField(c.keep, c.obj, nullptr);
            env->SetStaticObjectField(c.node, c.sobj, nullptr); } },
        { "chains", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto head = env->NewObject(c.node, c.ctor);
            for(int k = 1 + r.below(30); k-- > 0;) {
                auto n = env->NewObject(c.node, c.ctor);
                env->SetObjectField(n, c.next, head);
                env->DeleteLocalRef(head);
                head = n;
            }
            auto g = env->NewGlobalRef(head);
            env->DeleteLocalRef(head);
            env->DeleteGlobalRef(g); } },
        { "lookups", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            for(int k = r.below(5); k-- > 0;) {
                auto cl = env->FindClass(r.chance(1, 2) ? "c23/Node" : "c23/Base");
                MUST(cl, "class");
                env->GetMethodID(cl, "who", "()I");
                env->GetFieldID(c.node, "num", "J");
                auto u = env->FindClass("c23/some/Unknown");
                MUST(!u == !c.fabricates, "unknown class");
                env->ExceptionClear();
                if(u) { env->GetMethodID(u, "unknownMethodWithALongName", "(IJLjava/lang/String;)[Lc23/other/Unknown;"); env->GetStaticFieldID(u, "unknownFieldWithALongName", "[[Lc23/other/Unknown;"); }
                else { env->GetMethodID(cl, "unknownMethodWithALongName", "()V"); env->ExceptionClear(); env->GetStaticFieldID(cl, "unknownFieldWithALongName", "I"); env->ExceptionClear(); }
                env->ExceptionClear();
            } } },
        { "unimplemented members", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            if(!c.fabricates) return;
            auto u = env->FindClass("c23/some/Unknown");
            auto m = env->GetStaticMethodID(u, "m", "(I)Lc23/third/Unknown;");
            auto n = env->GetStaticMethodID(u, "n", "()[Lc23/Node;");
            auto s = env->GetStaticMethodID(u, "s", "()Ljava/lang/String;");
            auto f = env->GetStaticFieldID(u, "f", "Lc23/Node;");
            MUST(m && n && s && f, "fabricated members");
            env->CallStaticObjectMethod(u, m, 5);
            MUST(env->CallStaticObjectMethod(u, n), "default array");
            MUST(env->CallStaticObjectMethod(u, s), "default string");
            MUST(env->GetStaticObjectField(u, f), "default object");
            env->SetStaticObjectField(u, f, c.keep);
            env->CallStaticVoidMethod(u, env->GetStaticMethodID(u, "v", "()V")); } },
        { "class queries", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto o = some(c, env, r);
            auto cl = env->GetObjectClass(o);
            env->IsInstanceOf(o, c.object);
            if(cl) MUST(env->IsInstanceOf(o, cl), "instance");
            env->IsAssignableFrom(c.node, c.base);
            env->GetSuperclass(c.node);
            env->IsInstanceOf(c.keep, c.base);
            MUST(env->GetObjectRefType(o) == JNILocalRefType, "reference type"); } },
        { "reflection", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto m = env->ToReflectedMethod(c.node, c.echo, false);
            auto f = env->ToReflectedField(c.node, c.sobj, true);
            MUST(env->FromReflectedMethod(m) == c.echo && env->FromReflectedField(f) == c.sobj, "reflected"); } },
        { "monitors", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto o = some(c, env, r);
            int d = 1 + r.below(3);
            for(int k = 0; k < d; ++k) MUST(env->MonitorEnter(o) == 0, "enter");
            for(int k = 0; k < d; ++k) MUST(env->MonitorExit(o) == 0, "exit");
            env->MonitorEnter(c.keep);
            env->MonitorExit(c.keep); } },
        { "natives", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            JNINativeMethod m[] = { { (char*)"sinkWithAVeryLongName", (char*)"(Ljava/lang/Object;)V", (void*)jni_sink }, { (char*)"source", (char*)"()Ljava/lang/Object;", (void*)jni_source } };
            for(int k = r.below(3); k-- > 0;) {
                env->RegisterNatives(c.node, m, 2);
                if(r.chance(1, 2)) env->RegisterNatives(c.node, m, 1);
                if(c.fake) {
                    auto e = ENV::FromJNIEnv(env);
                    auto o = deref(e, c.keep);
                    auto p = c.node_class->getMethod("(Ljava/lang/Object;)V", "sinkWithAVeryLongName");
                    MUST(p, "native");
                    p->invoke(*env, o.get(), std::make_shared<Node>());
                    p->invoke(*env, o.get(), std::make_shared<String>("a string which is too long for small buffers"));
                    auto q = c.node_class->getMethod("()Ljava/lang/Object;", "source");
                    MUST(q, "native");
                    auto l = q->invoke(*env, o.get()).l;
                    MUST(l, "result");
                }
                env->UnregisterNatives(c.node);
            } } },
        { "hooked again", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto t = std::make_shared<Track>();
            auto n = c.node_class;
            auto e = ENV::FromJNIEnv(env);
            n->Hook(e, "closure", [t]() { return (jint)t->id; });
            n->HookInstanceFunction(e, "iclosure", [t](Object*) { return (jint)t->id; });
            n->HookGetterFunction(e, "gclosure", [t]() { return (jint)t->id; });
            n->HookInstanceSetterFunction(e, "sclosure", [t](Object*, jint) {});
            auto m = env->GetStaticMethodID(c.node, "closure", "()I");
            MUST(env->CallStaticIntMethod(c.node, m) == t->id, "closure");
            m = env->GetMethodID(c.node, "iclosure", "()I");
            MUST(env->CallIntMethod(c.keep, m) == t->id, "closure"); }, true },
        { "scoped frames", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto vm = dynamic_cast<FakeJni::Jvm*>(c.vm);
            if(!c.fake || !vm) return;
            for(int k = 1 + r.below(3); k-- > 0;) {
                bool pending = r.chance(1, 3);
                try {
                    FakeJni::LocalFrame f(*vm, r.below(4));
                    for(int q = r.below(9); q-- > 0;) some(c, env, r);
                    {
                        FakeJni::LocalFrame g(*vm);
                        f.getJniEnv().createLocalReference(std::make_shared<Node>());
                        if(pending) env->ThrowNew(c.throwable, "a message which is too long for small buffers");
                    }
                    MUST(f.getJniEnv().resolveReference(c.keep), "reference");
                    if(r.chance(1, 3)) throw Boom("unwinding");
                } catch(const Boom&) {
                }
                MUST((bool)env->ExceptionCheck() == pending, "exception");
                env->ExceptionClear();
            } } },
        { "another thread", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            auto g = env->NewGlobalRef(some(c, env, r));
            uint64_t seed = r.next();
            c.w->run([&] {
                JNIEnv* env = nullptr;
                MUST(c.jvm->AttachCurrentThread(&env, nullptr) == 0 && env, "attach");
                vh::Rng r { seed };
                for(int k = r.below(20); k-- > 0;) some(c, env, r);
                env->NewLocalRef(g);
                for(int k = r.below(4); k-- > 0;) { env->PushLocalFrame(5); some(c, env, r); }
                if(r.chance(1, 3)) env->ThrowNew(c.throwable, "left pending by a thread which is detached");
                if(r.chance(1, 3)) env->CallStaticVoidMethod(c.node, c.boom, env->NewStringUTF("left pending by a thread"));
                MUST(c.jvm->DetachCurrentThread() == 0, "detach");
            });
            env->DeleteGlobalRef(g); } },
        { "short threads", [](Ctx& c, JNIEnv* env, vh::Rng& r) {
            for(int k = r.below(3); k-- > 0;) {
                uint64_t seed = r.next();
                std::thread([&c, seed] {
                    JNIEnv* env = nullptr;
                    c.jvm->AttachCurrentThreadAsDaemon(&env, nullptr);
                    vh::Rng r { seed };
                    for(int k = r.below(9); k-- > 0;) some(c, env, r);
                    c.jvm->DetachCurrentThread();
                }).join();
            } } },
    };
    // Operations which add what they hand out to a list, so that it can be deleted one by one, without any frame
    using Refs1 = std::vector<jobject>;
    struct Single { const char* name; void (*op)(Ctx&, JNIEnv*, vh::Rng&, Refs1&); };
    const Single singles[] = {
        { "FindClass", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) { o.push_back(env->FindClass("c23/Node")); } },
        { "IsInstanceOf", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) { MUST(env->IsInstanceOf(c.keep, c.base) && !env->IsInstanceOf(c.keep, c.noctor) && !env->IsInstanceOf(nullptr, c.base), "instance"); } },
        { "IsAssignableFrom", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) { MUST(env->IsAssignableFrom(c.node, c.base) && !env->IsAssignableFrom(c.base, c.node), "assignable"); } },
        { "GetObjectClass", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) { o.push_back(env->GetObjectClass(c.keep)); } },
        { "GetObjectRefType", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) { MUST(env->GetObjectRefType(c.keep) == JNIGlobalRefType && env->IsSameObject(c.keep, c.keep), "reference type"); } },
        { "NewLocalRef", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) { for(int k = r.below(5); k-- > 0;) o.push_back(env->NewLocalRef(c.keep)); } },
        { "NewGlobalRef", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1&) { auto g = env->NewGlobalRef(c.keep); auto w = env->NewWeakGlobalRef(g); env->DeleteGlobalRef(g); env->DeleteWeakGlobalRef(w); } },
        { "NewObject", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) { o.push_back(env->NewObject(c.node, c.ctor)); o.push_back(env->NewObject(c.node, c.ctoro, o[0], nullptr)); } },
        { "Call<Object>Method", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) { o.push_back(env->CallObjectMethod(c.keep, c.echo, c.keep)); o.push_back(env->CallObjectMethod(c.keep, c.fresh, 5)); jvalue v; v.l = c.keep; o.push_back(env->CallObjectMethodA(c.keep, c.echo, &v)); } },
        { "CallStatic<Primitive>Method", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) { auto a = env->NewIntArray(4); MUST(env->CallStaticIntMethod(c.node, c.sum, a) == 0, "sum"); o.push_back(a); } },
        { "Get<Object>Field", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) {
            o.push_back(env->NewStringUTF("a text"));
            env->SetObjectField(c.keep, c.str, o[0]); o.push_back(env->GetObjectField(c.keep, c.str)); env->SetObjectField(c.keep, c.str, nullptr);
            env->SetStaticObjectField(c.node, c.sobj, o[0]); o.push_back(env->GetStaticObjectField(c.node, c.sobj)); env->SetStaticObjectField(c.node, c.sobj, nullptr);
            env->SetLongField(c.keep, c.num, env->GetLongField(c.keep, c.num) + 1); } },
        { "strings one by one", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            auto s = env->NewStringUTF("a text which is too long for small buffers");
            o.push_back(s); env->GetStringLength(s); env->GetStringUTFLength(s); env->ReleaseStringUTFChars(s, env->GetStringUTFChars(s, nullptr));
            jchar u[5] = {}; o.push_back(env->NewString(u, 5)); env->GetStringRegion(s, 3, 5, u); } },
        { "arrays one by one", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            auto a = env->NewObjectArray(3, c.node, c.keep);
            o.push_back(a); o.push_back(env->GetObjectArrayElement(a, 1)); env->SetObjectArrayElement(a, 2, c.keep); env->SetObjectArrayElement(a, 0, nullptr);
            MUST(env->GetArrayLength(a) == 3, "length");
            auto d = env->NewDoubleArray(7); o.push_back(d);
            jdouble x[7] = {}; env->SetDoubleArrayRegion(d, 0, 7, x); env->GetDoubleArrayRegion(d, 0, 7, x); env->ReleaseDoubleArrayElements(d, env->GetDoubleArrayElements(d, nullptr), 0); } },
        { "errors one by one", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            auto a = env->NewObjectArray(3, c.node, nullptr);
            auto b = env->NewByteArray(3);
            auto s = env->NewStringUTF("x");
            jbyte buf[4]; jchar u[4]; char t[16];
            o = { a, b, s };
#define FAILS(x) x; MUST(env->ExceptionCheck(), "exception"); env->ExceptionClear()
            FAILS(env->GetObjectArrayElement(a, 3)); FAILS(env->SetObjectArrayElement(a, -1, c.keep)); FAILS(env->SetObjectArrayElement(a, 0, s));
            FAILS(env->GetByteArrayRegion(b, 1, 3, buf)); FAILS(env->SetByteArrayRegion(b, -1, 2, buf)); FAILS(env->NewIntArray(-1)); FAILS(env->NewObjectArray(-1, c.node, nullptr)); FAILS(env->NewObjectArray(1, c.node, s));
            FAILS(env->GetStringRegion(s, 1, 2, u)); FAILS(env->GetStringUTFRegion(s, -1, 1, t)); FAILS(env->CallStaticVoidMethod(c.node, c.boom, s)); } },
        { "exceptions one by one", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            env->ThrowNew(c.throwable, "a message"); auto t = env->ExceptionOccurred(); o.push_back(t);
            env->ExceptionClear(); env->Throw(t); o.push_back(env->ExceptionOccurred()); env->ExceptionClear(); } },
        { "buffers one by one", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) { auto b = env->NewDirectByteBuffer(&r, 8); o.push_back(b); MUST(env->GetDirectBufferAddress(b) == &r && env->GetDirectBufferCapacity(b) == 8, "buffer"); } },
        { "reflection one by one", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) {
            o.push_back(env->ToReflectedMethod(c.node, c.echo, false)); o.push_back(env->ToReflectedField(c.node, c.sobj, true));
            MUST(env->FromReflectedMethod(o[0]) == c.echo && env->FromReflectedField(o[1]) == c.sobj, "reflected"); } },
        { "lookups one by one", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) {
            MUST(env->GetMethodID(c.node, "who", "()I") == c.who && env->GetStaticMethodID(c.node, "sum", "([I)I") == c.sum && env->GetFieldID(c.node, "num", "J") == c.num, "identifiers");
            env->GetMethodID(c.node, "unknown", "(Lc23/other/Unknown;)V"); env->ExceptionClear(); env->GetStaticFieldID(c.node, "unknown", "[[Lc23/other/Unknown;"); env->ExceptionClear(); } },
        { "defaults one by one", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) {
            if(!c.fabricates) return;
            for(auto d : { "()Ljava/lang/String;", "()Lc23/other/Unknown;", "()[I", "()[Lc23/Node;", "()[[Lc23/Node;", "()Lc23/Node;" }) { o.push_back(env->CallStaticObjectMethod(c.node, env->GetStaticMethodID(c.node, "missing", d))); MUST(o.back(), "default"); }
            o.push_back(env->GetStaticObjectField(c.node, env->GetStaticFieldID(c.node, "missing", "Lc23/Node;")));
            MUST(env->CallStaticIntMethod(c.node, env->GetStaticMethodID(c.node, "missing", "()I")) == 0, "default"); } },
        { "frames one by one", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) { env->PushLocalFrame(r.below(9)); auto s = some(c, env, r); o.push_back(env->PopLocalFrame(s)); env->EnsureLocalCapacity(4); } },
        { "natives one by one", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) {
            JNINativeMethod m[] = { { (char*)"sinkWithAVeryLongName", (char*)"(Ljava/lang/Object;)V", (void*)jni_sink } };
            env->RegisterNatives(c.noctor, m, 1); env->RegisterNatives(c.noctor, m, 1); env->UnregisterNatives(c.noctor); } },
        { "monitors one by one", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) { env->MonitorEnter(c.keep); env->MonitorEnter(c.keep); env->MonitorExit(c.keep); env->MonitorExit(c.keep); } },
        { "attaching again", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) { JNIEnv* x = nullptr; c.jvm->AttachCurrentThread(&x, nullptr); MUST(x == env, "environment"); c.jvm->GetEnv((void**)&x, JNI_VERSION_1_6); MUST(x == env, "environment"); JavaVM* v; env->GetJavaVM(&v); } },
    };
    // Operations on names and values never seen before: nothing may be remembered for each of them. Texts have a fixed length
    unsigned serial = 0;
    std::string unique(const char* pre) { char b[64]; snprintf(b, sizeof b, "%sNeverSeenBefore%010u", pre, ++serial * 2654435761u); return b; }
    struct NewLib {
        static void* dlopen(const char* n, int) { static int x; return n ? &x : nullptr; }
        static void* dlsym(void*, const char*) { return nullptr; }
        static int dlclose(void*) { return 0; }
    };
    const Single fresh[] = {
        { "new natives", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1&) {
            auto a = unique("native"), b = unique("other");
            JNINativeMethod m[] = { { (char*)a.c_str(), (char*)"(Ljava/lang/Object;)V", (void*)jni_sink }, { (char*)b.c_str(), (char*)"()Ljava/lang/Object;", (void*)jni_source } };
            env->RegisterNatives(c.noctor, m, 2);
            env->RegisterNatives(c.noctor, m + 1, 1);
            env->UnregisterNatives(c.noctor); } },
        { "new texts", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            auto t = unique("some text which is never used again, ");
            o.push_back(env->NewStringUTF(t.c_str()));
            std::vector<jchar> u(t.begin(), t.end());
            o.push_back(env->NewString(u.data(), u.size()));
            auto s0 = (jstring)o[0], s1 = (jstring)o[1];
            auto p = env->GetStringUTFChars(s0, nullptr);
            MUST(t == p, "text");
            env->ReleaseStringUTFChars(s0, p);
            env->ReleaseStringChars(s1, env->GetStringChars(s1, nullptr));
            o.push_back(env->CallStaticObjectMethod(c.node, c.text, o[0]));
            std::vector<char> b(t.size() + 1);
            env->GetStringUTFRegion(s0, 0, t.size(), b.data()); } },
        { "new messages", [](Ctx& c, JNIEnv* env, vh::Rng&, Refs1& o) {
            env->ThrowNew(c.throwable, unique("message").c_str()); o.push_back(env->ExceptionOccurred()); env->ExceptionClear();
            o.push_back(env->NewStringUTF(unique("boom").c_str()));
            env->CallStaticVoidMethod(c.node, c.boom, o[1]); MUST(env->ExceptionCheck(), "exception"); env->ExceptionClear(); } },
        { "new unknown names", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1&) {
            if(c.fabricates) return;
            MUST(!env->FindClass(unique("c23/other/Class").c_str()) && !env->FindClass(unique("Outer$Inner").c_str()) && !env->FindClass((unique("[Lc23/Class") + ";").c_str()), "unknown class");
            auto n = unique("member"), d = "(L" + unique("c23/yet/another/Class") + ";I)V", t = "L" + unique("c23/Class") + ";";
            MUST(!env->GetMethodID(c.node, n.c_str(), "()V") && !env->GetMethodID(c.node, "who", d.c_str()) && !env->GetMethodID(c.node, "<init>", d.c_str()), "unknown method");
            MUST(!env->GetStaticMethodID(c.node, n.c_str(), d.c_str()) && !env->GetFieldID(c.node, n.c_str(), "I") && !env->GetStaticFieldID(c.node, "num", t.c_str()) && !env->GetFieldID(c.node, n.c_str(), t.c_str()), "unknown member"); } },
        { "new denied names", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1&) {
            if(!c.baron) return;
            auto d = "(L" + unique("c23/yet/another/Class") + ";I)V", t = "L" + unique("c23/Class") + ";", n = unique("member");
            MUST(!env->GetMethodID(c.node, "denied", d.c_str()) && !env->GetStaticMethodID(c.node, "denied", d.c_str()) && !env->GetFieldID(c.node, "denied", t.c_str()) && !env->GetStaticFieldID(c.node, "denied", t.c_str()), "denied");
            MUST(!env->GetMethodID(c.noctor, n.c_str(), d.c_str()) && !env->GetStaticFieldID(c.noctor, n.c_str(), t.c_str()), "denied"); } },
        { "new objects", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            o.push_back(env->NewObject(c.node, c.ctorn, (jlong)++serial));
            auto g = env->NewGlobalRef(o[0]); auto w = env->NewWeakGlobalRef(o[0]);
            env->MonitorEnter(g); env->MonitorExit(w);
            MUST(env->GetLongField(g, c.num) == serial && env->GetObjectRefType(w) == JNIWeakGlobalRefType, "object");
            env->DeleteGlobalRef(g); env->DeleteWeakGlobalRef(w);
            o.push_back(env->NewObjectArray(1 + serial % 7, c.node, o[0])); } },
        { "new lengths", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            jsize n = serial++ % 5000;
            o.push_back(env->NewByteArray(n)); o.push_back(env->NewDoubleArray(n)); o.push_back(env->NewObjectArray(n % 300, c.node, nullptr));
            jbyte b; env->GetByteArrayRegion((jbyteArray)o[0], n, 1 + n, &b); MUST(env->ExceptionCheck(), "range"); env->ExceptionClear();
            env->PushLocalFrame(n % 99); env->PopLocalFrame(nullptr); } },
        { "new buffers", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1& o) {
            auto p = (char*)0x100000 + ++serial * 64ull;
            o.push_back(env->NewDirectByteBuffer(p, serial));
            MUST(env->GetDirectBufferAddress(o[0]) == p && env->GetDirectBufferCapacity(o[0]) == serial, "buffer"); } },
        { "new libraries", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1&) {
            if(!c.fj) return;
            auto a = unique("/c23/lib"), b = unique("lib");
            FakeJni::LibraryOptions o(NewLib::dlopen, NewLib::dlsym, NewLib::dlclose);
            c.fj->attachLibrary(a, "", o);
            c.fj->attachLibrary(b, "", o);
            c.fj->removeLibrary(a);
            c.fj->removeLibrary(unique("unknown"));
            c.fj->removeLibrary(b); } },
        { "new threads", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1&) {
            if(r.chance(19, 20) && serial++ % 8) return;
            std::thread([&] {
                JNIEnv* e;
                c.jvm->AttachCurrentThread(&e, nullptr);
                e->NewStringUTF(unique("local of a thread").c_str());
                e->PushLocalFrame(3);
                e->ThrowNew(c.throwable, unique("message of a thread").c_str());
                c.jvm->DetachCurrentThread();
            }).join(); } },
        { "new closures", [](Ctx& c, JNIEnv* env, vh::Rng& r, Refs1&) {
            auto t = std::make_shared<Track>();
            auto e = ENV::FromJNIEnv(env);
            jint v = ++serial;
            c.node_class->Hook(e, "newclosure", [t, v]() { return v; });
            MUST(env->CallStaticIntMethod(c.node, env->GetStaticMethodID(c.node, "newclosure", "()I")) == v, "closure"); } },
    };
    size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }

    struct Machine {
        std::unique_ptr<VM> plain;
        std::unique_ptr<MyBaron> baron;
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<FakeJni::LocalFrame> frame;
        VM* vm = nullptr;
        explicit Machine(int kind) {
            switch(kind) {
            case 0: plain.reset(new VM); vm = plain.get(); break;
            case 1: plain.reset(new VM(false, true)); vm = plain.get(); break;
            case 2: baron.reset(new MyBaron); vm = baron->vm(); break;
            default: fake.reset(new MyFake); vm = fake->vm(); frame.reset(new FakeJni::LocalFrame(*fake));
            }
        }
        ENV* env() { return frame ? ENV::FromJNIEnv(&frame->getJniEnv()) : vm->GetEnv().get(); }
        ~Machine() { frame.reset(); }
    };
    const char* kinds[] = { "plain machine", "plain machine which returns null", "Baron machine", "FakeJni machine" };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C23");
    bool T = vh::S().thorough;
    const size_t NOPS = sizeof ops / sizeof *ops;
    vh::run_cases("repeated programs", 0, T ? 16000 : 900, [&](vh::Rng& r, long i) {
        new_ledger();
        int kind = i % 4;
        // the program: single kinds of operations in turn, so that each is watched alone, and mixtures
        std::vector<int> prog;
        if(r.chance(1, 2)) prog.push_back((i / 4) % NOPS);
        else for(int k = 2 + r.below(12); k-- > 0;) prog.push_back(r.below(NOPS));
        if(getenv("C23_OP")) prog = { atoi(getenv("C23_OP")) };
        uint64_t seed = r.next(), left = r.next();
        std::string text;
        for(int k : prog) text += std::string(k == prog[0] && text.empty() ? "" : ", ") + ops[k].name;
        bool leave = r.chance(1, 2);
        vh::op("%s: %s%s", kinds[kind], text.c_str(), leave ? "; leftovers" : "");
        Worker w;
        int lives = 4;
        std::vector<size_t> dead;
        std::vector<std::weak_ptr<Class>> classes;
        for(int life = 0; life < lives; ++life) {
            new_ledger();
            ledger()->state.reserve(T ? 400000 : 100000);
            classes.clear();
            {
                Machine m(kind);
                Ctx c;
                c.vm = m.vm;
                c.e = m.env();
                c.w = &w;
                c.fake = kind == 3;
                c.init(kind == 0 || kind == 2);
                auto env = c.env;
                env->PushLocalFrame(16);
                size_t living = 0, at[3] = { 0, 0, 0 };
                const int rounds[4] = { 0, 24, 74, 124 };
                // the first lives only warm up what the process allocates once
                int n = life == lives - 1 ? 3 : 1;
                for(int phase = 0; phase < n; ++phase) {
                    for(int it = rounds[phase]; it < rounds[phase + 1]; ++it) {
                        vh::Rng q { seed };
                        env->PushLocalFrame(16);
                        for(int k : prog) {
                            ops[k].op(c, env, q);
                            if(env->ExceptionCheck()) vh::fail("C23:result", fmt("%s left an exception", ops[k].name));
                        }
                        env->PopLocalFrame(nullptr);
                        size_t now = ledger()->living();
                        if(it == 1) living = now;
                        if(it > 1) REQ(now == living, "C23:objects", "%zu objects live after repetition %d, %zu after the first ones", now, it, living);
                    }
                    at[phase] = bytes();
                    vh::count("repetitions", rounds[phase + 1] - rounds[phase]);
                }
                if(n == 3) {
                    long d1 = (long)at[1] - (long)at[0], d2 = (long)at[2] - (long)at[1];
                    REQ(d1 < 50 || d2 < 50, "C23:growth", "fifty repetitions grow the heap by %ld and again by %ld bytes (%s)", d1, d2, text.c_str());
                    vh::count(std::string("steady:") + kinds[kind]);
                    vh::count("bytes grown in the last fifty repetitions", d2 > 0 ? d2 : 0);
                }
                env->PopLocalFrame(nullptr);
                for(auto&& k : m.vm->classes) classes.push_back(k.second);
                REQ(classes.size() > 4, "C23:setup", "classes");
                if(leave) {
                    // what a machine has to clean up itself
                    vh::Rng q { left };
                    for(int k = q.below(9); k-- > 0;) env->NewGlobalRef(some(c, env, q));
                    for(int k = q.below(9); k-- > 0;) env->NewWeakGlobalRef(some(c, env, q));
                    env->SetObjectField(c.keep, c.obj, env->NewObject(c.node, c.ctor)); // nothing which refers back
                    for(int k = q.below(4); k-- > 0;) { env->PushLocalFrame(3); for(int z = q.below(9); z-- > 0;) some(c, env, q); }
                    if(q.chance(1, 2)) env->ThrowNew(c.throwable, "left pending when the machine is destroyed");
                    else if(q.chance(1, 2)) { env->CallStaticVoidMethod(c.node, c.boom, env->NewStringUTF("left pending")); }
                    if(kind != 3 && q.chance(1, 2)) {
                        uint64_t s = q.next();
                        w.run([&] {
                            JNIEnv* env = nullptr;
                            c.jvm->AttachCurrentThread(&env, nullptr);
                            vh::Rng r { s };
                            for(int k = r.below(20); k-- > 0;) some(c, env, r);
                            env->NewGlobalRef(some(c, env, r));
                            env->PushLocalFrame(4);
                            some(c, env, r);
                        });
                        vh::count("left attached");
                    }
                    vh::count("leftovers");
                }
                Node::sobj = nullptr;
            }
            auto n = ledger()->living();
            REQ(n == 0, "C23:survivors", "%zu objects survive their machine", n);
            check_ledger("C23:twice");
            size_t sc = 0;
            for(auto& k : classes) sc += !k.expired();
            REQ(sc == 0, "C23:survivors", "%zu of %zu classes survive their machine", sc, classes.size());
            classes.clear();
            classes.shrink_to_fit();
            vh::count("machines destroyed");
            size_t objects = ledger()->state.size();
            REQ(objects < ledger()->state.capacity(), "C23:harness", "ledger too small");
            std::vector<char>().swap(ledger()->state);
            dead.reserve(16);
            if(life == lives - 1) vh::count("objects tracked", objects);
            dead.push_back(bytes());
        }
        // lives 0 to 2 do the same
        long g1 = (long)dead[1] - (long)dead[0], g2 = (long)dead[2] - (long)dead[1];
        REQ(g2 <= 0 || g1 <= 0, "C23:machine-leak", "destroyed machines leave %ld and again %ld bytes (%s%s)", g1, g2, text.c_str(), leave ? "; leftovers" : "");
        vh::count(g2 == 0 ? "machines leave no byte" : "machines leave some bytes once");
        for(int k : prog) vh::count(std::string("op:") + ops[k].name);
        vh::distinct(vh::mix(vh::hash(text), kind + seed));
    });
    auto one_by_one = [&](const char* part, long base, const Single* table, size_t NS, long cases) {
        vh::run_cases(part, base, cases, [&](vh::Rng& r, long i) {
            new_ledger();
            int kind = i % 4;
            auto& op = table[i / 4 % NS];
            uint64_t seed = r.next();
            vh::op("%s: %s", kinds[kind], op.name);
            Worker w;
            {
                Machine m(kind);
                Ctx c;
                c.vm = m.vm;
                c.e = m.env();
                c.w = &w;
                c.fake = kind == 3;
                c.baron = m.baron.get();
                c.fj = m.baron ? (FakeJni::Jvm*)m.baron.get() : m.fake.get();
                c.init(kind == 0 || kind == 2);
                if(m.baron) {
                    m.baron->denyMethod("denied", "", "");
                    m.baron->denyField("denied", "", "");
                    m.baron->denyMethod("", "", "c23/NoCtor");
                    m.baron->denyField("", "", "c23/NoCtor");
                }
                auto env = c.env;
                Refs1 refs;
                refs.reserve(64);
                ledger()->state.reserve(20000);
                size_t living = 0, at[4] = { 0, 0, 0, 0 };
                for(int phase = 0; phase < 4; ++phase) {
                    for(int it = 0; it < 200; ++it) {
                        vh::Rng q { seed };
                        refs.clear();
                        op.op(c, env, q, refs);
                        MUST(!env->ExceptionCheck(), "exception");
                        while(refs.size()) { auto k = q.below(refs.size()); env->DeleteLocalRef(refs[k]); refs.erase(refs.begin() + k); }
                        size_t now = ledger()->living();
                        if(phase == 0 && it == 1) living = now;
                        if(phase || it > 1) REQ(now == living, "C23:objects", "%zu objects live after repetition %d, %zu after the first ones (%s)", now, it, living, op.name);
                    }
                    at[phase] = bytes();
                }
                // 200 repetitions which keep one reference each take 3200 bytes, doubling or not
                REQ((long)at[3] - (long)at[1] < 400, "C23:growth", "four hundred repetitions grow the heap by %ld bytes although every reference was deleted (%s)", (long)at[3] - (long)at[1], op.name);
                vh::count("repetitions without a frame", 800);
                vh::count(std::string("single:") + op.name);
            }
            check_ledger("C23:twice");
            REQ(ledger()->living() == 0, "C23:survivors", "%zu objects survive their machine", ledger()->living());
            vh::distinct(vh::mix(i, seed));
        });
    };
    const size_t NS = sizeof singles / sizeof *singles, NF = sizeof fresh / sizeof *fresh;
    one_by_one("references released one by one", 1000000, singles, NS, T ? 4000 : 4 * NS);
    one_by_one("ever new names and values", 1100000, fresh, NF, T ? 2000 : 8 * NF);
    return vh::finish();
}
