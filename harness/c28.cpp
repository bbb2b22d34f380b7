// C28: null references, classes, strings, arrays, objects and identifiers: defaults, and no effect on anything.
#include "jh.h"
#include "prim.h"
#include <fake-jni/fake-jni.h>
#include <jnivm/bytebuffer.h>
#include <jnivm/method.h>
#include <jnivm/wrap.h>
using namespace jh;
using namespace jnivm;

namespace {
    struct MyBaron : Baron::Jvm { using Baron::Jvm::Jvm; VM* vm() { return this; } };
    struct MyFake : FakeJni::Jvm { using FakeJni::Jvm::Jvm; VM* vm() { return this; } };
    struct Ob : Tracked {
        jint number = 7;
        std::shared_ptr<Object> held;
        std::shared_ptr<String> text;
        int ran = 0;
        jint take(ENV*, Ob& o) { ++calls(); return o.number; }
        static int& calls() { static thread_local int n; return n; }
    };
    // What a hook saw of its reference arguments: 1 for null
    thread_local std::string seen;
    template<class T> char nul(const std::shared_ptr<T>& p) { return p ? 'o' : '0'; }
    template<class T> char nul(T* p) { return p ? 'o' : '0'; }
    char nul(Ob&) { return 'o'; }
    void hook_all(ENV* e, Class* c) {
        c->Hook(e, "number", &Ob::number);
        c->Hook(e, "held", &Ob::held);
        c->Hook(e, "text", &Ob::text);
        c->HookInstanceFunction(e, "takeRef", &Ob::take);
        // 0-5: everything may be null, 6-9: some by value or reference
        auto H = [&](const char* n, auto f) { c->Hook(e, n, std::move(f)); };
        auto I = [&](const char* n, auto f) { c->HookInstanceFunction(e, n, std::move(f)); };
#define NOTE ++Ob::calls(); seen = std::string()
        H("s0", [](ENV*, std::shared_ptr<Ob> a) -> jint { NOTE + nul(a); return 1; });
        H("s1", [](ENV*, jint i, std::shared_ptr<String> a, std::shared_ptr<Object> b) -> jlong { NOTE + nul(a) + nul(b); return i; });
        H("s2", [](ENV*, Class*, Ob* a, jobject b, std::shared_ptr<Array<jint>> c) -> jdouble { NOTE + nul(a) + nul(b) + nul(c); return 1.5; });
        H("s3", [](ENV*, std::shared_ptr<Class> a, std::shared_ptr<Array<Ob>> b, jint, std::shared_ptr<Throwable> d) -> std::shared_ptr<Object> { NOTE + nul(a) + nul(b) + nul(d); return nullptr; });
        I("i0", [](ENV*, Object*, std::shared_ptr<Ob> a) -> jint { NOTE + nul(a); return 1; });
        I("i1", [](ENV*, Ob*, jint, Ob* a, std::shared_ptr<String> b) -> jboolean { NOTE + nul(a) + nul(b); return 1; });
        // these need the object itself
        H("v0", [](ENV*, Ob& a) -> jint { NOTE + nul(a); return 1; });
        H("v1", [](ENV*, jint, Ob a, std::shared_ptr<String> b) -> jlong { NOTE + nul(a) + nul(b); return 5; });
        H("v2", [](ENV*, std::shared_ptr<Object> a, Ob& b, Ob& c) -> std::shared_ptr<Object> { NOTE + nul(a) + nul(b) + nul(c); return nullptr; });
        I("w0", [](ENV*, Ob*, Ob& a) -> jdouble { NOTE + nul(a); return 1; });
        I("w1", [](ENV*, Ob*, jdouble, std::shared_ptr<Ob> a, Ob b) { NOTE + nul(a) + nul(b); });
    }
    struct Hooked { const char* name; bool st; const char* args; const char* ret; }; // args: I D L(any reference), V (by value or reference)
    const std::vector<Hooked> hooked { { "s0", true, "O", "I" }, { "s1", true, "ISo", "J" }, { "s2", true, "Ooi", "D" }, { "s3", true, "CAIT", "Ljava/lang/Object;" }, { "i0", false, "O", "I" }, { "i1", false, "IOS", "Z" },
        { "v0", true, "V", "I" }, { "v1", true, "IVS", "J" }, { "v2", true, "oVV", "Ljava/lang/Object;" }, { "w0", false, "V", "D" }, { "w1", false, "DOV", "V" }, { "takeRef", false, "V", "I" } };
    jlong callV(JNIEnv* e, char ret, bool st, jobject o, jclass c, jmethodID m, int form, jvalue* v, int n) {
        jlong x = 0;
        auto f = e->functions;
        // variadic calls with references and ints only (the values are the same registers)
#define DO(N, R) { R r = st ? form == 0 ? f->CallStatic##N##MethodA(e, c, m, v) : f->CallStatic##N##Method(e, c, m, v[0], v[1], v[2], v[3]) : form == 0 ? f->Call##N##MethodA(e, o, m, v) : form == 1 ? f->Call##N##Method(e, o, m, v[0], v[1], v[2], v[3]) : f->CallNonvirtual##N##MethodA(e, o, c, m, v); memcpy(&x, &r, sizeof r); break; }
        switch(ret) {
        case 'Z': DO(Boolean, jboolean)
        case 'I': DO(Int, jint)
        case 'J': DO(Long, jlong)
        case 'D': DO(Double, jdouble)
        case 'L': DO(Object, jobject)
        default:
            if(st) f->CallStaticVoidMethodA(e, c, m, v); else f->CallVoidMethodA(e, o, m, v);
        }
        return x;
    }

    // an object of any kind
    std::shared_ptr<Object> some(ENV* e, vh::Rng& r) {
        auto plain = [&](const char* name) { auto o = std::make_shared<Object>(); o->clazz = e->GetClass(name); return o; };
        switch(r.below(8)) {
        case 0: return plain("java/lang/Object");
        case 1: return plain("c28/Plain");
        case 2: return plain("Plain$Inner");
        case 3: return std::make_shared<String>("text");
        case 4: { auto o = std::make_shared<Throwable>(); o->clazz = e->GetClass("java/lang/Throwable"); return o; }
        case 5: return e->GetClass(r.chance(1, 2) ? "c28/Plain" : "java/lang/Class");
        case 6: { auto o = deref(e, e->GetJNIEnv()->NewIntArray(r.below(4))); return o; }
        default: { auto c = klass(e, e->GetClass("c28/Plain")); return deref(e, e->GetJNIEnv()->NewObjectArray(r.below(4), (jclass)c, nullptr)); }
        }
    }

    struct World {
        VM* vm;
        ENV* e;
        JNIEnv* env;
        vh::Rng& r;
        std::shared_ptr<Class> cls;
        jclass jc; // global
        std::vector<std::shared_ptr<Ob>> objs; // held by C++
        std::vector<std::shared_ptr<Class>> classes; // of the objects
        std::vector<std::pair<jobject, Object*>> refs; // local, global and weak references and what they denote
        std::vector<jobject> globals;
        std::vector<jweak> weaks;
        std::shared_ptr<Throwable> pending;
        jmethodID smid, mid;
        jfieldID fnumber, fheld, ftext;
        std::vector<int> lonely; // objects only references hold

        std::string print() {
            std::string s;
            size_t n = 0, f = 0;
            for(auto& l : e->localframe) { n += l.size(); ++f; }
            s += fmt("%zu local references in %zu frames, ", n, f);
            s += fmt("%zu global references, ", vm->globals.size());
            size_t m = 0, fs = 0, nat = 0;
            for(auto& c : vm->classes) { m += c.second->methods.size(); fs += c.second->fields.size(); nat += c.second->natives.size(); }
            s += fmt("%zu classes with %zu methods, %zu fields and %zu natives, ", vm->classes.size(), m, fs, nat);
            s += fmt("%zu objects, ", ledger()->living());
            for(auto& o : objs) s += fmt("%d%p%p ", o->number, (void*)o->held.get(), (void*)o->text.get());
            s += fmt("exception %p", (void*)e->current_exception.get());
            return s;
        }
        void denotes(const char* what) {
            for(auto& x : refs) REQ(deref(e, x.first).get() == x.second, "C28:reference", "%s: a reference denotes something else", what);
        }
        template<class F> void quiet(const char* what, F f) {
            vh::op("%s", what);
            auto a = print();
            f();
            auto b = print();
            REQ(a == b, "C28:effect", "%s: before: %s, after: %s", what, a.c_str(), b.c_str());
            if(r.chance(1, 4)) denotes(what);
            vh::count(fmt("op:%s", what));
            if(e->current_exception) vh::count("beside a pending exception");
        }
    };
#define NZ(expr) REQ(!(expr), "C28:result", "not null or zero")
    using Op = std::pair<const char*, std::function<void(World&)>>;
    // allowed while an exception is pending
    const std::vector<Op> releases {
        { "DeleteLocalRef", [](World& w) { w.env->DeleteLocalRef(nullptr); } },
        { "DeleteGlobalRef", [](World& w) { w.env->DeleteGlobalRef(nullptr); } },
        { "DeleteWeakGlobalRef", [](World& w) { w.env->DeleteWeakGlobalRef(nullptr); } },
        { "PushLocalFrame, PopLocalFrame", [](World& w) { w.env->PushLocalFrame(w.r.below(9)); NZ(w.env->PopLocalFrame(nullptr)); } },
        { "ReleaseStringUTFChars", [](World& w) { w.env->ReleaseStringUTFChars(nullptr, ""); } },
        { "ReleaseStringChars", [](World& w) { w.env->ReleaseStringChars(nullptr, nullptr); } },
    };
    const std::vector<Op> ops {
        { "NewLocalRef", [](World& w) { NZ(w.env->NewLocalRef(nullptr)); } },
        { "NewGlobalRef", [](World& w) { NZ(w.env->NewGlobalRef(nullptr)); } },
        { "NewWeakGlobalRef", [](World& w) { NZ(w.env->NewWeakGlobalRef(nullptr)); } },
        { "IsSameObject", [](World& w) {
            REQ(w.env->IsSameObject(nullptr, nullptr), "C28:result", "null is null");
            auto x = w.r.pick(w.refs).first;
            NZ(w.env->IsSameObject(nullptr, x));
            NZ(w.env->IsSameObject(x, nullptr));
        } },
        { "GetObjectRefType", [](World& w) { REQ(w.env->GetObjectRefType(nullptr) == JNIInvalidRefType, "C28:result", "kind"); } },
        { "IsInstanceOf of null", [](World& w) { NZ(w.env->IsInstanceOf(nullptr, w.jc)); NZ(w.env->IsInstanceOf(nullptr, nullptr)); } },
        { "IsInstanceOf null class", [](World& w) { NZ(w.env->IsInstanceOf(w.r.pick(w.refs).first, nullptr)); } },
        { "IsAssignableFrom", [](World& w) { NZ(w.env->IsAssignableFrom(w.jc, nullptr));
            auto c = w.r.pick(w.classes);
            w.env->PushLocalFrame(4);
            auto j = klass(w.e, c);
            if(j) NZ(w.env->IsAssignableFrom((jclass)j, nullptr));
            w.env->PopLocalFrame(nullptr);
        } },
        { "GetStringLength", [](World& w) { NZ(w.env->GetStringLength(nullptr)); } },
        { "GetStringUTFLength", [](World& w) { NZ(w.env->GetStringUTFLength(nullptr)); } },
        { "GetStringChars", [](World& w) {
            bool crit = w.r.chance(1, 2);
            jboolean copy = 2;
            auto p = crit ? w.env->GetStringCritical(nullptr, w.r.chance(1, 2) ? &copy : nullptr) : w.env->GetStringChars(nullptr, w.r.chance(1, 2) ? &copy : nullptr);
            REQ(p && !*p, "C28:result", "characters of null");
            crit ? w.env->ReleaseStringCritical(nullptr, p) : w.env->ReleaseStringChars(nullptr, p);
        } },
        { "GetStringUTFChars", [](World& w) {
            jboolean copy = 2;
            auto p = w.env->GetStringUTFChars(nullptr, w.r.chance(1, 2) ? &copy : nullptr);
            REQ(p && !*p, "C28:result", "characters of null");
            w.env->ReleaseStringUTFChars(nullptr, p);
        } },
        { "NewStringUTF", [](World& w) {
            auto s = w.env->NewStringUTF(nullptr);
            REQ(s && w.env->GetStringLength(s) == 0 && w.env->GetStringUTFLength(s) == 0, "C28:result", "not an empty string");
            w.env->DeleteLocalRef(s);
        } },
        { "NewString", [](World& w) {
            auto s = w.env->NewString(nullptr, 0);
            REQ(s && w.env->GetStringLength(s) == 0, "C28:result", "not an empty string");
            w.env->DeleteLocalRef(s);
        } },
        { "GetArrayLength", [](World& w) { NZ(w.env->GetArrayLength(nullptr)); } },
        { "GetArrayElements", [](World& w) {
            jboolean copy = 2;
#define X(N, T, m, d) { auto p = w.env->Get##N##ArrayElements(nullptr, w.r.chance(1, 2) ? &copy : nullptr); NZ(p); w.env->Release##N##ArrayElements(nullptr, p, w.r.below(3)); }
            PRIMS(X)
#undef X
        } },
        { "GetPrimitiveArrayCritical", [](World& w) { auto p = w.env->GetPrimitiveArrayCritical(nullptr, nullptr); NZ(p); w.env->ReleasePrimitiveArrayCritical(nullptr, p, 0); } },
        { "ToReflectedMethod", [](World& w) {
            NZ(w.env->ToReflectedMethod(nullptr, w.mid, false)); NZ(w.env->ToReflectedMethod(nullptr, w.smid, true));
            NZ(w.env->ToReflectedMethod(w.jc, nullptr, w.r.below(2))); NZ(w.env->ToReflectedMethod(nullptr, nullptr, w.r.below(2)));
        } },
        { "ToReflectedField", [](World& w) { NZ(w.env->ToReflectedField(nullptr, w.fnumber, false)); NZ(w.env->ToReflectedField(w.jc, nullptr, w.r.below(2))); NZ(w.env->ToReflectedField(nullptr, nullptr, w.r.below(2))); } },
        { "FromReflectedMethod", [](World& w) { NZ(w.env->FromReflectedMethod(nullptr)); } },
        { "FromReflectedField", [](World& w) { NZ(w.env->FromReflectedField(nullptr)); } },
        { "RegisterNatives", [](World& w) {
            JNINativeMethod m[] = { { (char*)"nat", (char*)"()V", (void*)1 }, { (char*)"other", (char*)"(I)I", (void*)2 } };
            w.env->RegisterNatives(nullptr, m, w.r.below(3));
            w.env->RegisterNatives(w.jc, nullptr, 0);
        } },
        { "UnregisterNatives", [](World& w) { w.env->UnregisterNatives(nullptr); } },
        { "GetJavaVM", [](World& w) { NZ(w.env->GetJavaVM(nullptr)); } },
        { "ExceptionOccurred", [](World& w) { NZ(w.env->ExceptionOccurred()); w.env->ExceptionClear(); } },
        { "NewObjectArray", [](World& w) {
            jsize n = w.r.below(20);
            auto a = w.env->NewObjectArray(n, w.jc, nullptr);
            REQ(a && w.env->GetArrayLength(a) == n, "C28:result", "array");
            for(jsize i = 0; i < n; ++i) NZ(w.env->GetObjectArrayElement(a, i));
            w.env->DeleteLocalRef(a);
        } },
        { "calls through a null identifier", [](World& w) {
            auto o = w.r.pick(w.refs).first;
            jvalue v[4] = {};
#define X(N, T, m, d) NZ(w.env->Call##N##MethodA(o, nullptr, v)); NZ(w.env->Call##N##Method(o, nullptr, 1, 2)); NZ(w.env->CallStatic##N##MethodA(w.jc, nullptr, v)); NZ(w.env->CallStatic##N##Method(w.jc, nullptr)); \
            NZ(w.env->CallNonvirtual##N##MethodA(o, w.jc, nullptr, v)); NZ(w.env->CallNonvirtual##N##Method(o, w.jc, nullptr, 7)); NZ(w.env->Call##N##MethodA(nullptr, nullptr, v)); NZ(w.env->CallStatic##N##MethodA(nullptr, nullptr, v));
            PRIMS(X)
            X(Object, jobject, l, "")
#undef X
            w.env->CallVoidMethod(o, nullptr); w.env->CallStaticVoidMethod(w.jc, nullptr, o); w.env->CallNonvirtualVoidMethod(o, w.jc, nullptr);
        } },
        { "unimplemented methods of null", [](World& w) {
            jvalue v[4] = {};
#define X(N, T, m, d) NZ(w.env->Call##N##MethodA(nullptr, w.mid, v)); NZ(w.env->Call##N##Method(nullptr, w.mid)); NZ(w.env->CallStatic##N##MethodA(nullptr, w.smid, v)); NZ(w.env->CallStatic##N##Method(nullptr, w.smid));
            if(w.mid && w.smid) { PRIMS(X) }
#undef X
        } },
        { "reads through a null identifier", [](World& w) {
            auto o = w.r.chance(1, 3) ? nullptr : w.r.pick(w.refs).first;
            auto c = w.r.chance(1, 3) ? nullptr : w.jc;
#define X(N, T, m, d) NZ(w.env->Get##N##Field(o, nullptr)); NZ(w.env->GetStatic##N##Field(c, nullptr));
            PRIMS(X)
            X(Object, jobject, l, "")
#undef X
        } },
        { "writes through a null identifier", [](World& w) {
            auto o = w.r.chance(1, 3) ? nullptr : w.r.pick(w.refs).first;
            auto c = w.r.chance(1, 3) ? nullptr : w.jc;
#define X(N, T, m, d) w.env->Set##N##Field(o, nullptr, (T)1); w.env->SetStatic##N##Field(c, nullptr, (T)1);
            PRIMS(X)
#undef X
            w.env->SetObjectField(o, nullptr, o); w.env->SetStaticObjectField(c, nullptr, o);
        } },
        { "writes to null", [](World& w) {
            w.env->SetIntField(nullptr, w.fnumber, (jint)w.r.next());
            w.env->SetObjectField(nullptr, w.fheld, w.r.pick(w.refs).first);
            w.env->SetObjectField(nullptr, w.ftext, nullptr);
        } },
        { "empty method handle", [](World& w) {
            MethodProxy p(nullptr, nullptr, nullptr);
            NZ((bool)p);
            NZ((Method*)p);
            bool threw = false;
            try { p->invoke(*w.env, w.cls.get()); } catch(const std::exception&) { threw = true; }
            REQ(threw, "C28:result", "nothing invoked, and no exception");
            threw = false;
            try { p->invoke(*w.env, (Object*)w.objs[0].get(), 5); } catch(const std::exception&) { threw = true; }
            REQ(threw, "C28:result", "nothing invoked, and no exception");
        } },
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C28");
    bool T = vh::S().thorough;
    if(!freopen("/dev/null", "w", stdout)) return 3;
    vh::run_cases("nulls", 0, T ? 30000 : 2500, [&](vh::Rng& r, long i) {
        new_ledger();
        std::unique_ptr<VM> plain;
        std::unique_ptr<MyBaron> baron;
        std::unique_ptr<MyFake> fake;
        VM* vm;
        switch(i % 4) {
        case 0: plain.reset(new VM(false, false)); vm = plain.get(); break;
        case 1: plain.reset(new VM(false, true)); vm = plain.get(); break;
        case 2: baron.reset(new MyBaron()); vm = baron->vm(); break;
        default: fake.reset(new MyFake()); vm = fake->vm(); break;
        }
        static const char* mn[] = { "fabricating", "null returning", "Baron", "FakeJni" };
        vh::count(fmt("machine:%s", mn[i % 4]));
        vh::op("%s machine", mn[i % 4]);
        auto e = vm->GetEnv().get();
        auto env = e->GetJNIEnv();
        World w { vm, e, env, r };
        auto name = std::string(r.chance(1, 2) ? "c28/Ob" : "Ob");
        w.cls = e->GetClass<Ob>(name.c_str());
        hook_all(e, w.cls.get());
        e->GetClass("java/lang/reflect/Method"); e->GetClass("java/lang/reflect/Field"); e->GetClass("java/lang/Object");
        env->PushLocalFrame(16);
        w.jc = (jclass)env->NewGlobalRef((jobject)klass(e, w.cls));
        env->PopLocalFrame(nullptr);
        w.smid = env->GetStaticMethodID(w.jc, "nobody", "()V");
        w.mid = env->GetMethodID(w.jc, "nobody", "()V");
        w.fnumber = env->GetFieldID(w.jc, "number", "I");
        w.fheld = env->GetFieldID(w.jc, "held", "Ljava/lang/Object;");
        w.ftext = env->GetFieldID(w.jc, "text", "Ljava/lang/String;");
        REQ(w.fnumber && w.fheld && w.ftext, "C28:setup", "fields");
        // what an operation might fabricate is known before
        e->GetClass(("[L" + name + ";").c_str());
        for(int k = 1 + r.below(4); k-- > 0;) {
            auto o = std::make_shared<Ob>();
            o->number = r.below(1000);
            w.objs.push_back(o);
        }
        for(int d = r.below(3); d-- > 0;) env->PushLocalFrame(r.below(5));
        for(int k = 2 + r.below(8); k-- > 0;) {
            std::shared_ptr<Object> o = r.chance(1, 3) ? std::shared_ptr<Object>(r.pick(w.objs)) : r.chance(1, 3) ? std::make_shared<Ob>() : some(e, r);
            w.classes.push_back(o->getClassInternal(e));
            auto l = local(e, o);
            w.refs.push_back({ l, o.get() });
            if(r.chance(1, 2)) { w.globals.push_back(env->NewGlobalRef(l)); w.refs.push_back({ w.globals.back(), o.get() }); }
            if(r.chance(1, 2)) { w.weaks.push_back(env->NewWeakGlobalRef(l)); w.refs.push_back({ (jobject)w.weaks.back(), o.get() }); }
            if(!w.globals.empty() && r.chance(1, 4)) env->DeleteLocalRef(l), w.refs.clear(), w.refs.push_back({ w.globals.back(), deref(e, w.globals.back()).get() });
        }
        uint64_t hist = 0;
        for(int s = 20 + r.below(30); s-- > 0;) {
            switch(r.below(10)) {
            case 0: { // a pending exception, which release operations leave alone
                env->ThrowNew(w.jc, r.chance(1, 3) ? nullptr : "text");
                REQ(env->ExceptionCheck(), "C28:throw", "ThrowNew");
                for(int k = 1 + r.below(5); k-- > 0;) {
                    auto& op = releases[r.below(releases.size())];
                    w.quiet(op.first, [&] { op.second(w); });
                }
                // its message
                std::string msg;
                try { std::rethrow_exception(e->current_exception->except); } catch(const std::exception& ex) { msg = ex.what(); }
                REQ(msg == "" || msg == "text", "C28:throw", "message %s", msg.c_str());
                env->ExceptionClear();
                break;
            }
            case 1: { auto& op = releases[r.below(releases.size())]; hist = vh::mix(hist, vh::hash(op.first)); w.quiet(op.first, [&] { op.second(w); }); break; }
            case 2: case 3: { // null arguments of registered functions
                auto& h = r.pick(const_cast<std::vector<Hooked>&>(hooked));
                env->PushLocalFrame(8);
                std::string d = "(", want;
                jvalue v[4];
                memset(v, 0, sizeof v);
                bool bad = false;
                int n = 0, refs = 0;
                for(auto a = h.args; *a; ++a, ++n) {
                    d += *a == 'I' ? "I" : *a == 'D' ? "D" : *a == 'S' ? "Ljava/lang/String;" : *a == 'o' ? "Ljava/lang/Object;" : *a == 'i' ? "[I" : *a == 'C' ? "Ljava/lang/Class;" : *a == 'A' ? "[L" + name + ";" : *a == 'T' ? "Ljava/lang/Throwable;" : "L" + name + ";";
                    if(*a == 'I') { v[n].i = r.below(1000); continue; }
                    if(*a == 'D') { v[n].d = 2.5; continue; }
                    ++refs;
                    bool null = r.chance(1, 2);
                    want += null ? '0' : 'o';
                    if(null) { bad |= *a == 'V'; continue; }
                    auto ob = local(e, r.pick(w.objs));
                    v[n].l = *a == 'S' ? env->NewStringUTF("x") : *a == 'i' ? env->NewIntArray(1) : *a == 'C' ? (jobject)w.jc : *a == 'A' ? env->NewObjectArray(1, w.jc, nullptr) : *a == 'T' ? local(e, std::make_shared<Throwable>()) : ob;
                }
                d += std::string(")") + h.ret;
                auto id = h.st ? env->GetStaticMethodID(w.jc, h.name, d.c_str()) : env->GetMethodID(w.jc, h.name, d.c_str());
                REQ(id && ((Method*)id)->nativehandle, "C28:setup", "%s%s", h.name, d.c_str());
                auto self = local(e, r.pick(w.objs));
                bool dbl = strchr(h.args, 'D');
                bool member = !strcmp(h.name, "takeRef");
                int form = dbl || h.ret[0] == 'V' ? 0 : r.below(h.st || member ? 2 : 3);
                Ob::calls() = 0;
                seen.clear();
                auto text = fmt("%s%s with %s, form %d", h.name, d.c_str(), want.c_str(), form);
                vh::op("%s", text.c_str());
                auto res = callV(env, h.ret[0], h.st, self, w.jc, id, form, v, n);
                if(bad) {
                    REQ(Ob::calls() == 0, "C28:null as value", "%s: the function ran", text.c_str());
                    REQ(env->ExceptionCheck(), "C28:null as value", "%s: no exception", text.c_str());
                    REQ(h.ret[0] == 'L' || !res, "C28:null as value", "%s: a result", text.c_str());
                    bool proper = false;
                    try { std::rethrow_exception(e->current_exception->except); } catch(const std::exception&) { proper = true; } catch(...) {}
                    REQ(proper, "C28:null as value", "%s: no std::exception", text.c_str());
                    env->ExceptionClear();
                    vh::count("null for a value");
                } else {
                    REQ(Ob::calls() == 1 && !env->ExceptionCheck(), "C28:null argument", "%s: ran %d times", text.c_str(), Ob::calls());
                    if(!member) REQ(seen == want, "C28:null argument", "%s: the function saw %s", text.c_str(), seen.c_str());
                    if(want.find('0') != std::string::npos) vh::count("null arguments");
                }
                hist = vh::mix(hist, vh::hash(text));
                env->PopLocalFrame(nullptr);
                break;
            }
            case 4: { // null values in fields and arrays
                env->PushLocalFrame(8);
                auto& o = r.pick(w.objs);
                auto j = local(e, o);
                bool t = r.chance(1, 2);
                auto value = r.chance(1, 3) ? nullptr : t ? (jobject)env->NewStringUTF("v") : local(e, r.pick(w.objs));
                auto keep = deref(e, value);
                vh::op("field %s = %s", t ? "text" : "held", value ? "object" : "null");
                env->SetObjectField(j, t ? w.ftext : w.fheld, value);
                REQ((t ? std::shared_ptr<Object>(o->text) : o->held) == keep, "C28:field", "%s", t ? "text" : "held");
                auto back = env->GetObjectField(j, t ? w.ftext : w.fheld);
                REQ(env->IsSameObject(back, value) && !back == !value, "C28:field", "read back");
                if(!t && keep == std::shared_ptr<Object>(o)) o->held = nullptr; // no cycles
                if(!t) o->held = nullptr;
                env->PopLocalFrame(nullptr);
                vh::count(value ? "fields set" : "fields set to null");
                break;
            }
            default: { auto& op = ops[r.below(ops.size())]; hist = vh::mix(hist, vh::hash(op.first)); w.quiet(op.first, [&] { op.second(w); }); }
            }
        }
        w.denotes("end");
        vh::distinct(hist);
        for(auto g : w.globals) env->DeleteGlobalRef(g);
        for(auto g : w.weaks) env->DeleteWeakGlobalRef(g);
        env->DeleteGlobalRef(w.jc);
    });
    return vh::finish();
}
