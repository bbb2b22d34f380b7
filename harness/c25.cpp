// C25: members nobody implemented. Calls, accesses and constructions through fabricated identifiers, write-only and
// read-only fields, and null identifiers, in every form; built with and without objects for reference results.
#include "jh.h"
#include "prim.h"
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
using namespace jh;
using namespace jnivm;
#ifdef JNI_RETURN_NON_ZERO
#define OBJECTS true
#else
#define OBJECTS false
#endif

namespace {
    struct MyFake : FakeJni::Jvm { VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    // registered by each machine; T::made counts default constructions
    template<class Self> struct Made { static long made; Track t; Made() { ++made; } };
    template<class Self> long Made<Self>::made = 0;
    struct WithCtor : Object, Made<WithCtor> { jint v = 41; };
    struct Derived : Extends<WithCtor>, Made<Derived> {};
    struct NoCtor : Extends<Object> { explicit NoCtor(int) {} };
    struct NoCtorDerived : Extends<WithCtor> { explicit NoCtorDerived(int) {} };
    struct LateCtor : Extends<Object>, Made<LateCtor> {};
    struct LateNoCtor : Object { explicit LateNoCtor(int) {} };

    struct GuardVa { va_list& l; ~GuardVa() { va_end(l); } };
    // The nine call forms and four accesses of a result type
    template<class J> struct Forms;
#define FORMS(N, J) \
    static J vi(JNIEnv* e, jobject o, jmethodID id, ...) { va_list l; va_start(l, id); GuardVa g{l}; return e->Call##N##MethodV(o, id, l); } \
    static J vs(JNIEnv* e, jclass o, jmethodID id, ...) { va_list l; va_start(l, id); GuardVa g{l}; return e->CallStatic##N##MethodV(o, id, l); } \
    static J vn(JNIEnv* e, jobject o, jclass c, jmethodID id, ...) { va_list l; va_start(l, id); GuardVa g{l}; return e->CallNonvirtual##N##MethodV(o, c, id, l); } \
    template<class... A> static J call(JNIEnv* e, int form, jobject o, jclass c, jmethodID id, A... a) { \
        std::vector<jvalue> v = { jv(a)... }; \
        switch(form) { \
        case 0: return e->Call##N##Method(o, id, a...); \
        case 1: return vi(e, o, id, a...); \
        case 2: return e->Call##N##MethodA(o, id, v.data()); \
        case 3: return e->CallStatic##N##Method(c, id, a...); \
        case 4: return vs(e, c, id, a...); \
        case 5: return e->CallStatic##N##MethodA(c, id, v.data()); \
        case 6: return e->CallNonvirtual##N##Method(o, c, id, a...); \
        case 7: return vn(e, o, c, id, a...); \
        default: return e->CallNonvirtual##N##MethodA(o, c, id, v.data()); \
        } \
    }
    jvalue jv(jobject o) { jvalue v; v.l = o; return v; }
#define X(N, J, z, d) jvalue jv(J x) { jvalue v; v.z = x; return v; }
    PRIMS(X)
#undef X
#define X(N, J, z, d) template<> struct Forms<J> { FORMS(N, J) \
        static J get(JNIEnv* e, jobject o, jclass c, jfieldID f, bool st) { return st ? e->GetStatic##N##Field(c, f) : e->Get##N##Field(o, f); } \
        static void set(JNIEnv* e, jobject o, jclass c, jfieldID f, bool st, J v) { if(st) e->SetStatic##N##Field(c, f, v); else e->Set##N##Field(o, f, v); } };
    PRIMS(X)
    X(Object, jobject, l, "")
#undef X
    template<> struct Forms<void> { FORMS(Void, void) };
    const char* form_names[] = { "Call..", "Call..V", "Call..A", "CallStatic..", "CallStatic..V", "CallStatic..A", "CallNonvirtual..", "CallNonvirtual..V", "CallNonvirtual..A" };

    const char* params[] = { "", "I", "Ljava/lang/String;D", "ZBCSIJFD[ILjava/lang/Object;", "JJJJJJJJJJJJ", "[[DLc25/Unknown;", "FFFFFFFFFFFF[[Lc25/U$V;Z" };
    const int NPAR = sizeof params / sizeof *params;
    template<class F> auto with_args(int p, jobject o, F f) {
        switch(p) {
        case 0: return f();
        case 1: return f((jint)7);
        case 2: return f(o, (jdouble)1.5);
        case 3: return f((jboolean)1, (jbyte)-3, (jchar)0xffff, (jshort)-4, (jint)5, (jlong)6, (jfloat)7, (jdouble)8, (jobject) nullptr, o);
        case 4: return f((jlong)1, (jlong)2, (jlong)3, (jlong)4, (jlong)5, (jlong)6, (jlong)7, (jlong)8, (jlong)9, (jlong)10, (jlong)11, (jlong)12);
        case 5: return f((jobject) nullptr, o);
        default: return f((jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, (jfloat)1, o, (jboolean)1);
        }
    }
    template<class J> uint64_t bits(J v) { uint64_t b = 0; memcpy(&b, &v, sizeof v); return b; }

    enum Sort { Unknown, HasCtor, HasNone };
    struct Named { std::string name; Sort sort; const std::type_info* type; long* made; };

    struct World {
        vh::Rng& r;
        std::unique_ptr<VM> plain;
        std::unique_ptr<MyBaron> baron;
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<FakeJni::LocalFrame> frame;
        VM* vm;
        ENV* e;
        JNIEnv* env;
        bool fab;
        std::vector<Named> known; // registered now
        std::vector<std::string> unknown, owners;
        long members = 0;
        uint64_t hist;
        Stretch stretch;

        World(vh::Rng& r, int kind) : r(r), hist(kind), stretch(r) {
            switch(kind) {
            case 0: plain.reset(new VM); vm = plain.get(); break;
            case 1: plain.reset(new VM(false, true)); vm = plain.get(); break;
            case 2: baron.reset(new MyBaron); vm = baron->vm(); break;
            default: fake.reset(new MyFake); vm = fake->vm(); frame.reset(new FakeJni::LocalFrame(*fake));
            }
            fab = kind == 0 || kind == 2;
            e = frame ? ENV::FromJNIEnv(&frame->getJniEnv()) : vm->GetEnv().get();
            env = e->GetJNIEnv();
            add<Object>("java/lang/Object", nullptr);
            add<Class>("java/lang/Class", nullptr);
            add<String>("java/lang/String", nullptr);
            add<Throwable>("java/lang/Throwable", nullptr);
            add<Method>("java/lang/reflect/Method", nullptr);
            add<Field>("java/lang/reflect/Field", nullptr);
            add<ByteBuffer>("java/nio/ByteBuffer", nullptr);
            e->GetClass<WithCtor>("c25/WithCtor");
            e->GetClass<Derived>("c25/inner/Derived$Nested");
            e->GetClass<NoCtor>("c25/NoCtor");
            e->GetClass<NoCtorDerived>("NoPackage");
            add<WithCtor>("c25/WithCtor", &WithCtor::Made<WithCtor>::made);
            add<Derived>("c25/inner/Derived$Nested", &Derived::Made<Derived>::made);
            add<NoCtor>("c25/NoCtor", nullptr);
            add<NoCtorDerived>("NoPackage", nullptr);
            unknown = { "c25/LateCtor", "c25/LateNoCtor", "c25/Unknown", "c25/U", "c25/U$V", "c25/WithCtor$Inner", "Plain", "a/very/deep/package/of/a/Class", "c25/Hooked", "c25/inner/Derived", stretch("c25/Long"), stretch("c25/Long$Inner") };
            // functions, but no C++ class
            e->GetClass("c25/Hooked")->Hook(e, "other", []() -> jint { return 5; });
            owners = { "c25/WithCtor", "c25/inner/Derived$Nested", "c25/NoCtor", "c25/Unknown", "java/lang/String", "c25/Hooked", "NoPackage" };
            e->GetClass("c25/WithCtor")->Hook(e, "seven", [](jint) -> jint { return 7; });
        }
        ~World() { frame.reset(); }
        template<class T> void add(const char* name, long* made) {
            known.push_back({ name, std::is_default_constructible<T>::value ? HasCtor : HasNone, &typeid(T), made });
        }
        std::string some_class() {
            if(r.chance(1, 2)) return r.pick(known).name;
            if(r.chance(1, 3)) unknown.push_back(stretch(fmt("c25/dyn%ld/C%ld", (long)r.below(5), (long)r.below(1000)) + (r.chance(1, 3) ? "$In" : "")));
            return r.pick(unknown);
        }
        std::string some_type() {
            static const char prims[] = "ZBCSIJFD";
            int k = r.below(20);
            if(k < 8) return std::string(1, prims[k]);
            std::string t;
            if(k < 13) t = std::string(1 + (r.chance(1, 3) ? r.below(4) : r.chance(1, 20) ? r.below(250) : 0), '[');
            if(t.size() && r.chance(1, 2)) return t + prims[r.below(8)];
            return t + "L" + some_class() + ";";
        }
        void late() {
            if(unknown[0] == "c25/LateCtor") {
                vh::op("register c25/LateCtor");
                e->GetClass<LateCtor>("c25/LateCtor");
                add<LateCtor>("c25/LateCtor", &LateCtor::Made<LateCtor>::made);
                unknown.erase(unknown.begin());
            } else if(unknown[0] == "c25/LateNoCtor") {
                vh::op("register c25/LateNoCtor");
                e->GetClass<LateNoCtor>("c25/LateNoCtor");
                add<LateNoCtor>("c25/LateNoCtor", nullptr);
                unknown.erase(unknown.begin());
            }
            vh::count("late registrations");
        }
        jobject receiver(const std::string& owner) {
            if(owner == "c25/WithCtor") return local(e, std::make_shared<WithCtor>());
            if(owner == "c25/inner/Derived$Nested") return local(e, std::make_shared<Derived>());
            if(owner == "c25/NoCtor") return local(e, std::make_shared<NoCtor>(1));
            if(owner == "NoPackage") return local(e, std::make_shared<NoCtorDerived>(1));
            if(owner == "java/lang/String") return env->NewStringUTF("receiver");
            return nullptr;
        }
        long total_made() { return WithCtor::Made<WithCtor>::made + Derived::Made<Derived>::made + LateCtor::Made<LateCtor>::made; }

        // Judges a reference result of a member whose result type is t. before = total_made()
        void judge(jobject res, const std::string& t, long before, long before_of, const std::string& what) {
            REQ(!env->ExceptionCheck(), "C25:exception", "%s: pending exception", what.c_str());
            vh::count("object results");
            if(!OBJECTS) {
                REQ(!res, "C25:null", "%s: not null", what.c_str());
                REQ(total_made() == before, "C25:null", "%s: constructed something", what.c_str());
                return;
            }
            const Named* k = nullptr;
            std::string cls = t[0] == 'L' ? t.substr(1, t.size() - 2) : t;
            for(auto& n : known) if(n.name == cls) k = &n;
            if(t[0] == 'L' && k && k->sort == HasNone) {
                REQ(!res, "C25:null", "%s: %s has no default constructor, but the result is not null", what.c_str(), cls.c_str());
                vh::count("no default constructor");
                return;
            }
            REQ(res, "C25:object", "%s: null", what.c_str());
            REQ(env->GetObjectRefType(res) == JNILocalRefType, "C25:object", "%s: reference type %d", what.c_str(), (int)env->GetObjectRefType(res));
            auto want = env->FindClass(cls.c_str());
            auto got = env->GetObjectClass(res);
            REQ(want && env->IsSameObject(want, got), "C25:class", "%s: the result is a %s", what.c_str(), got ? deref(e, got) ? std::static_pointer_cast<Class>(deref(e, got))->nativeprefix.c_str() : "?" : "null");
            REQ(env->IsInstanceOf(res, want), "C25:class", "%s: not an instance", what.c_str());
            auto o = deref(e, res);
            REQ(o, "C25:object", "%s: no object", what.c_str());
            if(t[0] == '[') {
                REQ(env->GetArrayLength((jarray)res) == 0, "C25:array", "%s: length %d", what.c_str(), (int)env->GetArrayLength((jarray)res));
                switch(t[1]) {
#define X(N, J, z, d) case d[0]: { REQ(std::dynamic_pointer_cast<Array<J>>(o), "C25:array", "%s: not a primitive array", what.c_str()); \
                    auto p = env->Get##N##ArrayElements((J##Array)res, nullptr); env->Release##N##ArrayElements((J##Array)res, p, 0); break; }
                PRIMS(X)
#undef X
                default: REQ(std::dynamic_pointer_cast<Array<Object>>(o), "C25:array", "%s: not an object array", what.c_str());
                }
                vh::count(t[1] == '[' ? "arrays of arrays" : t[1] == 'L' ? "arrays of objects" : "arrays of primitives");
                REQ(total_made() == before, "C25:array", "%s: constructed objects", what.c_str());
            } else if(k) {
                auto& x = *o;
                REQ(typeid(x) == *k->type, "C25:type", "%s: C++ type %s", what.c_str(), typeid(x).name());
                if(k->made) REQ(*k->made == before_of + 1, "C25:type", "%s: %ld default constructions", what.c_str(), *k->made - before_of);
                else REQ(total_made() == before, "C25:type", "%s: constructed other objects", what.c_str());
                vh::count("default constructed");
            } else {
                auto& x = *o;
                REQ(typeid(x) == typeid(Object), "C25:type", "%s: C++ type %s", what.c_str(), typeid(x).name());
                REQ(total_made() == before, "C25:type", "%s: constructed other objects", what.c_str());
                vh::count("dummies");
            }
            // it can be used like any object
            auto g = env->NewGlobalRef(res);
            REQ(g && env->IsSameObject(g, res), "C25:object", "%s: global reference", what.c_str());
            if(r.chance(1, 2)) {
                env->DeleteLocalRef(res);
                REQ(env->GetObjectClass(g) && env->IsSameObject(env->GetObjectClass(g), want), "C25:object", "%s: class through the global reference", what.c_str());
            }
            env->DeleteGlobalRef(g);
        }
        long made_of(const std::string& t) {
            for(auto& n : known) if(t == "L" + n.name + ";" && n.made) return *n.made;
            return 0;
        }
        void clean(const std::string& what) { REQ(!env->ExceptionCheck(), "C25:exception", "%s: pending exception", what.c_str()); }
        template<class J> void prim(J v, const std::string& what) {
            REQ(bits(v) == 0, "C25:zero", "%s: result bits %llx", what.c_str(), (unsigned long long)bits(v));
            clean(what);
            vh::count("primitive results");
        }

        void method() {
            auto owner = r.pick(owners);
            auto cls = env->FindClass(owner.c_str());
            jobject o = receiver(owner);
            int form = r.below(9);
            bool st = form >= 3 && form < 6;
            if(!st && !o) { o = env->NewStringUTF("another object"); } // through an identifier of a class without objects
            std::string t = r.chance(1, 12) ? "V" : some_type();
            int p = r.below(NPAR);
            std::string sig = std::string("(") + params[p] + ")" + t, name = r.chance(1, 8) ? "seven" : stretch(fmt("m%d", (int)r.below(40)));
            jmethodID id = nullptr;
            bool null = !fab || r.chance(1, 12);
            if(!null) {
                if(name == "seven" && sig == "(I)I") return;
                id = st ? env->GetStaticMethodID(cls, name.c_str(), sig.c_str()) : env->GetMethodID(cls, name.c_str(), sig.c_str());
                REQ(id, "C25:setup", "%s.%s%s", owner.c_str(), name.c_str(), sig.c_str());
            } else p = 0; // nobody can tell what the arguments are
            std::string what = fmt("%s of %s%s.%s%s", form_names[form], null ? "a null identifier for " : "", owner.c_str(), name.c_str(), sig.c_str());
            vh::op("%s", what.c_str());
            hist = vh::mix(hist, vh::hash(what));
            if(r.chance(1, 10)) late();
            long before = total_made(), of = made_of(t);
            std::string key;
            jobject arg = o ? o : cls;
            switch(t[0]) {
#define X(N, J, z, d) case d[0]: prim(with_args(p, arg, [&](auto... a) { return Forms<J>::call(env, form, o, cls, id, a...); }), what); break;
            PRIMS(X)
#undef X
            case 'V': with_args(p, arg, [&](auto... a) { Forms<void>::call(env, form, o, cls, id, a...); }); clean(what); vh::count("void calls"); break;
            default: {
                auto res = with_args(p, arg, [&](auto... a) { return Forms<jobject>::call(env, form, o, cls, id, a...); });
                if(null) { REQ(!res, "C25:null id", "%s: a result", what.c_str()); clean(what); }
                else judge(res, t, before, of, what);
            }
            }
            vh::count(null ? "null identifiers" : fmt("form:%s", form_names[form]));
        }
        void constructor() {
            if(!fab) return;
            auto owner = r.chance(1, 2) ? r.pick(owners) : some_class();
            auto cls = env->FindClass(owner.c_str());
            int p = r.below(NPAR), form = r.below(3);
            auto id = env->GetMethodID(cls, "<init>", (std::string("(") + params[p] + ")V").c_str());
            REQ(id, "C25:setup", "constructor of %s", owner.c_str());
            std::string t = "L" + owner + ";", what = fmt("NewObject%s of %s with (%s)", form == 0 ? "" : form == 1 ? "V" : "A", owner.c_str(), params[p]);
            vh::op("%s", what.c_str());
            hist = vh::mix(hist, vh::hash(what));
            long before = total_made(), of = made_of(t);
            struct V { static jobject v(JNIEnv* e, jclass c, jmethodID id, ...) { va_list l; va_start(l, id); GuardVa g{l}; return e->NewObjectV(c, id, l); } };
            auto res = with_args(p, cls, [&](auto... a) {
                std::vector<jvalue> v = { jv(a)... };
                return form == 0 ? env->NewObject(cls, id, a...) : form == 1 ? V::v(env, cls, id, a...) : env->NewObjectA(cls, id, v.data());
            });
            judge(res, t, before, of, what);
            vh::count("constructors");
        }
        template<class J> void access(jobject o, jclass cls, jfieldID f, bool st, bool set, const std::string& t, const std::string& what) {
            J v;
            memset(&v, 0, sizeof v);
            if constexpr(std::is_same<J, jobject>::value) v = cls;
            else { auto x = r.next() | 1; memcpy(&v, &x, sizeof v); if(std::is_same<J, jboolean>::value) v = 1; if(std::is_floating_point<J>::value) v = 1; }
            if(set) { Forms<J>::set(env, o, cls, f, st, v); clean("write to " + what); vh::count("ignored writes"); }
            long before = total_made(), of = made_of(t);
            auto res = Forms<J>::get(env, o, cls, f, st);
            if constexpr(std::is_same<J, jobject>::value) {
                if(!f) { REQ(!res, "C25:null id", "%s: a result", what.c_str()); clean(what); }
                else judge(res, t, before, of, what);
            } else prim(res, what);
        }
        void field() {
            auto owner = r.pick(owners);
            auto cls = env->FindClass(owner.c_str());
            jobject o = receiver(owner);
            bool st = !o || r.chance(1, 2);
            std::string t = some_type(), name = stretch(fmt("f%d", (int)r.below(40)));
            jfieldID f = fab && !r.chance(1, 12) ? st ? env->GetStaticFieldID(cls, name.c_str(), t.c_str()) : env->GetFieldID(cls, name.c_str(), t.c_str()) : nullptr;
            std::string what = fmt("%sfield %s%s.%s %s", st ? "static " : "", f ? "" : "(null) ", owner.c_str(), name.c_str(), t.c_str());
            vh::op("%s", what.c_str());
            hist = vh::mix(hist, vh::hash(what));
            bool set = r.chance(1, 2);
            if(r.chance(1, 10)) late();
            switch(t[0]) {
#define X(N, J, z, d) case d[0]: access<J>(o, cls, f, st, set, t, what); break;
            PRIMS(X)
#undef X
            default: access<jobject>(o, cls, f, st, set, t, what);
            }
            vh::count(f ? st ? "static fields" : "fields" : "null field identifiers");
        }
        // a field of which only one half is implemented
        void half() {
            auto c = e->GetClass("c25/WithCtor");
            auto cls = env->FindClass("c25/WithCtor");
            std::string name = stretch(fmt("h%ld", ++members));
            bool st = r.chance(1, 2), getter = r.chance(1, 2), ref = r.chance(1, 2);
            static jint seen;
            static std::shared_ptr<Object> oseen;
            seen = 0;
            oseen = nullptr;
            vh::op("%s %s field %s of %s", getter ? "read-only" : "write-only", st ? "static" : "instance", name.c_str(), ref ? "objects" : "integers");
            if(!ref) {
                if(getter) st ? c->HookGetterFunction(e, name, [](ENV*, Class*) -> jint { return 91; }) : c->HookInstanceGetterFunction(e, name, [](ENV*, WithCtor*) -> jint { return 91; });
                else st ? c->HookSetterFunction(e, name, [](ENV*, Class*, jint v) { seen = v; }) : c->HookInstanceSetterFunction(e, name, [](ENV*, WithCtor*, jint v) { seen = v; });
            } else {
                if(getter) st ? c->HookGetterFunction(e, name, [](ENV*, Class*) { return std::make_shared<WithCtor>(); }) : c->HookInstanceGetterFunction(e, name, [](ENV*, WithCtor*) { return std::make_shared<WithCtor>(); });
                else st ? c->HookSetterFunction(e, name, [](ENV*, Class*, std::shared_ptr<WithCtor> v) { oseen = v; }) : c->HookInstanceSetterFunction(e, name, [](ENV*, WithCtor*, std::shared_ptr<WithCtor> v) { oseen = v; });
            }
            std::string t = ref ? "Lc25/WithCtor;" : "I", what = "half " + name + " " + t;
            auto f = st ? env->GetStaticFieldID(cls, name.c_str(), t.c_str()) : env->GetFieldID(cls, name.c_str(), t.c_str());
            REQ(f, "C25:half", "%s: no identifier", what.c_str());
            auto o = receiver("c25/WithCtor");
            for(int k = 0; k < 2; ++k) {
                if(ref) {
                    auto v = std::make_shared<WithCtor>();
                    Forms<jobject>::set(env, o, cls, f, st, local(e, v));
                    REQ(oseen == (getter ? nullptr : v), "C25:half", "%s: write", what.c_str());
                    long before = total_made(), of = made_of(t);
                    auto res = Forms<jobject>::get(env, o, cls, f, st);
                    if(getter) REQ(res && total_made() == before + 1, "C25:half", "%s: read", what.c_str());
                    else judge(res, t, before, of, what);
                } else {
                    Forms<jint>::set(env, o, cls, f, st, 5);
                    REQ(seen == (getter ? 0 : 5), "C25:half", "%s: write", what.c_str());
                    auto v = Forms<jint>::get(env, o, cls, f, st);
                    REQ(v == (getter ? 91 : 0), "C25:half", "%s: read %d", what.c_str(), v);
                }
                clean(what);
            }
            oseen = nullptr;
            vh::count(getter ? "read-only fields" : "write-only fields");
        }
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C25");
    bool T = vh::S().thorough;
    if(!freopen("/dev/null", "w", stdout)) return 3; // the tracing build reports every call
    vh::run_cases(OBJECTS ? "default objects" : "null references", 0, T ? 120000 : 8000, [&](vh::Rng& r, long i) {
        new_ledger();
        Worker w; // a thread of its own: one fake-jni environment per thread
        w.run([&] {
            World d(r, i % 8 == 7 ? 3 : i % 8 == 6 ? 1 : i % 2 * 2);
            for(int k = 20 + r.below(60); k-- > 0;) {
                d.env->PushLocalFrame(r.below(8));
                switch(r.below(10)) {
                case 0: case 1: case 2: d.field(); break;
                case 3: d.constructor(); break;
                case 4: if(r.chance(1, 3)) { d.half(); break; } // fall through
                default: d.method();
                }
                REQ(!d.env->PopLocalFrame(nullptr), "C25:frame", "PopLocalFrame");
                REQ(ledger()->living() == 0, "C25:alive", "%ld objects survive their frame", (long)ledger()->living());
            }
            vh::distinct(d.hist);
            if(i % 997 == 0) vh::sample(fmt("history %016llx, %s machine", (unsigned long long)d.hist, d.fab ? "fabricating" : "null returning"));
        });
        check_ledger("C25:lifetime");
    });
    return vh::finish();
}
