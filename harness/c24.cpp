// C24: FakeJni descriptors, Jvm::start and the scoped environment helpers.
#include "jh.h"
#include "prim.h"
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
using namespace jh;
using namespace jnivm;

namespace {
    struct MyFake : FakeJni::Jvm { VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    constexpr int NK = 8;
    std::string names[NK];               // declared names of the dynamic classes in this case
    template<int N> struct K;
    struct I1 : Extends<Object> { DEFINE_CLASS_NAME("c24/I1") jint i1 = 77; };
    struct I2 : Extends<Object> { DEFINE_CLASS_NAME("c24/I2") jint i2 = 78; static std::shared_ptr<String> text(std::shared_ptr<String> s) { return s; } };
    struct J3 : Extends<I1> { DEFINE_CLASS_NAME("c24/J3", I1) jint j = 3; };
    struct J12 : Extends<I1, I2> { DEFINE_CLASS_NAME("c24/J12", I1, I2) std::shared_ptr<String> s; explicit J12(std::shared_ptr<String> s = nullptr) : s(s) {} };
    struct J : Extends<J12, J3> { DEFINE_CLASS_NAME("c24/J", J12, J3) };
}
BEGIN_NATIVE_DESCRIPTOR(I1)
{ FakeJni::Field<&ClassName::i1>{}, "i1" },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(I2)
{ &ClassName::i2, "i2" },
{ FakeJni::Function<&ClassName::text>{}, "text", FakeJni::JMethodID::PUBLIC | FakeJni::JMethodID::STATIC },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(J3)
FakeJni::Constructor<ClassName>{},
{ FakeJni::Field<&ClassName::j>{}, "j" },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(J12)
{ FakeJni::Constructor<ClassName, std::shared_ptr<String>>{} },
{ FakeJni::Field<&ClassName::s>{}, "s", FakeJni::JFieldID::PUBLIC },
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(J)
{ FakeJni::Constructor<ClassName>{} },
END_NATIVE_DESCRIPTOR
namespace {
    // how the C++ class inherits, and what is declared to the macro
    template<int N> struct Bases { using type = Object; using declared = Extends<Object>; };
    template<> struct Bases<1> { using type = K<0>; using declared = Extends<K<0>>; };
    template<> struct Bases<2> { using type = Extends<K<1>>; using declared = type; };
    template<> struct Bases<4> { using type = Extends<I1, I2>; using declared = type; };
    template<> struct Bases<5> { using type = Extends<K<3>, I2>; using declared = type; };
    template<> struct Bases<3> { using type = Extends<Object>; using declared = type; };
    template<> struct Bases<6> { using type = Extends<Object>; using declared = type; };
    const std::vector<int> parents[NK] = { {}, { 0 }, { 0, 1 }, {}, {}, { 3 }, {}, {} }; // dynamic ancestors
    const std::vector<std::string> ifaces[NK] = { {}, {}, {}, {}, { "c24/I1", "c24/I2" }, { "c24/I2" }, {}, {} };
    const int super[NK] = { -1, 0, 1, -1, -2, 3, -1, -1 };

    struct Row {
        const char* what;
        std::function<FakeJni::Descriptor(const char*)> make;
        char kind; // m method, f field, c constructor, ! an entry which is refused
        bool st;
        std::string sig;
        // uses the published member, one way or the other
        std::function<void(JNIEnv*, jclass, jobject, void*)> probe;
    };
    std::function<void(int, std::shared_ptr<Array<String>>)> main_called;
    std::vector<std::function<FakeJni::Descriptor()>> table[NK];
    std::deque<std::vector<FakeJni::Descriptor>> kept; // classes refer to their descriptors, which are static variables of the macros
    int registered_runs[NK];

    template<int N> struct K : Bases<N>::type {
        // what the macro declares
        static std::string getClassName() { return names[N]; }
        static std::shared_ptr<Class> registerClass();
        static std::shared_ptr<Class> getDescriptor();
        virtual std::shared_ptr<Class> getClassInternal(ENV* env) override { return getDescriptor(); }
        static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) { return Bases<N>::declared::GetBaseClasses(env); }
        Track t;
        jint f = 10 + N, tag = 0;
        jdouble d = 0;
        std::shared_ptr<String> s;
        std::shared_ptr<K> k;
        static jint sf;
        static std::shared_ptr<K> sk;
        K() {}
        K(jint tag, std::shared_ptr<String> s) : tag(tag), s(s) {}
        explicit K(std::shared_ptr<K> k) : k(k) {}
        jint add(jint a) { return a + f; }
        jlong addc(jlong a) const { return a - f; }
        std::shared_ptr<K> self() { return std::dynamic_pointer_cast<K>(this->shared_from_this()); }
        void env(ENV* e, jint v) { if(e) f = v; }
        static void main(std::shared_ptr<Array<String>> a) { main_called(N, a); }
        static jint stat(jint a, jint b) { return a * 1000 + b; }
        static std::shared_ptr<K> make() { return std::make_shared<K>(5, std::make_shared<String>("made")); }
        static jboolean senv(JNIEnv* e, jdouble d) { return e && d > 0; }
        // arrays of classes with two bases are no C++ type
        using Elem = std::conditional_t<N == 4 || N == 5, Object, K>;
        static std::shared_ptr<Array<Elem>> several(jint n) { auto a = std::make_shared<Array<Elem>>(n); for(jint i = 0; i < n; ++i) (*a)[i] = std::make_shared<K>(); return a; }
    };
    template<int N> jint K<N>::sf = 0;
    template<int N> std::shared_ptr<K<N>> K<N>::sk;
    // what the macros define, with a table which changes from case to case
    template<int N> std::shared_ptr<Class> K<N>::getDescriptor() {
        return ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->template GetClass<K<N>>(K<N>::getClassName().data());
    }
    template<int N> std::shared_ptr<Class> K<N>::registerClass() {
        kept.emplace_back();
        auto& desc = kept.back();
        for(auto&& t : table[N]) desc.push_back(t());
        FakeJni::LocalFrame frame;
        auto clazz = ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->template GetClass<K<N>>(K<N>::getClassName().data());
        for(auto&& des : desc) des.registre(ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv()), clazz.get());
        ++registered_runs[N];
        return clazz;
    }
    std::string text(JNIEnv* env, jobject s) {
        if(!s) return "null";
        auto p = env->GetStringUTFChars((jstring)s, nullptr);
        std::string r = p;
        env->ReleaseStringUTFChars((jstring)s, p);
        return r;
    }
    template<int N> std::string D() { return "L" + names[N] + ";"; }
    template<int N> K<N>* cpp(JNIEnv* env, jobject o) { return dynamic_cast<K<N>*>(deref(ENV::FromJNIEnv(env), o).get()); }
#define PROBE [](JNIEnv* env, jclass c, jobject o, void* id)
#define M ((jmethodID)id)
#define F ((jfieldID)id)
#define OK(x) REQ((x), "C24:member", "class %d", N)
    template<int N> std::vector<Row> rows(vh::Rng& r) {
        using T = K<N>;
        const int S = FakeJni::JMethodID::STATIC, P = FakeJni::JMethodID::PUBLIC;
        static_assert((int)FakeJni::JFieldID::STATIC == (int)FakeJni::JMethodID::STATIC, "");
#define ADD PROBE { auto k = cpp<N>(env, o); k->f = 41; OK(env->CallIntMethod(o, M, 7) == 48); }
#define STAT PROBE { OK(env->CallStaticIntMethod(c, M, 7, 9) == 7009); }
#define ISTAT PROBE { OK(env->CallIntMethod(o, M, 7, 9) == 7009); }
#define FLD PROBE { auto k = cpp<N>(env, o); k->f = 5; OK(env->GetIntField(o, F) == 5); env->SetIntField(o, F, -9); OK(k->f == -9); }
#define SFLD PROBE { T::sf = 5; OK(env->GetStaticIntField(c, F) == 5); env->SetStaticIntField(c, F, -9); OK(T::sf == -9); }
#define ISFLD PROBE { T::sf = 5; OK(env->GetIntField(o, F) == 5); env->SetIntField(o, F, -9); OK(T::sf == -9); }
        std::vector<Row> all {
            { "Function<member>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::add>{}, n }; }, 'm', false, "(I)I", ADD },
            { "Function<member>, PUBLIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::add>{}, n, P }; }, 'm', false, "(I)I", ADD },
            { "Function<member>, PRIVATE", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::add>{}, n, FakeJni::JMethodID::PRIVATE }; }, 'm', false, "(I)I", ADD },
            { "Function<member>, none", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::add>{}, n, 0 }; }, 'm', false, "(I)I", ADD },
            { "Function<member>, STATIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::add>{}, n, S }; }, '!', false, "", nullptr },
            { "Field<member>, STATIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::f>{}, n, P | S }; }, '!', false, "", nullptr },
            { "Function<const member>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::addc>{}, n }; }, 'm', false, "(J)J",
                PROBE { auto k = cpp<N>(env, o); k->f = 41; OK(env->CallLongMethod(o, M, (jlong)1 << 40) == ((jlong)1 << 40) - 41); } },
            { "Function<member returning object>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::self>{}, n, P }; }, 'm', false, "()" + D<N>(),
                PROBE { OK(env->IsSameObject(env->CallObjectMethod(o, M), o)); } },
            { "Function<member with ENV>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::env>{}, n }; }, 'm', false, "(I)V",
                PROBE { env->CallVoidMethod(o, M, 1234); OK(cpp<N>(env, o)->f == 1234); } },
            { "Function<static>, STATIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::stat>{}, n, P | S }; }, 'm', true, "(II)I", STAT },
            { "Function<static>, only STATIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::stat>{}, n, S }; }, 'm', true, "(II)I", STAT },
            { "Function<static>, PUBLIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::stat>{}, n, P }; }, 'm', false, "(II)I", ISTAT },
#ifdef JNIVM_FAKE_JNI_MINECRAFT_LINUX_COMPAT
            { "Function<static>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::stat>{}, n }; }, 'm', true, "(II)I", STAT },
#else
            { "Function<static>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::stat>{}, n }; }, 'm', false, "(II)I", ISTAT },
#endif
            { "Function<static returning object>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::make>{}, n, P | S }; }, 'm', true, "()" + D<N>(),
                PROBE { auto r = env->CallStaticObjectMethod(c, M); OK(r && cpp<N>(env, r)->tag == 5 && env->IsSameObject(env->GetObjectClass(r), c)); } },
            { "Function<static with env>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::senv>{}, n, P | S }; }, 'm', true, "(D)Z",
                PROBE { OK(env->CallStaticBooleanMethod(c, M, 2.5) && !env->CallStaticBooleanMethod(c, M, -2.5)); } },
            { "Function<static returning array>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Function<&T::several>{}, n, P | S }; }, 'm', true, "(I)[" + (N == 4 || N == 5 ? "Ljava/lang/Object;" : D<N>()),
                PROBE { auto a = (jobjectArray)env->CallStaticObjectMethod(c, M, 3); OK(a && env->GetArrayLength(a) == 3);
                        for(int i = 0; i < 3; ++i) { auto r = env->GetObjectArrayElement(a, i); OK(r && env->IsSameObject(env->GetObjectClass(r), c)); } } },
            { "Field<member>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::f>{}, n }; }, 'f', false, "I", FLD },
            { "Field<member>, PUBLIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::f>{}, n, FakeJni::JFieldID::PUBLIC }; }, 'f', false, "I", FLD },
            { "Field<double member>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::d>{}, n, FakeJni::JFieldID::PROTECTED }; }, 'f', false, "D",
                PROBE { env->SetDoubleField(o, F, -1.5); OK(cpp<N>(env, o)->d == -1.5 && env->GetDoubleField(o, F) == -1.5); } },
            { "Field<string member>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::s>{}, n }; }, 'f', false, "Ljava/lang/String;",
                PROBE { auto k = cpp<N>(env, o); env->SetObjectField(o, F, env->NewStringUTF("value")); OK(k->s && *k->s == "value" && text(env, env->GetObjectField(o, F)) == "value"); k->s = nullptr; OK(!env->GetObjectField(o, F)); } },
            { "Field<object member>", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::k>{}, n }; }, 'f', false, D<N>(),
                PROBE { auto k = cpp<N>(env, o); k->k = std::make_shared<T>(); auto r = env->GetObjectField(o, F); OK(r && env->IsSameObject(env->GetObjectClass(r), c)); env->SetObjectField(o, F, nullptr); OK(!k->k); } },
            { "Field<static>, STATIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::sf>{}, n, P | S }; }, 'f', true, "I", SFLD },
            { "Field<static>, PUBLIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::sf>{}, n, P }; }, 'f', false, "I", ISFLD },
            { "Field<static object>, STATIC", [](const char* n) { return FakeJni::Descriptor { FakeJni::Field<&T::sk>{}, n, P | S }; }, 'f', true, D<N>(),
                PROBE { T::sk = std::make_shared<T>(); auto r = env->GetStaticObjectField(c, F); OK(r && cpp<N>(env, r) == T::sk.get() && env->IsSameObject(env->GetObjectClass(r), c)); env->SetStaticObjectField(c, F, nullptr); OK(!T::sk); } },
            { "member", [](const char* n) { return FakeJni::Descriptor { &T::add, n }; }, 'm', false, "(I)I", ADD },
            { "member, STATIC", [](const char* n) { return FakeJni::Descriptor { &T::add, n, P | S }; }, '!', false, "", nullptr },
            { "const member", [](const char* n) { return FakeJni::Descriptor { &T::addc, n, P }; }, 'm', false, "(J)J", PROBE { cpp<N>(env, o)->f = 1; OK(env->CallLongMethod(o, M, (jlong)5) == 4); } },
            { "static, STATIC", [](const char* n) { return FakeJni::Descriptor { &T::stat, n, P | S }; }, 'm', true, "(II)I", STAT },
            { "static, PUBLIC", [](const char* n) { return FakeJni::Descriptor { &T::stat, n, P }; }, 'm', false, "(II)I", ISTAT },
            { "data member", [](const char* n) { return FakeJni::Descriptor { &T::f, n }; }, 'f', false, "I", FLD },
            { "static data, STATIC", [](const char* n) { return FakeJni::Descriptor { &T::sf, n, P | S }; }, 'f', true, "I", SFLD },
            { "Constructor<>", [](const char*) { return FakeJni::Descriptor { FakeJni::Constructor<T>{} }; }, 'c', true, "()V",
                PROBE { auto r = env->NewObject(c, M); OK(r && cpp<N>(env, r) && env->IsSameObject(env->GetObjectClass(r), c)); } },
            { "Constructor<int, String>", [](const char*) { return FakeJni::Descriptor { FakeJni::Constructor<T, jint, std::shared_ptr<String>>{} }; }, 'c', true, "(ILjava/lang/String;)V",
                PROBE { auto r = env->NewObject(c, M, 91, env->NewStringUTF("ctor")); OK(r && cpp<N>(env, r) && cpp<N>(env, r)->tag == 91 && *cpp<N>(env, r)->s == "ctor" && env->IsSameObject(env->GetObjectClass(r), c)); } },
            { "Constructor<K>, PUBLIC", [](const char*) { return FakeJni::Descriptor { FakeJni::Constructor<T, std::shared_ptr<T>>{}, P }; }, 'c', true, "(" + D<N>() + ")V",
                PROBE { auto r = env->NewObject(c, M, o); OK(r && cpp<N>(env, r)->k.get() == cpp<N>(env, o)); } },
        };
        // STATIC decides, whatever the other modifiers are
        for(int n = 0; n < 2; ++n) {
            auto flags = [&] { int f = r.below(16); if(r.chance(1, 4)) f |= 1 << (4 + r.below(16)); return f; };
            auto any = [&](const char* what, bool instance, char kind, const char* sig, auto make, auto probe, decltype(probe) iprobe = nullptr) {
                int f = flags();
                bool st = f & S;
                all.push_back({ what, [make, f](const char* n) { return make(n, f); }, instance && st ? '!' : kind, st, sig, st ? probe : iprobe });
            };
            using Probe = std::function<void(JNIEnv*, jclass, jobject, void*)>;
            any("Function<static>, any flags", false, 'm', "(II)I", [](const char* n, int f) { return FakeJni::Descriptor { FakeJni::Function<&T::stat>{}, n, f }; }, Probe(STAT), Probe(ISTAT));
            any("static, any flags", false, 'm', "(II)I", [](const char* n, int f) { return FakeJni::Descriptor { &T::stat, n, f }; }, Probe(STAT), Probe(ISTAT));
            any("Function<member>, any flags", true, 'm', "(I)I", [](const char* n, int f) { return FakeJni::Descriptor { FakeJni::Function<&T::add>{}, n, f }; }, Probe(), Probe(ADD));
            any("member, any flags", true, 'm', "(I)I", [](const char* n, int f) { return FakeJni::Descriptor { &T::add, n, f }; }, Probe(), Probe(ADD));
            any("Field<static>, any flags", false, 'f', "I", [](const char* n, int f) { return FakeJni::Descriptor { FakeJni::Field<&T::sf>{}, n, f }; }, Probe(SFLD), Probe(ISFLD));
            any("static data, any flags", false, 'f', "I", [](const char* n, int f) { return FakeJni::Descriptor { &T::sf, n, f }; }, Probe(SFLD), Probe(ISFLD));
            any("Field<member>, any flags", true, 'f', "I", [](const char* n, int f) { return FakeJni::Descriptor { FakeJni::Field<&T::f>{}, n, f }; }, Probe(), Probe(FLD));
            any("data member, any flags", true, 'f', "I", [](const char* n, int f) { return FakeJni::Descriptor { &T::f, n, f }; }, Probe(), Probe(FLD));
        }
        return all;
    }
    struct Dyn {
        std::vector<Row> (*rows)(vh::Rng&);
        std::shared_ptr<Class> (*reg)();
        std::shared_ptr<Class> (*desc)();
        std::shared_ptr<Object> (*make)();
        void (*regjvm)(FakeJni::Jvm&);
        jobject (*pass)(ENV*, std::shared_ptr<Object>);
        void (*clear)();
    };
    template<int N> Dyn dyn() {
        return { rows<N>, [] { return K<N>::registerClass(); }, [] { return K<N>::getDescriptor(); }, []() -> std::shared_ptr<Object> { return std::make_shared<K<N>>(); },
                 [](FakeJni::Jvm& j) { j.registerClass<K<N>>(); }, [](ENV* e, std::shared_ptr<Object> o) { return local(e, std::dynamic_pointer_cast<K<N>>(o)); }, [] { K<N>::sk = nullptr; K<N>::sf = 0; } };
    }
    struct Member { int row; const char* name; };
    struct Machine {
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<MyBaron> baron;
        FakeJni::Jvm* jvm;
        VM* vm;
        explicit Machine(bool b) {
            if(b) { baron.reset(new MyBaron); jvm = baron.get(); vm = baron->vm(); }
            else { fake.reset(new MyFake); jvm = fake.get(); vm = fake->vm(); }
        }
    };
    using Args = std::shared_ptr<Array<String>>;
    struct Seen { int cls; Args args; };
    std::vector<Seen> seen;
    std::function<void()> inside;
    template<int N> void reg_main(ENV* e, int how) {
        auto c = e->GetClass<K<N>>(names[N].c_str());
        main_called = [](int n, Args a) { seen.push_back({ n, a }); if(inside) inside(); };
        auto f = [](Args a) { seen.push_back({ N, a }); if(inside) inside(); };
        switch(how) {
        case 0: kept.push_back({ { &K<N>::main, "main", FakeJni::JMethodID::PUBLIC | FakeJni::JMethodID::STATIC } }); kept.back()[0].registre(e, c.get()); break;
        case 1: c->Hook(e, "main", [f](ENV* e, Args a) { f(a); }); break;
        // something else by that name
        case 2: c->Hook(e, "main", [](std::shared_ptr<String>) { seen.push_back({ 100, nullptr }); }); break;
        case 3: c->Hook(e, "main", [](Args) -> jint { seen.push_back({ 101, nullptr }); return 0; }); break;
        case 4: c->Hook(e, "Main", [](Args) { seen.push_back({ 102, nullptr }); }); break;
        default: c->Hook(e, "main", [](std::shared_ptr<Array<Object>>) { seen.push_back({ 103, nullptr }); });
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C24");
    bool T = vh::S().thorough;
    const Dyn dyns[NK] = { dyn<0>(), dyn<1>(), dyn<2>(), dyn<3>(), dyn<4>(), dyn<5>(), dyn<6>(), dyn<7>() };
    static const char* member_names[] = { "a", "b", "value", "run", "get", "x1", "aVeryLongMemberNameWhichDoesNotFitAnySmallBuffer", "toString" };
    vh::run_cases("descriptor tables", 0, T ? 20000 : 1000, [&](vh::Rng& r, long i) {
        new_ledger();
        kept.clear();
        {
        for(int k = 0; k < NK; ++k) {
            static const char* forms[] = { "c24/K%d", "c24/deep/er/K%d", "c24/Outer$K%d", "K_%d" };
            names[k] = fmt(forms[r.below(4)], k);
            table[k].clear();
        }
        Machine m(i % 3 == 2);
        Worker w;
        std::vector<std::vector<Row>> rows;
        for(auto& d : dyns) rows.push_back(d.rows(r));
        // published members: kind, static, name, descriptor
        using Key = std::tuple<char, bool, std::string, std::string>;
        std::vector<std::map<Key, int>> model(NK);
        std::vector<bool> reg(NK);
        uint64_t h = m.baron ? 1 : 0;
        auto in = [&](std::function<void(JNIEnv*, ENV*)> f) {
            if(r.chance(1, 4)) {
                w.run([&] {
                    FakeJni::LocalFrame frame(*m.jvm);
                    f(&frame.getJniEnv(), ENV::FromJNIEnv(&frame.getJniEnv()));
                });
                vh::count("on another thread");
            } else {
                FakeJni::LocalFrame frame(r.below(9));
                f(&frame.getJniEnv(), ENV::FromJNIEnv(&frame.getJniEnv()));
            }
        };
        auto verify = [&](int k) {
            auto c = dyns[k].desc();
            std::map<Key, int> have;
            for(auto&& x : c->methods) {
                bool ct = x->name == "<init>";
                auto s = x->signature;
                if(ct) s = s.substr(0, s.find(')') + 1) + "V";
                ++have[Key(ct ? 'c' : 'm', ct ? true : x->_static, x->name, s)];
                REQ(x->nativehandle, "C24:published", "%s %s has no implementation", x->name.c_str(), s.c_str());
            }
            for(auto&& x : c->fields) {
                ++have[Key('f', x->_static, x->name, x->type)];
                REQ(x->getnativehandle && x->setnativehandle, "C24:published", "field %s %s lacks an accessor", x->name.c_str(), x->type.c_str());
            }
            for(auto& x : have) {
                REQ(x.second == 1, "C24:published", "%s publishes %s %s %d times", names[k].c_str(), std::get<2>(x.first).c_str(), std::get<3>(x.first).c_str(), x.second);
                REQ(model[k].count(x.first), "C24:published", "%s publishes unlisted %c%s %s %s", names[k].c_str(), std::get<0>(x.first), std::get<1>(x.first) ? " static" : "", std::get<2>(x.first).c_str(), std::get<3>(x.first).c_str());
            }
            for(auto& x : model[k])
                REQ(have.count(x.first), "C24:published", "%s does not publish %c%s %s %s (%s)", names[k].c_str(), std::get<0>(x.first), std::get<1>(x.first) ? " static" : "", std::get<2>(x.first).c_str(), std::get<3>(x.first).c_str(), rows[k][x.second].what);
            vh::count("tables verified");
        };
        auto registre = [&](int k, bool fresh) {
            if(fresh) {
                table[k].clear();
                for(int n = r.below(r.chance(1, 3) ? 30 : 6); n-- > 0;) {
                    int q = r.below(rows[k].size());
                    auto& row = rows[k][q];
                    const char* name = member_names[r.below(8)];
                    if(row.kind == '!') {
                        bool thrown = false;
                        try { row.make(name); } catch(const std::runtime_error&) { thrown = true; }
                        REQ(thrown, "C24:refused", "%s was not refused", row.what);
                        vh::count("refused entries");
                        continue;
                    }
                    vh::op("%s: %s %s", names[k].c_str(), row.what, name);
                    auto mk = row.make;
                    table[k].push_back([mk, name] { return mk(name); });
                    model[k][Key(row.kind, row.st, row.kind == 'c' ? "<init>" : name, row.sig)] = q;
                    vh::count(std::string("row:") + row.what);
                    h = vh::mix(h, q * 64 + k);
                }
            } else vh::count("registered again");
            vh::op("register %s", names[k].c_str());
            in([&](JNIEnv* env, ENV* e) {
                if(r.chance(1, 2)) dyns[k].reg(); else dyns[k].regjvm(*m.jvm);
                REQ(!env->ExceptionCheck(), "C24:register", "exception");
            });
            reg[k] = true;
        };
        for(int again = 0; again < 2; ++again) {
            FakeJni::LocalFrame frame;
            I1::registerClass();
            m.jvm->registerClass<I2>();
            m.jvm->registerClass<J3>();
            m.jvm->registerClass<J12>();
            J::registerClass();
            auto& env = frame.getJniEnv();
            auto e = ENV::FromJNIEnv(&env);
            auto c1 = env.FindClass("c24/I1"), c2 = env.FindClass("c24/I2"), c3 = env.FindClass("c24/J3"), c12 = env.FindClass("c24/J12"), c = env.FindClass("c24/J");
            REQ(c1 && c2 && c3 && c12 && c, "C24:published", "macros");
            auto is = [&](std::shared_ptr<Class> c, size_t m, size_t f) { REQ(c->methods.size() == m && c->fields.size() == f, "C24:published", "%s publishes %zu methods and %zu fields", c->getName().c_str(), c->methods.size(), c->fields.size()); };
            is(I1::getDescriptor(), 0, 1);
            is(I2::getDescriptor(), 1, 1);
            is(J3::getDescriptor(), 1, 1);
            is(J12::getDescriptor(), 1, 1);
            is(J::getDescriptor(), 1, 0);
            auto s = env.NewStringUTF("macro");
            struct { jobject o; jclass c; const char* anc; } objs[] = {
                { local(e, std::make_shared<I1>()), c1, "1" }, { local(e, std::static_pointer_cast<Object>(std::make_shared<I2>())), c2, "2" }, { env.NewObject(c3, env.GetMethodID(c3, "<init>", "()V")), c3, "13" },
                { env.NewObject(c12, env.GetMethodID(c12, "<init>", "(Ljava/lang/String;)V"), s), c12, "124" }, { env.NewObject(c, env.GetMethodID(c, "<init>", "()V")), c, "12345" },
                { local(e, std::static_pointer_cast<I1>(std::make_shared<J>())), c, "12345" } };
            for(auto& x : objs) {
                REQ(x.o && env.IsSameObject(env.GetObjectClass(x.o), x.c), "C24:instance", "macros");
                std::pair<char, jclass> all[] = { { '1', c1 }, { '2', c2 }, { '3', c3 }, { '4', c12 }, { '5', c } };
                for(auto& y : all) REQ((bool)env.IsInstanceOf(x.o, y.second) == (strchr(x.anc, y.first) != nullptr), "C24:bases", "macros: %s %c", x.anc, y.first);
                if(strchr(x.anc, '1')) REQ(env.GetIntField(x.o, env.GetFieldID(x.c, "i1", "I")) == 77, "C24:member", "macros");
                if(strchr(x.anc, '2')) REQ(env.GetIntField(x.o, env.GetFieldID(x.c, "i2", "I")) == 78 && env.IsSameObject(env.CallStaticObjectMethod(x.c, env.GetStaticMethodID(x.c, "text", "(Ljava/lang/String;)Ljava/lang/String;"), s), s), "C24:member", "macros");
                if(strchr(x.anc, '3')) REQ(env.GetIntField(x.o, env.GetFieldID(x.c, "j", "I")) == 3, "C24:member", "macros");
                if(!strcmp(x.anc, "124")) REQ(env.IsSameObject(env.GetObjectField(x.o, env.GetFieldID(x.c, "s", "Ljava/lang/String;")), s), "C24:member", "macros");
            }
            REQ(env.IsSameObject(env.GetSuperclass(c3), c1) && env.IsSameObject(env.GetSuperclass(c12), c1) && env.IsSameObject(env.GetSuperclass(c), c12), "C24:bases", "macros: superclass");
            vh::count("macro classes");
        }
        // ancestors have to be registered first
        for(int k = 0; k < NK; ++k) {
            if(r.chance(1, 3)) in([&](JNIEnv* env, ENV* e) { if(m.baron || r.chance(1, 2)) { env->FindClass(names[k].c_str()); vh::count("looked up before it was registered"); } });
            registre(k, true);
        }
        for(int step = 0, n = 12 + r.below(30); step < n; ++step) {
            int k = r.below(NK);
            auto what = r.below(10);
            if(what == 0) { registre(k, r.chance(1, 3)); verify(k); continue; }
            if(what == 1) { for(int q = 0; q < NK; ++q) verify(q); continue; }
            in([&](JNIEnv* env, ENV* e) {
                auto c = env->FindClass(names[k].c_str());
                REQ(c, "C24:class", "%s not found", names[k].c_str());
                REQ(deref(e, c) == dyns[k].desc() && dyns[k].desc() == m.jvm->findClass(names[k].c_str()), "C24:class", "%s is something else", names[k].c_str());
                REQ(dyns[k].desc()->getName() == names[k], "C24:class", "%s is called %s", names[k].c_str(), dyns[k].desc()->getName().c_str());
                // an instance, through some path
                jobject o = nullptr;
                auto path = r.below(6);
                vh::op("instance of %s by %d", names[k].c_str(), (int)path);
                Key ctor('c', true, "<init>", "()V");
                switch(path) {
                case 0: if(model[k].count(ctor)) { o = env->NewObject(c, env->GetMethodID(c, "<init>", "()V")); vh::count("constructed by NewObject"); break; } // fall through
                case 1: o = dyns[k].pass(e, dyns[k].make()); vh::count("passed as its class"); break;
                case 2: o = local(e, dyns[k].make()); vh::count("passed as Object"); break;
                case 3: o = ((FakeJni::Env*)FakeJni::JniEnv::getCurrentEnv())->createLocalReference(dyns[k].make()); vh::count("createLocalReference"); break;
                case 4: { auto g = m.jvm->createGlobalReference(dyns[k].pass(e, dyns[k].make()) ? dyns[k].make() : nullptr); REQ(env->GetObjectRefType(g) == JNIGlobalRefType, "C24:references", "no global reference"); o = env->NewLocalRef(g); env->DeleteGlobalRef(g); vh::count("createGlobalReference"); break; }
                default: {
                    auto a = std::make_shared<Array<Object>>(2);
                    (*a)[1] = dyns[k].make();
                    o = env->GetObjectArrayElement((jobjectArray)local(e, a), 1);
                    vh::count("taken from an array");
                } }
                REQ(o, "C24:instance", "none");
                auto oc = env->GetObjectClass(o);
                REQ(oc && env->IsSameObject(oc, c), "C24:instance", "path %d: object of %s reports class %s", (int)path, names[k].c_str(), oc ? std::dynamic_pointer_cast<Class>(deref(e, oc))->getName().c_str() : "null");
                REQ(deref(e, o)->getClass().getName() == names[k], "C24:instance", "getClass");
                REQ(((FakeJni::Env*)FakeJni::JniEnv::getCurrentEnv())->resolveReference(o) == deref(e, o), "C24:references", "resolveReference");
                // the listed bases
                for(int q = 0; q < NK; ++q) {
                    bool anc = q == k || std::count(parents[k].begin(), parents[k].end(), q);
                    auto qc = env->FindClass(names[q].c_str());
                    REQ((bool)env->IsInstanceOf(o, qc) == anc && (bool)env->IsAssignableFrom(c, qc) == anc, "C24:bases", "%s and %s", names[k].c_str(), names[q].c_str());
                }
                for(auto n : { "c24/I1", "c24/I2" }) {
                    bool anc = std::count(ifaces[k].begin(), ifaces[k].end(), n);
                    REQ((bool)env->IsInstanceOf(o, env->FindClass(n)) == anc, "C24:bases", "%s and %s", names[k].c_str(), n);
                }
                auto sc = env->GetSuperclass(c);
                if(super[k] >= 0) REQ(sc && env->IsSameObject(sc, env->FindClass(names[super[k]].c_str())), "C24:bases", "superclass of %s", names[k].c_str());
                // its members, found by their name
                for(int n = r.below(12); n-- > 0 && model[k].size();) {
                    auto it = model[k].begin();
                    std::advance(it, r.below(model[k].size()));
                    auto& [kind, st, name, sig] = it->first;
                    auto& row = rows[k][it->second];
                    vh::op("use %s.%s %s (%s)", names[k].c_str(), name.c_str(), sig.c_str(), row.what);
                    void* id = kind == 'f' ? (void*)(st ? env->GetStaticFieldID(c, name.c_str(), sig.c_str()) : env->GetFieldID(c, name.c_str(), sig.c_str()))
                             : (void*)(st && kind != 'c' ? env->GetStaticMethodID(c, name.c_str(), sig.c_str()) : env->GetMethodID(c, name.c_str(), sig.c_str()));
                    REQ(id, "C24:member", "%s not found", row.what);
                    row.probe(env, c, o, id);
                    REQ(!env->ExceptionCheck(), "C24:member", "%s raised an exception", row.what);
                    vh::count(std::string("use:") + row.what);
                    // of the other kind only if that was listed as well, here or by an ancestor
                    bool other = m.baron != nullptr;
                    for(int q = 0; q < NK; ++q) if(q == k || std::count(parents[k].begin(), parents[k].end(), q)) other |= model[q].count(Key(kind, !st, name, sig));
                    if(!other && kind != 'c' && name != "text") {
                        void* no = kind == 'f' ? (void*)(!st ? env->GetStaticFieldID(c, name.c_str(), sig.c_str()) : env->GetFieldID(c, name.c_str(), sig.c_str()))
                                 : (void*)(!st ? env->GetStaticMethodID(c, name.c_str(), sig.c_str()) : env->GetMethodID(c, name.c_str(), sig.c_str()));
                        env->ExceptionClear();
                        REQ(!no, "C24:member", "%s is also published as %s", row.what, st ? "instance member" : "static member");
                        vh::count("hidden from the other kind");
                    }
                }
                env->ExceptionClear();
            });
        }
        for(int k = 0; k < NK; ++k) verify(k);
        for(auto& d : dyns) d.clear();
        vh::distinct(h);
        }
        REQ(ledger()->living() == 0, "C24:instance", "%zu instances survive", ledger()->living());
        check_ledger("C24:twice");
    });
    // ---- start
    vh::run_cases("start", 100000, T ? 20000 : 2000, [&](vh::Rng& r, long i) {
        kept.clear();
        for(int k = 0; k < NK; ++k) { static const char* forms[] = { "c24/M%d", "M%d", "c24/Outer$M%d", "c24/a/b/c/d/M$In$ner%d", "c24/M%dMain" }; names[k] = fmt(forms[r.below(5)], k); table[k].clear(); }
        Machine m(i % 3 == 2);
        seen.clear();
        inside = nullptr;
        static Machine* mp;
        mp = &m;
        std::set<int> mains;
        bool fabricated = false;
        static void (*const regs[])(ENV*, int) = { reg_main<0>, reg_main<3>, reg_main<4>, reg_main<6>, reg_main<7> };
        static const int ids[] = { 0, 3, 4, 6, 7 };
        {
            FakeJni::LocalFrame frame;
            auto e = ENV::FromJNIEnv(&frame.getJniEnv());
            I1::registerClass();
            I2::registerClass();
            for(int k = 0; k < 5; ++k) {
                if(r.chance(1, 2)) continue;
                int how = r.chance(1, 3) ? r.below(2) : 2 + r.below(4);
                vh::op("class %d main %d", ids[k], how);
                regs[k](e, how);
                if(how < 2) mains.insert(ids[k]);
                vh::count(how < 2 ? "classes with main" : "classes with decoys");
            }
            if(r.chance(1, 4)) {
                bool ptr = r.chance(1, 2);
                vh::op("createMainMethod");
                if(ptr) FakeJni::createMainMethod(*m.jvm, [](FakeJni::JArray<FakeJni::JString>* a) { seen.push_back({ 50, a ? std::dynamic_pointer_cast<Array<String>>(a->shared_from_this()) : nullptr }); if(inside) inside(); });
                else FakeJni::createMainMethod(*m.jvm, [](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> a) { seen.push_back({ 50, a }); if(inside) inside(); });
                mains.insert(50);
                vh::count("createMainMethod");
            }
            if(m.baron && r.chance(1, 6)) {
                // native code which was promised a main method does not make one
                auto& env = frame.getJniEnv();
                vh::op("fabricated main");
                env.GetStaticMethodID(env.FindClass("c24/Unknown"), "main", "([Ljava/lang/String;)V");
                fabricated = true;
            }
        }
        Worker w;
        for(int n = 1 + r.below(4); n-- > 0;) {
            seen.clear();
            Args args;
            bool dflt = r.chance(1, 4);
            std::vector<std::string> strs;
            if(!dflt && !r.chance(1, 10)) {
                args = std::make_shared<Array<String>>(r.below(20));
                for(jsize k = 0; k < args->getSize(); ++k) if(!r.chance(1, 6)) { (*args)[k] = std::make_shared<String>(fmt("arg %d", (int)r.below(1000))); }
            }
            for(jsize k = 0; args && k < args->getSize(); ++k) strs.push_back((*args)[k] ? (std::string)*(*args)[k] : "(null)");
            bool boom = r.chance(1, 4);
            struct Boom { int x; };
            int nested = 0;
            std::shared_ptr<Array<String>> nargs = std::make_shared<Array<String>>(0);
            bool nest = r.chance(1, 6);
            bool thread = r.chance(1, 3), attached = r.chance(1, 2);
            inside = [&] {
                // what the main method of a program does
                if(nested) return;
                FakeJni::LocalFrame f;
                auto& env = f.getJniEnv();
                if(env.FindClass("c24/I1") == nullptr) throw std::logic_error("environment is unusable");
                local(ENV::FromJNIEnv(&env), std::make_shared<String>("local"));
                if(nest) { nested = 1; mp->jvm->start(nargs); nested = 2; }
                if(boom) throw Boom { 42 };
            };
            vh::op("start%s%s%s%s", dflt ? " default" : "", boom ? " throws" : "", thread ? " thread" : "", nest ? " nested" : "");
            bool notfound = false, gotboom = false;
            auto run = [&] {
                auto before = FakeJni::JniEnv::getCurrentEnv();
                size_t depth = 0, objs = 0;
                if(before) { for(auto& f : before->localframe) { ++depth; objs += f.size(); } }
                try {
                    if(dflt) m.jvm->start(); else m.jvm->start(args);
                } catch(const Boom& b) { gotboom = b.x == 42; }
                catch(const std::logic_error& e) { vh::fail("C24:start", e.what()); }
                catch(const std::runtime_error& e) { notfound = true; }
                auto after = FakeJni::JniEnv::getCurrentEnv();
                REQ(before == after, "C24:start", "the thread was left %s", after ? "attached" : "detached");
                if(after) {
                    size_t d2 = 0, o2 = 0;
                    for(auto& f : after->localframe) { ++d2; o2 += f.size(); }
                    REQ(d2 == depth && o2 == objs, "C24:start", "frames %zu -> %zu, references %zu -> %zu", depth, d2, objs, o2);
                    after->GetJNIEnv()->ExceptionClear();
                }
            };
            if(thread) w.run([&] {
                if(attached) { FakeJni::LocalFrame f(*m.jvm); run(); vh::count("started on an attached thread"); }
                else { run(); vh::count("started on a detached thread"); }
            });
            else if(r.chance(1, 2)) { FakeJni::LocalFrame f; run(); }
            else run();
            if(mains.empty()) {
                if(fabricated) continue;
                REQ(notfound && seen.empty(), "C24:start", "started without a main method: %s, %zu calls", notfound ? "refused" : "not refused", seen.size());
                vh::count("refused to start");
                continue;
            }
            if(fabricated && seen.empty() && !notfound) continue;
            REQ(!notfound, "C24:start", "main method not found");
            REQ(seen.size() == (nest ? 2 : 1), "C24:start", "%zu main methods ran", seen.size());
            REQ(mains.count(seen[0].cls), "C24:start", "ran %d", seen[0].cls);
            REQ(gotboom == boom, "C24:start", "exception of the main method was %s", boom ? "lost" : "invented");
            if(nest) REQ(seen[1].args == nargs, "C24:start", "nested start got other arguments");
            auto a = seen[0].args;
            if(dflt) REQ(a && a->getSize() == 1 && (*a)[0] && *(*a)[0] == "main", "C24:start", "default arguments");
            else {
                REQ(a == args, "C24:start", "main got another argument array");
                for(jsize k = 0; a && k < a->getSize(); ++k) REQ(((*a)[k] ? (std::string)*(*a)[k] : "(null)") == strs[k], "C24:start", "argument %d changed", k);
            }
            vh::count("started");
            if(boom) vh::count("main threw");
            if(nest) vh::count("nested start");
        }
        inside = nullptr;
        seen.clear();
        vh::distinct(vh::mix(r.next(), i));
    });
    // ---- scoped helpers
    vh::run_cases("scopes", 200000, T ? 20000 : 2000, [&](vh::Rng& r, long i) {
        new_ledger();
        {
        Machine m(i % 3 == 2);
        auto cls = [&](ENV* e) { e->GetClass<Tracked>("c24/Tracked"); };
        cls(m.vm->GetEnv().get());
        auto make = [&]() {
            auto t = std::make_shared<Tracked>();
            int id = t->id();
            local(ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv()), t);
            return id;
        };
        struct Unwind {};
        std::function<void(int, bool, std::vector<int>&)> nest = [&](int depth, bool attached, std::vector<int>& locals) {
            // locals: objects which the innermost frame of the caller holds
            for(int n = r.below(4); n-- > 0;) {
                auto now = FakeJni::JniEnv::getCurrentEnv();
                REQ((now != nullptr) == attached, "C24:scopes", "thread is %s", now ? "attached" : "not attached");
                if(attached && r.chance(1, 2)) locals.push_back(make());
                for(int id : locals) REQ(ledger()->alive(id), "C24:scopes", "object of an open frame died");
                if(depth > 6) continue;
                int kind = r.below(5);
                vh::op("%*sscope %d", depth, "", kind);
                std::vector<int> inner;
                std::vector<int>* mine = &inner;
                bool unwind = r.chance(1, 5), thrown = false;
                try {
                    switch(kind) {
                    case 0: {
                        if(!attached) {
                            bool t = false;
                            try { FakeJni::LocalFrame f; } catch(const std::runtime_error&) { t = true; }
                            REQ(t, "C24:scopes", "a frame without an environment");
                            try { FakeJni::JniEnvContext c; c.getJniEnv(); t = false; } catch(const std::runtime_error&) { }
                            REQ(t, "C24:scopes", "an environment of a thread which is not attached");
                            REQ(!FakeJni::JniEnv::getCurrentEnv(), "C24:scopes", "attached");
                            vh::count("refused scopes");
                            break;
                        }
                        FakeJni::LocalFrame f(r.below(9));
                        REQ(&f.getJniEnv() == now, "C24:scopes", "another environment");
                        vh::count("LocalFrame");
                        nest(depth + 1, true, *mine);
                        if(unwind) throw Unwind();
                        break;
                    }
                    case 1: {
                        FakeJni::LocalFrame f(*m.jvm, r.below(9));
                        if(attached) REQ(&f.getJniEnv() == now, "C24:scopes", "another environment");
                        REQ(&f.getJniEnv().getVM() == m.jvm, "C24:scopes", "environment of another machine");
                        vh::count(attached ? "LocalFrame(vm)" : "LocalFrame(vm) attaches");
                        nest(depth + 1, true, *mine);
                        if(unwind) throw Unwind();
                        break;
                    }
                    case 2: {
                        FakeJni::JniEnvContext c(*m.jvm);
                        if(attached) { mine = &locals; REQ(&c.getJniEnv() == now, "C24:scopes", "another environment"); }
                        REQ(FakeJni::JniEnv::getCurrentEnv() == &c.getJniEnv(), "C24:scopes", "current environment");
                        vh::count(attached ? "JniEnvContext(vm)" : "JniEnvContext(vm) attaches");
                        nest(depth + 1, true, *mine);
                        if(unwind) throw Unwind();
                        break;
                    }
                    case 3: {
                        FakeJni::JniEnvContext c;
                        if(attached) mine = &locals;
                        vh::count("JniEnvContext");
                        nest(depth + 1, attached, *mine);
                        if(unwind) throw Unwind();
                        break;
                    }
                    default: {
                        // plain frames between the scopes
                        if(!attached) break;
                        auto env = now->GetJNIEnv();
                        env->PushLocalFrame(4);
                        nest(depth + 1, true, *mine);
                        env->PopLocalFrame(nullptr);
                        vh::count("plain frames");
                    } }
                } catch(const Unwind&) { thrown = true; vh::count("unwound scopes"); }
                (void)thrown;
                REQ(FakeJni::JniEnv::getCurrentEnv() == now, "C24:scopes", "the scope left the thread %s", FakeJni::JniEnv::getCurrentEnv() ? "attached" : "detached");
                if(mine != &locals) for(int id : inner) REQ(!ledger()->alive(id), "C24:scopes", "object survives its frame");
                vh::count("scopes");
            }
        };
        for(int n = 1 + r.below(3); n-- > 0;) {
            if(r.chance(1, 2)) { std::vector<int> l; nest(0, true, l); continue; }
            // threads: not attached, attached by hand, and left attached
            int how = r.below(3);
            vh::op("thread %d", how);
            std::vector<int> l;
            std::thread([&] {
                try {
                    JNIEnv* env = nullptr;
                    if(how) {
                        REQ(m.jvm->AttachCurrentThread(&env, nullptr) == 0 && env, "C24:scopes", "attach");
                        for(int k = r.below(3); k-- > 0;) l.push_back(make());
                    }
                    nest(0, how, l);
                    for(int id : l) REQ(ledger()->alive(id), "C24:scopes", "object died before its thread was detached");
                    if(how == 1) {
                        REQ(m.jvm->DetachCurrentThread() == 0, "C24:scopes", "detach");
                        REQ(!FakeJni::JniEnv::getCurrentEnv(), "C24:scopes", "attached after detaching");
                        for(int id : l) REQ(!ledger()->alive(id), "C24:scopes", "local reference survives detaching");
                    }
                } catch(const std::exception& e) { vh::fail("C24:scopes", e.what()); }
            }).join();
            for(int id : l) REQ(!ledger()->alive(id), "C24:scopes", "local reference survives its thread");
            vh::count(how == 0 ? "threads not attached" : how == 1 ? "threads attached by hand" : "threads left attached");
        }
        }
        REQ(!FakeJni::JniEnv::getCurrentEnv(), "C24:scopes", "attached to a destroyed machine");
        REQ(ledger()->living() == 0, "C24:scopes", "%zu objects survive the machine", ledger()->living());
        check_ledger("C24:twice");
        vh::distinct(vh::mix(r.next(), i));
    });
    return vh::finish();
}
