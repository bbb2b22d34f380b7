// C18: threads sharing a machine, under ThreadSanitizer. Threads touch nothing of this harness that would order them:
// results are kept per thread and compared afterwards. Lock operations of the library are delayed at random.
#include "jh.h"
#include <baron/baron.h>
#include <chrono>
#include <fake-jni/fake-jni.h>
#include <sched.h>
using namespace jh;
using namespace jnivm;

// ---- schedule perturbation: --wrap=pthread_mutex_lock / unlock
namespace {
    thread_local uint64_t sched = 0; // 0: off
    inline void perturb() {
        if(!sched) return;
        sched = sched * 6364136223846793005ULL + 1442695040888963407ULL;
        unsigned x = sched >> 40;
        if(x % 16 == 0) sched_yield();
        else if(x % 301 == 1) { timespec t { 0, (long)(x % 50) * 1000 }; nanosleep(&t, nullptr); }
    }
}
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    perturb();
    return __real_pthread_mutex_lock(m);
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    perturb();
    return r;
}

namespace {
    struct Base : Extends<Object> {
        jint f = 0;
        std::shared_ptr<String> s;
        Track t;
        virtual jint over(jint x) { return x + 1; }
    };
    struct Derived : Extends<Base> { jlong g = 0; };
    struct Leaf : Extends<Derived> {};
    struct MyFake : FakeJni::Jvm { VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    // classes of C++ types which are registered while other threads use the machine
    constexpr int THREADS = 7, TYPES = 2;
    template<int N> struct Typed : Extends<Base> { jint n = N; };
    template<int N> bool typed(ENV* e, jint x) {
        auto name = "c18/Typed" + std::to_string(N);
        auto env = e->GetJNIEnv();
        auto c = e->GetClass<Typed<N>>(name.c_str());
        c->HookInstanceFunction(e, "first", [](Typed<N>* o, jint x) -> jint { return o->n + x; });
        c->HookInstanceFunction(e, "second", [](ENV*, Typed<N>* o, jint x) -> jint { return o->n - x; });
        c->HookInstanceFunction(e, "other", [](Derived*) -> jint { return N; });
        c->Hook(e, "array", [](std::shared_ptr<Array<Typed<N>>> a) { return a; });
        c->HookInstance(e, "n", &Typed<N>::n);
        auto o = std::make_shared<Typed<N>>();
        auto jo = local(e, o);
        auto jc = env->GetObjectClass(jo);
        auto ja = (jobject)env->NewObjectArray(1, jc, jo);
        auto type = "[L" + name + ";";
        return deref(e, jc) == c && env->CallIntMethod(jo, env->GetMethodID(jc, "first", "(I)I"), x) == N + x && env->CallIntMethod(jo, env->GetMethodID(jc, "second", "(I)I"), x) == N - x
            && env->CallIntMethod(jo, env->GetMethodID(jc, "other", "(Lc18/Derived;)I"), nullptr) == N && env->CallIntMethod(jo, env->GetMethodID(jc, "over", "(I)I"), x) == x + 1
            && env->IsSameObject(ja, env->CallStaticObjectMethod(jc, env->GetStaticMethodID(jc, "array", ("(" + type + ")" + type).c_str()), ja))
            && env->GetIntField(jo, env->GetFieldID(jc, "n", "I")) == N && env->IsInstanceOf(jo, env->FindClass("c18/Base"));
    }
    template<int... I> std::vector<bool (*)(ENV*, jint)> typeds(std::integer_sequence<int, I...>) { return { typed<I>... }; }
    const auto typed_fns = typeds(std::make_integer_sequence<int, THREADS * TYPES>());
    // classes registered beforehand, whose array classes are made by whichever thread is first
    constexpr int SHARED = 5;
    template<int N> struct Shared : Extends<Derived> { jint n = N; };
    template<int N> struct SharedFns {
        static void reg(ENV* e) { e->GetClass<Shared<N>>(("c18/Shared" + std::to_string(N)).c_str()); }
        static void hook(ENV* e, Class* c, const std::string& name) {
            c->Hook(e, name, [](std::shared_ptr<Array<Shared<N>>> a) -> jint { return a ? a->getSize() * 10 + N : -1; });
        }
        static std::shared_ptr<Object> array(int n) { return std::make_shared<Array<Shared<N>>>(n); }
        static std::shared_ptr<Object> object() { return std::make_shared<Shared<N>>(); }
    };
    struct SharedOps { void (*reg)(ENV*); void (*hook)(ENV*, Class*, const std::string&); std::shared_ptr<Object> (*array)(int); std::shared_ptr<Object> (*object)(); };
    template<int... I> std::vector<SharedOps> shareds(std::integer_sequence<int, I...>) { return { { SharedFns<I>::reg, SharedFns<I>::hook, SharedFns<I>::array, SharedFns<I>::object }... }; }
    const auto shared_ops = shareds(std::make_integer_sequence<int, SHARED>());
    jint native(JNIEnv*, jobject, jint x) { return x * 3; }
    jint native2(JNIEnv*, jobject, jint x) { return x * 5; }

    struct Out {
        std::map<std::string, void*> ids;   // what lookups yielded
        std::map<std::string, long> events;
        std::vector<std::pair<std::string, std::string>> bad;
        std::vector<long> added;            // guarded increments
        std::vector<uint32_t> order;        // arrival numbers
        void fail(const char* key, const std::string& m) { if(bad.size() < 5) bad.emplace_back(key, m); }
        void id(const std::string& k, void* v) {
            auto it = ids.emplace(k, v).first;
            if(it->second != v) fail("C18:unstable", k + " yields different results in one thread");
        }
    };
#define BAD(cond, key, ...) do { if(!(cond)) out.fail(key, std::string(#cond) + ": " + fmt(__VA_ARGS__)); } while(0)
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C18");
    bool T = vh::S().thorough;
#ifdef VH_TSAN
    long cases = T ? 12000 : 1000;
#else
    long cases = T ? 12000 : 800;
#endif
    vh::run_cases("stress", 0, cases, [&](vh::Rng& r, long i) {
        new_ledger();
        {
        int kind = i % 4; // plain, plain without fabrication, fake-jni, baron
        std::unique_ptr<jnivm::VM> plain;
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<MyBaron> baron;
        jnivm::VM* vm;
        JavaVM* jvm;
        if(kind <= 1) { plain.reset(new jnivm::VM(false, kind == 1)); vm = plain.get(); jvm = vm->GetJavaVM(); }
        else if(kind == 2) { fake.reset(new MyFake); vm = fake->vm(); jvm = fake.get(); }
        else { baron.reset(new MyBaron); vm = baron->vm(); jvm = baron.get(); }
        bool fabricates = kind == 0 || kind == 3;
        JNIEnv* env0 = nullptr;
        jvm->GetEnv((void**)&env0, JNI_VERSION_1_6);
        auto e0 = ENV::FromJNIEnv(env0);
        auto base = e0->GetClass<Base>("c18/Base"), derived = e0->GetClass<Derived>("c18/Derived"), leaf = e0->GetClass<Leaf>("c18/Leaf");
        for(auto& x : shared_ops) x.reg(e0);
        base->HookInstance(e0, "f", &Base::f);
        base->HookInstance(e0, "s", &Base::s);
        derived->HookInstance(e0, "g", &Derived::g);
        base->HookInstanceFunction(e0, "over", [](Base*, jint x) -> jint { return x + 1; });
        leaf->HookInstanceFunction(e0, "over", [](Leaf*, jint x) -> jint { return x + 2; });
        base->HookInstanceFunction(e0, "member", &Base::over);
        base->Hook(e0, "stat", [](jint a, jlong b) -> jlong { return a + b; });
        base->Hook(e0, "echo", [](std::shared_ptr<String> s) { return s; });
        base->Hook(e0, "sum", [](std::shared_ptr<Array<jint>> a) -> jint { jint s = 0; for(jint i = 0; i < a->getSize(); ++i) s += (*a)[i]; return s; });
        base->Hook(e0, "throws", [](ENV*, jint x) -> jint { throw std::runtime_error(std::to_string(x)); });
        base->Hook(e0, "lookup", [](ENV* e) -> jint { auto c = e->GetJNIEnv()->FindClass("c18/Leaf"); return e->GetJNIEnv()->GetMethodID(c, "over", "(I)I") ? 1 : 0; });
        base->Hook(e0, "<init>", [](jint x) { auto p = std::make_shared<Base>(); p->f = x; return p; });
        derived->Hook(e0, "arr", [](std::shared_ptr<Array<Derived>>) {});
        base->HookGetterFunction(e0, "sf", [](ENV*, Class*) -> jint { return 77; });
        env0->PushLocalFrame(64);
        // what the threads share
        std::vector<jobject> globals;     // of living objects
        std::vector<int> globalid;
        for(int k = 0; k < 3; ++k) { auto p = k == 0 ? std::make_shared<Base>() : k == 1 ? std::make_shared<Derived>() : std::shared_ptr<Base>(std::make_shared<Leaf>()); p->f = 10 + k; globals.push_back(env0->NewGlobalRef(local(e0, p))); globalid.push_back(p->t.id); }
        auto gstr = (jstring)env0->NewGlobalRef((jobject)env0->NewStringUTF("shared \xc3\xa4 text"));
        auto garr = (jintArray)env0->NewGlobalRef((jobject)env0->NewIntArray(5));
        { jint v[5] = { 1, 2, 3, 4, 5 }; env0->SetIntArrayRegion(garr, 0, 5, v); }
        auto goarr = (jobjectArray)env0->NewGlobalRef((jobject)env0->NewObjectArray(3, env0->FindClass("c18/Base"), globals[0]));
        int threads = 2 + r.below(6);
        // objects which were not yet passed to the machine
        std::vector<std::shared_ptr<Base>> raw;
        for(int k = 0; k < 40; ++k) raw.push_back(k % 2 ? std::make_shared<Base>() : std::shared_ptr<Base>(std::make_shared<Leaf>()));
        // weak references to objects which their owners drop at some time
        struct Slot { jobject global; jweak weak; int id; };
        std::vector<Slot> slots;
        for(int k = 0; k < threads * 4; ++k) {
            auto p = std::make_shared<Base>();
            auto o = local(e0, p);
            slots.push_back({ env0->NewGlobalRef(o), env0->NewWeakGlobalRef(o), p->t.id });
        }
        long guarded = 0; // by the monitor of globals[0]
        env0->PopLocalFrame(nullptr);
        size_t globals_before = vm->globals.size();
        std::vector<Out> outs(threads);
        std::vector<std::thread> ts;
        std::atomic<uint32_t> arrivals { 0 };
        std::atomic<int> ready { 0 }, done { 0 };
        int ops = T ? 250 : 150;
        int salt = r.below(1000);
        for(int t = 0; t < threads; ++t) {
            auto seed = r.next();
            ts.emplace_back([&, t, seed] {
                vh::Rng r(seed);
                auto& out = outs[t];
                sched = seed | 1;
                JNIEnv* env = nullptr;
                auto attach = [&] {
                    BAD(jvm->AttachCurrentThread(&env, nullptr) == 0 && env, "C18:attach", "failed");
                };
                attach();
                ++ready;
                while(ready.load(std::memory_order_acquire) < threads) sched_yield();
                auto own = std::make_shared<Derived>();
                auto ownid = own->t.id;
                jobject gown = env->NewGlobalRef(local(ENV::FromJNIEnv(env), own));
                own = nullptr;
                jint lastf = 0;
                jlong lastg = 0;
                int dropped = 0, nat = 0;
                long nobjs = 0;
                int pendingbase = t * 1000000;
                for(int n = 0; n < ops; ++n) {
                    auto e = ENV::FromJNIEnv(env);
                    env->PushLocalFrame(16);
                    int op = r.below(23);
                    if(n % 8 == 0) out.order.push_back(arrivals.fetch_add(1, std::memory_order_relaxed));
                    auto bc = env->FindClass("c18/Base"), dc = env->FindClass("c18/Derived"), lc = env->FindClass("c18/Leaf");
                    out.id("Base", bc);
                    auto sm = [&](const char* n, const char* s) { auto m = env->GetStaticMethodID(bc, n, s); out.id(std::string("Base.") + n + s, m); return m; };
                    switch(op) {
                    case 0: case 1: { // first lookups. All threads go through the same names
                        static const char* fs[] = { "c18/n%d_%d", "c18/p%d/Q%d", "c18/O%d$I%d", "c18/O%d$I%d$J", "[Lc18/n%d_%d;", "T%d_%d" };
                        auto name = fmt(fs[r.below(6)], salt, (int)r.below(30));
                        auto c = env->FindClass(name.c_str());
                        BAD(!c == !fabricates, "C18:find-class", "%s", name.c_str());
                        out.id("class " + name, c);
                        if(c && r.chance(1, 2)) {
                            auto m = fmt("m%d", (int)r.below(4));
                            static const char* sigs[] = { "()V", "(I)I", "(Lc18/x;)Lc18/y;" };
                            auto s = sigs[r.below(3)];
                            out.id(name + "." + m + s, env->GetMethodID(c, m.c_str(), s));
                            out.id(name + ".static " + m + s, env->GetStaticMethodID(c, m.c_str(), s));
                            out.id(name + "." + m + " I", env->GetFieldID(c, m.c_str(), "I"));
                            out.id(name + ".static " + m + " I", env->GetStaticFieldID(c, m.c_str(), "I"));
                        }
                        env->ExceptionClear();
                        ++out.events["class lookups"];
                        break;
                    }
                    case 2: { // members of shared classes, also unknown ones
                        jclass cs[] = { bc, dc, lc };
                        int k = r.below(3);
                        auto n = fmt("u%d_%d", salt, (int)r.below(40));
                        out.id(fmt("%d.%s()I", k, n.c_str()), env->GetMethodID(cs[k], n.c_str(), "()I"));
                        out.id(fmt("%d.static %s(I)[I", k, n.c_str()), env->GetStaticMethodID(cs[k], n.c_str(), "(I)[I"));
                        out.id(fmt("%d.%s J", k, n.c_str()), env->GetFieldID(cs[k], n.c_str(), "J"));
                        out.id(fmt("%d.static %s J", k, n.c_str()), env->GetStaticFieldID(cs[k], n.c_str(), "J"));
                        out.id(fmt("%d.over", k), env->GetMethodID(cs[k], "over", "(I)I"));
                        env->ExceptionClear();
                        ++out.events["member lookups"];
                        break;
                    }
                    case 3: { // calls
                        jint a = r.below(1000);
                        jlong b = r.next() >> 8;
                        BAD(env->CallStaticLongMethod(bc, sm("stat", "(IJ)J"), a, b) == a + b, "C18:call", "wrong sum");
                        int k = r.below(3);
                        auto m = env->GetMethodID(k ? lc : bc, "over", "(I)I");
                        BAD(env->CallIntMethod(globals[k], env->GetMethodID(bc, "over", "(I)I"), a) == a + (k == 2 ? 2 : 1), "C18:call", "wrong method on object %d", k);
                        BAD(env->CallIntMethod(globals[2], m, a) == a + 2, "C18:call", "wrong method");
                        BAD(env->CallIntMethod(globals[k], env->GetMethodID(bc, "member", "(I)I"), a) == a + 1, "C18:call", "wrong method");
                        BAD(env->CallStaticIntMethod(bc, sm("sum", "([I)I"), garr) == 15, "C18:call", "wrong array sum");
                        auto s = env->CallStaticObjectMethod(bc, sm("echo", "(Ljava/lang/String;)Ljava/lang/String;"), gstr);
                        BAD(env->IsSameObject(s, (jobject)gstr), "C18:call", "another string");
                        BAD(env->CallStaticIntMethod(bc, sm("lookup", "()I")) == 1, "C18:call", "nested lookup");
                        ++out.events["calls"];
                        break;
                    }
                    case 4: { // fields of an own object
                        auto f = env->GetFieldID(dc, "f", "I");
                        auto g = env->GetFieldID(dc, "g", "J");
                        BAD(env->GetIntField(gown, f) == lastf && env->GetLongField(gown, g) == lastg, "C18:field", "another value");
                        lastf = r.next();
                        lastg = r.next();
                        env->SetIntField(gown, f, lastf);
                        env->SetLongField(gown, g, lastg);
                        BAD(env->GetStaticIntField(bc, env->GetStaticFieldID(bc, "sf", "I")) == 77, "C18:field", "static getter");
                        auto sfid = env->GetFieldID(dc, "s", "Ljava/lang/String;");
                        auto str = (jobject)env->NewStringUTF("v");
                        env->SetObjectField(gown, sfid, str);
                        BAD(env->IsSameObject(env->GetObjectField(gown, sfid), str), "C18:field", "another object");
                        ++out.events["field accesses"];
                        break;
                    }
                    case 5: case 6: { // global references
                        std::vector<jobject> gs;
                        int k = r.below(3);
                        for(int x = 0; x < 4; ++x) gs.push_back(env->NewGlobalRef(globals[k]));
                        for(auto g : gs) BAD(env->IsSameObject(g, globals[k]) && std::dynamic_pointer_cast<Base>(deref(e, g))->t.id == globalid[k], "C18:global", "another object");
                        while(gs.size()) {
                            auto x = r.below(gs.size());
                            env->DeleteGlobalRef(gs[x]);
                            gs.erase(gs.begin() + x);
                        }
                        ++out.events["global references"];
                        break;
                    }
                    case 7: { // weak references
                        auto w = env->NewWeakGlobalRef(globals[r.below(3)]);
                        auto l = env->NewLocalRef((jobject)w);
                        BAD(l, "C18:weak", "a weak reference to a living object is null");
                        auto p = std::make_shared<Base>();
                        jweak mine;
                        env->PushLocalFrame(2);
                        mine = env->NewWeakGlobalRef(local(e, p));
                        p = nullptr;
                        env->PopLocalFrame(nullptr);
                        BAD(!env->NewLocalRef((jobject)mine), "C18:weak", "a weak reference to a dead object is not null");
                        env->DeleteWeakGlobalRef(w);
                        env->DeleteWeakGlobalRef(mine);
                        ++out.events["weak references"];
                        break;
                    }
                    case 8: { // weak references against deletion by the owner
                        for(int x = 0; x < 4; ++x) {
                            auto& s = slots[r.below(slots.size())];
                            auto l = r.chance(1, 2) ? env->NewLocalRef((jobject)s.weak) : env->NewGlobalRef((jobject)s.weak);
                            if(l) {
                                BAD(std::dynamic_pointer_cast<Base>(deref(e, l))->t.id == s.id, "C18:weak", "another object");
                                ++out.events["promotions"];
                                if(env->GetObjectRefType(l) == JNIGlobalRefType) env->DeleteGlobalRef(l);
                            } else ++out.events["failed promotions"];
                        }
                        if(dropped < 4 && r.chance(1, 3)) env->DeleteGlobalRef(slots[t * 4 + dropped++].global);
                        break;
                    }
                    case 9: { // strings
                        std::vector<jchar> u(r.below(20));
                        for(auto& c : u) c = r.next();
                        auto s = env->NewString(u.data(), u.size());
                        std::vector<jchar> v(u.size() + 1);
                        env->GetStringRegion(s, 0, u.size(), v.data());
                        BAD(std::equal(u.begin(), u.end(), v.begin()) && env->GetStringLength(s) == (jsize)u.size(), "C18:string", "other units");
                        BAD(env->GetStringLength(gstr) == 13, "C18:string", "length of the shared string");
                        auto b = env->GetStringUTFChars(gstr, nullptr);
                        BAD(!strcmp(b, "shared \xc3\xa4 text"), "C18:string", "shared string");
                        env->ReleaseStringUTFChars(gstr, b);
                        ++out.events["strings"];
                        break;
                    }
                    case 10: { // arrays
                        auto a = env->NewLongArray(6);
                        jlong v[3] = { t, n, op }, w[3];
                        env->SetLongArrayRegion(a, 2, 3, v);
                        env->GetLongArrayRegion(a, 2, 3, w);
                        BAD(!memcmp(v, w, sizeof v), "C18:array", "other elements");
                        auto o = env->NewObjectArray(3, r.chance(1, 2) ? bc : dc, nullptr);
                        BAD(o, "C18:array", "no array");
                        if(o) {
                            env->SetObjectArrayElement(o, 1, gown);
                            BAD(env->IsSameObject(env->GetObjectArrayElement(o, 1), gown) && !env->GetObjectArrayElement(o, 2), "C18:array", "another element");
                        }
                        BAD(env->IsSameObject(env->GetObjectArrayElement(goarr, r.below(3)), globals[0]), "C18:array", "another shared element");
                        auto p = env->GetIntArrayElements(garr, nullptr);
                        BAD(p[4] == 5, "C18:array", "shared array");
                        env->ReleaseIntArrayElements(garr, p, JNI_ABORT);
                        ++out.events["arrays"];
                        break;
                    }
                    case 11: { // natives: own class, and own names in a shared class
                        auto mine = e->GetClass(fmt("c18/Own%d", t).c_str());
                        auto jm = klass(e, mine);
                        auto nm = fmt("nat%d_%d", t, nat++ % 5);
                        JNINativeMethod m[] = { { nm.c_str(), "(I)I", (void*)(n % 2 ? native : native2) } };
                        BAD(env->RegisterNatives(jm, m, 1) == 0 && env->RegisterNatives(bc, m, 1) == 0, "C18:natives", "failed");
                        if(kind >= 2) {
                            for(auto& c : { mine, base }) {
                                auto x = c->getMethod("(I)I", nm.c_str());
                                BAD((bool)x, "C18:natives", "a registered native is not found");
                                if(x) BAD(x->invoke(*env, c.get(), (jint)7).i == (n % 2 ? 21 : 35), "C18:natives", "wrong native");
                            }
                        }
                        if(r.chance(1, 4)) env->UnregisterNatives(jm);
                        ++out.events["natives"];
                        break;
                    }
                    case 12: { // exceptions
                        jint x = pendingbase + n;
                        env->CallStaticIntMethod(bc, sm("throws", "(I)I"), x);
                        BAD(env->ExceptionCheck(), "C18:exception", "not pending");
                        if(r.chance(1, 2)) env->FindClass("c18/Base");
                        auto ex = std::dynamic_pointer_cast<Throwable>(deref(e, (jobject)env->ExceptionOccurred()));
                        BAD((bool)ex, "C18:exception", "none occurred");
                        env->ExceptionClear();
                        if(ex) try {
                            std::rethrow_exception(ex->except);
                        } catch(const std::runtime_error& y) {
                            BAD(y.what() == std::to_string(x), "C18:exception", "exception of another thread: %s", y.what());
                        }
                        BAD(!env->ExceptionCheck(), "C18:exception", "pending");
                        ++out.events["exceptions"];
                        break;
                    }
                    case 13: { // detach, attach
                        if(n % 3) break;
                        env->PopLocalFrame(nullptr);
                        local(ENV::FromJNIEnv(env), std::make_shared<Base>());
                        jvm->DetachCurrentThread();
                        attach();
                        BAD(!env->ExceptionCheck(), "C18:attach", "pending exception after attaching");
                        env->PushLocalFrame(4);
                        ++out.events["attaches"];
                        break;
                    }
                    case 14: { // hierarchy and reflection
                        BAD(env->IsAssignableFrom(lc, bc) && !env->IsAssignableFrom(bc, lc) && env->IsInstanceOf(globals[1], bc) && !env->IsInstanceOf(globals[0], dc), "C18:hierarchy", "wrong");
                        BAD(env->IsSameObject((jobject)env->GetSuperclass(lc), (jobject)dc), "C18:hierarchy", "superclass");
                        auto m = sm("stat", "(IJ)J");
                        BAD(env->FromReflectedMethod(env->ToReflectedMethod(bc, m, true)) == m, "C18:reflection", "another method");
                        BAD(env->IsSameObject((jobject)env->GetObjectClass(globals[2]), (jobject)lc), "C18:hierarchy", "class of an object");
                        ++out.events["hierarchy"];
                        break;
                    }
                    case 15: { // monitors
                        env->MonitorEnter(globals[0]);
                        auto x = guarded;
                        if(r.chance(1, 4)) sched_yield();
                        guarded = x + 1;
                        env->MonitorExit(globals[0]);
                        out.added.push_back(1);
                        ++out.events["monitors"];
                        break;
                    }
                    case 16: { // objects which no thread passed yet
                        for(int x = 0; x < 3; ++x) {
                            int k = r.below(raw.size());
                            auto l = r.chance(1, 2) ? local(e, raw[k]) : local(e, std::shared_ptr<Object>(raw[k]));
                            BAD(env->IsSameObject((jobject)env->GetObjectClass(l), (jobject)(k % 2 ? bc : lc)), "C18:object-class", "class of a new object");
                        }
                        ++out.events["first passes"];
                        break;
                    }
                    case 17: { // constructors, buffers
                        auto o = env->NewObject(bc, env->GetMethodID(bc, "<init>", "(I)V"), n);
                        BAD(o && env->GetIntField(o, env->GetFieldID(bc, "f", "I")) == n, "C18:constructor", "wrong object");
                        auto b = env->NewDirectByteBuffer(&n, 4);
                        BAD(env->GetDirectBufferAddress(b) == &n, "C18:buffer", "wrong address");
                        ++out.events["constructors"];
                        break;
                    }
                    case 18: { // unimplemented members
                        if(!fabricates) break;
                        auto m = env->GetStaticMethodID(bc, fmt("no%d", (int)r.below(10)).c_str(), fmt("()Lc18/ret%d_%d;", salt, (int)r.below(10)).c_str());
                        out.id(fmt("no"), nullptr);
                        if(m) BAD(env->CallStaticObjectMethod(bc, m), "C18:default", "null");
                        auto m2 = env->GetMethodID(bc, "noarr", "()[Lc18/Derived;");
                        if(m2) BAD(env->GetArrayLength((jarray)env->CallObjectMethod(globals[0], m2)) == 0, "C18:default", "array");
                        ++out.events["defaults"];
                        break;
                    }
                    case 21: { // the first arrays and objects of classes all threads know
                        int k = r.below(SHARED);
                        auto cn = fmt("c18/Shared%d", k), sig = "([L" + cn + ";)I";
                        auto sc = env->FindClass(cn.c_str());
                        out.id(cn, sc);
                        jobject o = local(e, shared_ops[k].object()), a = nullptr;
                        auto what = r.below(fabricates ? 4 : 3);
                        if(what == 0) {
                            a = (jobject)env->NewObjectArray(2, sc, o);
                            // an array class that does not exist yet is not made by machines which fabricate nothing
                            BAD(a && env->IsSameObject(env->GetObjectArrayElement((jobjectArray)a, 1), o), "C18:array", "another element");
                        } else if(what == 1) {
                            a = local(e, shared_ops[k].array(2));
                            env->SetObjectArrayElement((jobjectArray)a, 1, o);
                            BAD(env->IsSameObject(env->GetObjectArrayElement((jobjectArray)a, 1), o), "C18:array", "another element");
                        } else if(what == 2) {
                            auto name = fmt("sa%d_%d", t, k);
                            shared_ops[k].hook(e, base.get(), name);
                            a = local(e, shared_ops[k].array(3));
                            BAD(env->CallStaticIntMethod(bc, env->GetStaticMethodID(bc, name.c_str(), sig.c_str()), a) == 30 + k, "C18:array", "argument");
                        } else {
                            auto m = env->GetStaticMethodID(bc, "noshared", ("()L" + cn + ";").c_str());
                            auto x = env->CallStaticObjectMethod(bc, m);
                            BAD(x && env->IsSameObject((jobject)env->GetObjectClass(x), (jobject)sc), "C18:default", "wrong class of a default object");
                        }
                        if(a) BAD(env->GetArrayLength((jarray)a) == (what == 2 ? 3 : 2), "C18:array", "length");
                        BAD(env->IsSameObject((jobject)env->GetObjectClass(o), (jobject)sc), "C18:object-class", "class of a new object");
                        ++out.events["first arrays of shared classes"];
                        break;
                    }
                    case 19: { // a C++ type nobody else uses
                        int k = t * TYPES + r.below(TYPES);
                        BAD(typed_fns[k](e, r.below(100)), "C18:registration", "type %d", k);
                        ++out.events["registrations of classes"];
                        break;
                    }
                    case 20: { // hooks under own names in classes which the others use
                        int k = r.below(2), v = r.below(1000);
                        auto& c = k ? derived : base;
                        auto jc = k ? dc : bc;
                        auto name = [&](const char* p) { return fmt("%s%d_%d", p, t, (int)r.below(8)); };
                        auto o = globals[1];
                        auto a = name("hs"), b = name("hi"), d = name("hf"), f = name("hg"), g = name("hc");
                        auto cell = std::make_shared<jint>(v);
                        switch(r.below(4)) {
                        case 0:
                            c->Hook(e, a, [v](jint x) -> jint { return x + v; });
                            BAD(env->CallStaticIntMethod(jc, env->GetStaticMethodID(jc, a.c_str(), "(I)I"), 1) == 1 + v, "C18:hook", "wrong function");
                            break;
                        case 1:
                            c->HookInstanceFunction(e, b, [v](Base*, jint x) -> jint { return x + v; });
                            BAD(env->CallIntMethod(o, env->GetMethodID(jc, b.c_str(), k ? "(Lc18/Base;I)I" : "(I)I"), k ? (jint)0 : 1, (jint)1) == 1 + v, "C18:hook", "wrong function");
                            break;
                        case 2:
                            c->HookInstance(e, d, &Base::f);
                            c->HookInstanceGetterFunction(e, f, [v](ENV*, Object*) -> jint { return v; });
                            BAD(env->GetIntField(o, env->GetFieldID(jc, d.c_str(), "I")) == 11 && env->GetIntField(o, env->GetFieldID(jc, f.c_str(), "I")) == v, "C18:hook", "wrong field");
                            break;
                        default:
                            c->HookGetterFunction(e, g, [cell](ENV*, Class*) -> jint { return *cell; });
                            c->HookSetterFunction(e, g, [cell](ENV*, Class*, jint x) { *cell = x; });
                            auto id = env->GetStaticFieldID(jc, g.c_str(), "I");
                            BAD(env->GetStaticIntField(jc, id) == v, "C18:hook", "wrong field");
                            env->SetStaticIntField(jc, id, v + 1);
                            BAD(env->GetStaticIntField(jc, id) == v + 1, "C18:hook", "wrong field");
                        }
                        ++out.events["hooks in shared classes"];
                        break;
                    }
                    default: { // an own C++-registered function in an own class
                        auto mine = e->GetClass(fmt("c18/Own%d", t).c_str());
                        int v = r.below(100);
                        mine->Hook(e, "own", [v](jint x) -> jint { return x + v; });
                        auto jm = klass(e, mine);
                        BAD(env->CallStaticIntMethod(jm, env->GetStaticMethodID(jm, "own", "(I)I"), 1) == 1 + v, "C18:hook", "wrong function");
                        ++out.events["hooks"];
                    }
                    }
                    BAD(!env->ExceptionCheck(), "C18:exception", "pending after operation %d", op);
                    env->ExceptionClear();
                    env->PopLocalFrame(nullptr);
                }
                BAD(env->GetIntField(gown, env->GetFieldID(env->FindClass("c18/Derived"), "f", "I")) == lastf, "C18:field", "another value at the end");
                BAD(std::dynamic_pointer_cast<Base>(deref(ENV::FromJNIEnv(env), gown))->t.id == ownid, "C18:global", "another object at the end");
                env->DeleteGlobalRef(gown);
                while(dropped < 4) env->DeleteGlobalRef(slots[t * 4 + dropped++].global);
                jvm->DetachCurrentThread();
                sched = 0;
                done.fetch_add(1, std::memory_order_relaxed);
            });
        }
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(150);
        while(done.load(std::memory_order_relaxed) < threads) {
            if(std::chrono::steady_clock::now() > end) {
                vh::soft("C18:stuck", fmt("%d of %d threads do not come to an end: deadlock", threads - done.load(), threads));
                vh::write_result(true);
                fflush(stderr);
                _exit(0);
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
        for(auto& t : ts) t.join();
        // judge
        long added = 0;
        uint64_t h = 0;
        std::map<std::string, void*> all;
        for(auto& o : outs) {
            for(auto& b : o.bad) vh::soft(b.first, b.second);
            for(auto& e : o.events) vh::count(e.first, e.second);
            added += o.added.size();
            for(auto x : o.order) h = vh::mix(h, x);
            for(auto& d : o.ids) {
                auto it = all.emplace(d.first, d.second);
                if(!it.second) {
                    vh::count("identifiers compared");
                    REQ(it.first->second == d.second, "C18:different-results", "two threads got different results for %s", d.first.c_str());
                }
            }
        }
        // different keys, different results (classes: different objects)
        std::map<void*, std::string> inv;
        for(auto& x : all) if(x.second && x.first.compare(0, 6, "class ") == 0) {
            auto it = inv.emplace(x.second, x.first);
            REQ(it.second, "C18:same-result", "%s and %s are one", x.first.c_str(), it.first->second.c_str());
        }
        // and the same after the storm
        env0->PushLocalFrame(64);
        for(auto& x : all) if(x.first.compare(0, 6, "class ") == 0) {
            REQ((void*)env0->FindClass(x.first.c_str() + 6) == x.second, "C18:different-results", "%s is another one afterwards", x.first.c_str());
            env0->ExceptionClear();
        }
        env0->PopLocalFrame(nullptr);
        REQ(added == guarded, "C18:lost-update", "%ld of %ld increments", guarded, added);
        for(auto& s : slots) REQ(!env0->NewLocalRef((jobject)s.weak), "C18:weak", "object without references is alive");
        for(auto& s : slots) env0->DeleteWeakGlobalRef(s.weak);
        REQ(vm->globals.size() == globals_before - 2 * slots.size(), "C18:globals", "%zu global references instead of %zu", vm->globals.size(), globals_before - 2 * slots.size());
        vh::count("threads", threads);
        vh::distinct(h);
        }
        check_ledger("C18:lifetime");
        REQ(ledger()->living() == 0, "C18:kept", "%zu objects survive their machine", ledger()->living());
    });
    return vh::finish();
}
