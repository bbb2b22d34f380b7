// C12: primitive arrays and direct buffers, against vectors.
#include "jh.h"
#include "prim.h"
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
using namespace jh;
using namespace jnivm;

namespace {
    // The table functions of one element type
    template<class T> struct P;
#define X(Name, T, m, d) template<> struct P<T> { \
        static constexpr const char* name = #Name; static constexpr const char* desc = d; typedef T##Array A; \
        static A make(JNIEnv* e, jsize n) { return e->New##Name##Array(n); } \
        static T* get(JNIEnv* e, A a, jboolean* c) { return e->Get##Name##ArrayElements(a, c); } \
        static void release(JNIEnv* e, A a, T* p, jint mode) { e->Release##Name##ArrayElements(a, p, mode); } \
        static void getr(JNIEnv* e, A a, jsize s, jsize n, T* b) { e->Get##Name##ArrayRegion(a, s, n, b); } \
        static void setr(JNIEnv* e, A a, jsize s, jsize n, const T* b) { e->Set##Name##ArrayRegion(a, s, n, b); } };
    PRIMS(X)
#undef X
    struct Sys {
        ENV* e;
        ENV* we;
        Worker* w;
        vh::Rng* r;
        std::shared_ptr<Class> k;
    };
    struct Arr {
        jobject ref = nullptr; // global
        std::string made;
        virtual ~Arr() {}
        virtual void step(Sys&) = 0;
        virtual void compare(Sys&, const char* after) = 0;
        virtual void release(Sys&) = 0;
    };
    template<class T> T value(vh::Rng& r) {
        T t;
        uint64_t x = r.chance(1, 6) ? (r.chance(1, 2) ? 0 : ~0ull) : r.next();
        if(std::is_same<T, jboolean>::value) x &= 1;
        memcpy(&t, &x, sizeof t);
        return t;
    }
    template<class T> bool same(const T* a, const T* b, size_t n) { return !n || !memcmp(a, b, n * sizeof(T)); }
    template<class T> struct TArr : Arr {
        std::vector<T> model;
        std::unique_ptr<T[]> foreign; // storage of arrays which do not own theirs
        T* pinned = nullptr;
        typedef typename P<T>::A A;

        static std::string d() { return std::string(P<T>::name) + "Array"; }
        static jsize length(vh::Rng& r) {
            switch(r.below(6)) {
            case 0: return r.below(3);
            case 1: return r.below(3000);
            case 2: {
                static const jsize at[] = { 127, 255, 256, 1024, 4096, 32767, 32768, 65535, 65536, 131072 };
                if(r.chance(1, 12)) return at[r.below(10)] + (jsize)r.below(5) - 2;
                return r.below(24);
            }
            default: return r.below(24);
            }
        }
        TArr(Sys& s) {
            auto& r = *s.r;
            auto env = s.e->GetJNIEnv();
            jsize n = length(r);
            env->PushLocalFrame(4);
            jobject o;
            std::vector<T> init(n);
            for(auto&& x : init) x = value<T>(r);
            switch(r.below(6)) {
            case 0: {
                made = "Array(vector)";
                model = init;
                o = local(s.e, std::make_shared<Array<T>>(init));
                break;
            }
            case 1: {
                made = "Array(data, length)";
                model = init;
                std::unique_ptr<T[]> p(new T[n]);
                std::copy(init.begin(), init.end(), p.get());
                o = local(s.e, std::make_shared<Array<T>>(p.get(), n));
                break;
            }
            case 2: {
                made = "Array(data, length, false)";
                model = init;
                foreign.reset(new T[n]);
                std::copy(init.begin(), init.end(), foreign.get());
                o = local(s.e, std::make_shared<Array<T>>(foreign.get(), n, false));
                break;
            }
            default:
                made = "New" + d();
                model.assign(n, T());
                // an allocator full of rubbish
                { std::vector<std::unique_ptr<char[]>> junk; for(int i = 0; i < 4; ++i) { junk.emplace_back(new char[n * sizeof(T) + 1]); memset(junk.back().get(), 0xd7, n * sizeof(T) + 1); } }
                o = (jobject)P<T>::make(env, n);
                REQ(o && !env->ExceptionCheck(), "C12:new", "%s of %d", made.c_str(), n);
            }
            vh::op("%s of %d", made.c_str(), n);
            ref = env->NewGlobalRef(o);
            // arrays made by native code have no class
            auto cls = made[0] == 'N' ? env->GetObjectClass(o) : nullptr;
            REQ(!cls && made[0] != 'N' || env->IsSameObject((jobject)cls, (jobject)env->FindClass((std::string("[") + P<T>::desc).c_str())), "C12:class", "%s: class %s", made.c_str(),
                std::dynamic_pointer_cast<Class>(deref(s.e, (jobject)cls))->nativeprefix.c_str());
            env->PopLocalFrame(nullptr);
            vh::count("arrays");
            compare(s, "creation");
        }
        // all views show the model
        void compare(Sys& s, const char* after) override {
            auto env = s.e->GetJNIEnv();
            auto a = (A)ref;
            jsize n = model.size();
            REQ(env->GetArrayLength(a) == n, "C12:length", "%s after %s: %d instead of %d", d().c_str(), after, env->GetArrayLength(a), n);
            auto p = P<T>::get(env, a, nullptr);
            REQ(same(p, model.data(), n), "C12:elements", "%s of %d (%s) after %s: element pointer shows other values", d().c_str(), n, made.c_str(), after);
            P<T>::release(env, a, p, JNI_ABORT);
            std::unique_ptr<T[]> b(new T[n]);
            P<T>::getr(env, a, 0, n, b.get());
            REQ(same(b.get(), model.data(), n), "C12:region", "%s of %d (%s) after %s: region shows other values", d().c_str(), n, made.c_str(), after);
            auto c = (T*)env->GetPrimitiveArrayCritical(a, nullptr);
            REQ(same(c, model.data(), n), "C12:critical", "%s of %d (%s) after %s: critical pointer shows other values", d().c_str(), n, made.c_str(), after);
            env->ReleasePrimitiveArrayCritical(a, c, JNI_ABORT);
            auto v = std::dynamic_pointer_cast<Array<T>>(deref(s.e, ref));
            REQ(v && v->getSize() == n, "C12:native-view", "%s after %s", d().c_str(), after);
            REQ(same(v->getArray(), model.data(), n), "C12:native-view", "%s of %d (%s) after %s: native view shows other values", d().c_str(), n, made.c_str(), after);
            for(jsize i = 0; i < n; i += 1 + n / 50) REQ(same(&(*v)[i], &model[i], 1), "C12:native-view", "%s after %s: element %d", d().c_str(), after, i);
            if(pinned) REQ(same(pinned, model.data(), n), "C12:pinned", "%s of %d after %s: earlier pointer shows other values", d().c_str(), n, after);
            REQ(!env->ExceptionCheck(), "C12:stray-exception", "%s after %s", d().c_str(), after);
            vh::count("comparisons");
        }
        void write(T* p) { // through any pointer to the elements
        }
        void step(Sys& s0) override {
            auto& r = *s0.r;
            Sys s = s0;
            bool other = r.chance(1, 4);
            if(other) s.e = s0.we;
            auto body = [&] {
                auto env = s.e->GetJNIEnv();
                env->PushLocalFrame(8);
                Refs refs(env);
                auto kind = r.below(RKINDS);
                auto a = (A)refs.make(env->NewLocalRef(ref), kind);
                jsize n = model.size();
                int op = r.below(10);
                vh::op("%s of %d: step %d through %s%s", d().c_str(), n, op, kind_name(kind), other ? " on the other thread" : "");
                switch(op) {
                case 0: case 1: case 2: { // region
                    bool set = r.chance(1, 2);
                    int64_t start, len;
                    static const jsize ext[] = { INT32_MAX, INT32_MIN, -1, 0, 1, INT32_MAX - 1, 0x40000000, -2 };
                    switch(r.below(9)) {
                    case 0: start = 0; len = n; break;
                    case 1: start = r.below(n + 1); len = n - start; break;
                    case 2: start = r.below(n + 1); len = n - start + 1 + r.below(2); break;
                    case 3: start = -1 - (int64_t)r.below(2); len = r.below(n + 3); break;
                    case 4: start = n + 1; len = r.below(2); break;
                    case 5: start = ext[r.below(8)]; len = ext[r.below(8)]; break;
                    default: start = r.below(n + 1); len = r.below(n - start + 1);
                    }
                    bool ok = start >= 0 && len >= 0 && start + len <= n;
                    vh::op("%s %lld+%lld", set ? "set" : "get", (long long)start, (long long)len);
                    // valid: an exact block. Invalid: a guarded one, which stays as it is
                    size_t m = ok ? len : 16;
                    std::unique_ptr<T[]> b(new T[m]), old(new T[m]);
                    for(size_t i = 0; i < m; ++i) old[i] = b[i] = value<T>(r);
                    if(set) P<T>::setr(env, a, start, len, b.get());
                    else P<T>::getr(env, a, start, len, b.get());
                    REQ((bool)env->ExceptionCheck() == !ok, "C12:region-exception", "%s of %d: %s region %lld+%lld", d().c_str(), n, set ? "set" : "get", (long long)start, (long long)len);
                    env->ExceptionClear();
                    if(set || !ok) REQ(same(b.get(), old.get(), m), "C12:buffer-changed", "%s of %d: %s region %lld+%lld", d().c_str(), n, set ? "set" : "get", (long long)start, (long long)len);
                    if(ok && set) std::copy(b.get(), b.get() + len, model.begin() + start);
                    if(ok && !set) REQ(same(b.get(), model.data() + start, len), "C12:region", "%s of %d: region %lld+%lld has other values", d().c_str(), n, (long long)start, (long long)len);
                    vh::count(ok ? set ? "region writes" : "region reads" : "bad regions");
                    break;
                }
                case 3: { // element pointer
                    jboolean copy = 5;
                    auto p = P<T>::get(env, a, &copy);
                    REQ(copy <= 1, "C12:is-copy", "%s", d().c_str());
                    auto q = P<T>::get(env, a, nullptr);
                    for(int x = 0; n && x < 5; ++x) {
                        auto i = r.below(n);
                        p[i] = model[i] = value<T>(r);
                        REQ(same(&q[i], &model[i], 1), "C12:two-pointers", "%s: second pointer does not show a write", d().c_str());
                    }
                    if(r.chance(1, 2)) {
                        P<T>::release(env, a, p, JNI_COMMIT);
                        for(int x = 0; n && x < 3; ++x) {
                            auto i = r.below(n);
                            p[i] = model[i] = value<T>(r);
                        }
                    }
                    P<T>::release(env, a, p, 0);
                    P<T>::release(env, a, q, 0);
                    vh::count("pointer writes");
                    break;
                }
                case 4: { // pin for later
                    if(!pinned) pinned = P<T>::get(env, a, nullptr);
                    else {
                        P<T>::release(env, a, pinned, r.chance(1, 2) ? 0 : JNI_ABORT);
                        pinned = nullptr;
                    }
                    break;
                }
                case 5: { // through the pinned one
                    if(pinned && n) {
                        auto i = r.below(n);
                        pinned[i] = model[i] = value<T>(r);
                        vh::count("pinned writes");
                    }
                    break;
                }
                case 6: {
                    jboolean copy = 5;
                    auto p = (T*)env->GetPrimitiveArrayCritical(a, &copy);
                    REQ(copy <= 1, "C12:is-copy", "%s", d().c_str());
                    for(int x = 0; n && x < 5; ++x) {
                        auto i = r.below(n);
                        p[i] = model[i] = value<T>(r);
                    }
                    env->ReleasePrimitiveArrayCritical(a, p, 0);
                    vh::count("critical writes");
                    break;
                }
                default: { // native code
                    auto cls = klass(s.e, s.k);
                    bool ran = false;
                    plan = [&](std::shared_ptr<Array<T>> v) {
                        ran = true;
                        SOFT(v && v->getSize() == n, "C12:native-view", "%s of %d: native size", d().c_str(), n);
                        if(!v || v->getSize() != n) return;
                        const Array<T>& c = *v;
                        for(int x = 0; n && x < 5; ++x) {
                            auto i = r.below(n);
                            SOFT(same(&c[i], &model[i], 1), "C12:native-view", "%s of %d: element %d", d().c_str(), n, (int)i);
                            auto val = value<T>(r);
                            if(r.chance(1, 2)) (*v)[i] = val;
                            else v->getArray()[i] = val;
                            model[i] = val;
                        }
                    };
                    auto id = env->GetStaticMethodID(cls, "touch", ("([" + std::string(P<T>::desc) + ")[" + P<T>::desc).c_str());
                    auto back = env->CallStaticObjectMethod(cls, id, a);
                    plan = nullptr;
                    REQ(ran && env->IsSameObject(back, (jobject)a), "C12:native-view", "%s: call returned another array", d().c_str());
                    vh::count("native writes");
                }
                }
                REQ(!env->ExceptionCheck(), "C12:stray-exception", "%s", d().c_str());
                refs.release();
                env->PopLocalFrame(nullptr);
            };
            if(other) s0.w->run(body);
            else body();
        }
        void release(Sys& s) override {
            // pinned pointers belong to the array
            s.e->GetJNIEnv()->DeleteGlobalRef(ref);
            if(foreign) {
                REQ(same(foreign.get(), model.data(), model.size()), "C12:foreign", "%s: storage which the array does not own changed on its death", d().c_str());
                foreign.reset();
            }
        }
        static thread_local std::function<void(std::shared_ptr<Array<T>>)> plan;
    };
    template<class T> thread_local std::function<void(std::shared_ptr<Array<T>>)> TArr<T>::plan;
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C12");
    bool T = vh::S().thorough;
    vh::run_cases("array histories", 0, T ? 8000 : 600, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, r.chance(1, 2));
        Worker w;
        Sys s { vm.GetEnv().get(), nullptr, &w, &r, nullptr };
        auto env = s.e->GetJNIEnv();
        w.run([&] { JNIEnv* x; vm.GetJavaVM()->AttachCurrentThread(&x, nullptr); s.we = ENV::FromJNIEnv(x); });
        s.k = s.e->GetClass("c12/K");
#define X(Name, Ty, m, d) s.k->Hook(s.e, "touch", [](std::shared_ptr<Array<Ty>> a) { TArr<Ty>::plan(a); return a; });
        PRIMS(X)
#undef X
        std::vector<std::unique_ptr<Arr>> arrs;
        enum { vh_Boolean, vh_Byte, vh_Char, vh_Short, vh_Int, vh_Long, vh_Float, vh_Double };
        auto add = [&] {
            switch(r.below(8)) {
#define X(Name, Ty, m, d) case vh_##Name: arrs.emplace_back(new TArr<Ty>(s)); break;
            PRIMS(X)
#undef X
            }
        };
        uint64_t h = 0;
        int n = 30 + r.below(50);
        for(int x = 0; x < n; ++x) {
            if(arrs.empty() || arrs.size() < 9 && r.chance(1, 4)) {
                add();
                h = vh::mix(h, vh::hash(arrs.back()->made));
            }
            else if(r.chance(1, 20)) {
                auto y = r.below(arrs.size());
                arrs[y]->release(s);
                arrs.erase(arrs.begin() + y);
            } else {
                auto y = r.below(arrs.size());
                arrs[y]->step(s);
                h = vh::mix(h, y);
                if(r.chance(1, 10)) {
                    env->PushLocalFrame(2);
                    auto bad = -1 - (jsize)r.below(5);
                    if(r.chance(1, 3)) bad = INT32_MIN + (jsize)r.below(3);
                    jobject got = nullptr;
                    switch(r.below(8)) {
#define X(Name, Ty, m, d) case vh_##Name: got = (jobject)env->New##Name##Array(bad); break;
                    PRIMS(X)
#undef X
                    }
                    REQ(!got && env->ExceptionCheck(), "C12:negative-length", "array of %d", bad);
                    env->ExceptionClear();
                    env->PopLocalFrame(nullptr);
                }
            }
            for(auto& a : arrs) a->compare(s, "a step");
        }
        for(auto& a : arrs) a->release(s);
        w.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(h);
    });
    // Buffers over memory which nobody may touch
    vh::run_cases("direct buffers", 100000, T ? 1000 : 60, [&](vh::Rng& r, long i) {
        size_t page = sysconf(_SC_PAGESIZE);
        auto guarded = (char*)mmap(nullptr, page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        std::vector<std::unique_ptr<char[]>> mem;
        struct Buf { jobject ref; void* a; jlong cap; size_t heap; };
        std::vector<Buf> bufs;
        {
            jnivm::VM vm(false, r.chance(1, 2));
            auto e = vm.GetEnv().get();
            auto env = e->GetJNIEnv();
            int n = 5 + r.below(30);
            for(int x = 0; x < n; ++x) {
                Buf b;
                b.heap = -1;
                switch(r.below(4)) {
                case 0: b.a = guarded + r.below(page); b.cap = r.below(page); break;
                case 1: b.a = nullptr; b.cap = 0; break;
                case 2: b.a = (void*)(uintptr_t)r.next(); b.cap = (jlong)(r.next() >> 1); break;
                default: {
                    size_t len = 1 + r.below(200);
                    mem.emplace_back(new char[len]);
                    memset(mem.back().get(), (char)mem.size(), len);
                    __asan_poison_memory_region(mem.back().get(), len);
                    b.a = mem.back().get();
                    b.cap = len;
                    b.heap = mem.size() - 1;
                }
                }
                env->PushLocalFrame(4);
                vh::op("buffer %p %lld", b.a, (long long)b.cap);
                auto o = env->NewDirectByteBuffer(b.a, b.cap);
                REQ(o, "C12:buffer", "null");
                b.ref = env->NewGlobalRef(o);
                bufs.push_back(b);
                vh::distinct(vh::mix((uintptr_t)b.a, b.cap));
                env->PopLocalFrame(nullptr);
                for(auto& b : bufs) {
                    Refs refs(env);
                    env->PushLocalFrame(8);
                    auto o = refs.make(env->NewLocalRef(b.ref), r.below(RKINDS));
                    REQ(env->GetDirectBufferAddress(o) == b.a, "C12:buffer-address", "%p instead of %p", env->GetDirectBufferAddress(o), b.a);
                    REQ(env->GetDirectBufferCapacity(o) == b.cap, "C12:buffer-capacity", "%lld instead of %lld", (long long)env->GetDirectBufferCapacity(o), (long long)b.cap);
                    refs.release();
                    env->PopLocalFrame(nullptr);
                    vh::count("buffer reads");
                }
                if(r.chance(1, 4)) {
                    auto y = r.below(bufs.size());
                    env->DeleteGlobalRef(bufs[y].ref);
                    bufs.erase(bufs.begin() + y);
                }
            }
        }
        for(size_t k = 0; k < mem.size(); ++k) {
            __asan_unpoison_memory_region(mem[k].get(), 1);
            REQ(mem[k][0] == (char)(k + 1), "C12:buffer-memory", "memory of a buffer changed");
        }
        munmap(guarded, page);
    });
    return vh::finish();
}
