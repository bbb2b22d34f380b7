// C14: monitors. Stress: plain data guarded by monitors, watched by ThreadSanitizer and ownership checks. Scripted
// histories: who has to wait, who may not have to wait.
#include "jh.h"
#include <chrono>
#include <future>
using namespace jh;
using namespace jnivm;

namespace {
    struct Box : Extends<Object> { jint f = 0; jint run(jint x) { return x + 1; } };
    constexpr int DEADLINE = 40; // seconds, for things which take microseconds

    // Ends the process if something which must not block does
    [[noreturn]] void stuck(const char* key, const std::string& what) {
        vh::soft(key, what);
        vh::write_result(true);
        fflush(stderr);
        _exit(0);
    }
    // Thread with a machine environment executing one closure at a time
    class Actor {
        std::mutex m;
        std::condition_variable cv;
        std::function<void()> job;
        bool busy = false, stop = false;
        std::thread th;
    public:
        ENV* e = nullptr;
        JNIEnv* env = nullptr;
        explicit Actor(jnivm::VM& vm) : th([this] {
            std::unique_lock<std::mutex> l(m);
            for(;;) {
                cv.wait(l, [this] { return busy || stop; });
                if(!busy) return;
                auto j = std::move(job);
                l.unlock();
                j();
                j = nullptr;
                l.lock();
                busy = false;
                cv.notify_all();
            }
        }) {
            start([&] { vm.GetJavaVM()->AttachCurrentThread(&env, nullptr); e = ENV::FromJNIEnv(env); });
            if(!wait()) stuck("C14:blocked", "attaching a thread blocks");
        }
        void start(std::function<void()> f) {
            std::lock_guard<std::mutex> l(m);
            job = std::move(f);
            busy = true;
            cv.notify_all();
        }
        bool wait(int ms = DEADLINE * 1000) {
            std::unique_lock<std::mutex> l(m);
            return cv.wait_for(l, std::chrono::milliseconds(ms), [this] { return !busy; });
        }
        void run(const char* what, std::function<void()> f) {
            start(std::move(f));
            if(!wait()) stuck("C14:blocked", what);
        }
        ~Actor() {
            {
                std::lock_guard<std::mutex> l(m);
                stop = true;
            }
            cv.notify_all();
            th.join();
        }
    };
    // What a monitor guards: plain memory
    struct Guarded {
        long owner = 0, depth = 0, counter = 0;
        long data[4] = {};
    };
    jobject make_object(vh::Rng& r, JNIEnv* env, ENV* e, int i) {
        switch(r.below(8)) {
        case 0: return (jobject)env->NewStringUTF("text"); // equal ones
        case 1: return (jobject)env->NewIntArray(3);
        case 2: return (jobject)env->FindClass(("c14/C" + std::to_string(i)).c_str());
        case 3: return (jobject)env->NewObjectArray(2, env->FindClass("c14/E"), nullptr);
        case 4: return env->NewDirectByteBuffer(&r, 4);
        case 5: return local(e, std::make_shared<Throwable>());
        default: return local(e, std::make_shared<Box>());
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C14");
    bool T = vh::S().thorough;
#ifdef VH_TSAN
    long stress = T ? 400 : 40, scripted = T ? 200 : 16;
    const int DEPTHS = 9; // deep ones take it long
#else
    long stress = T ? 400 : 32, scripted = T ? 1500 : 120;
    const int DEPTHS = 12;
#endif
    vh::run_cases("stress", 0, stress, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, false);
        auto e0 = vm.GetEnv().get();
        auto env0 = e0->GetJNIEnv();
        e0->GetClass<Box>("c14/Box");
        int N = 1 + r.below(5), threads = 2 + r.below(5);
        env0->PushLocalFrame(32);
        std::vector<jobject> objs;
        for(int i = 0; i < N; ++i) objs.push_back(env0->NewGlobalRef(make_object(r, env0, e0, i)));
        env0->PopLocalFrame(nullptr);
        std::vector<Guarded> g(N);
        struct Result { long entered = 0, contended = 0; std::vector<long> added; std::string bad; };
        std::vector<Result> res(threads);
        std::vector<std::thread> ts;
        std::atomic<int> ready { 0 }, done { 0 };
        int iters = 60 + r.below(120);
        int style = r.below(3);
        for(int t = 0; t < threads; ++t) {
            auto seed = r.next();
            ts.emplace_back([&, t, seed] {
                vh::Rng r(seed);
                auto& out = res[t];
                out.added.resize(N);
                JNIEnv* env;
                vm.GetJavaVM()->AttachCurrentThread(&env, nullptr);
                ++ready;
                while(ready < threads) std::this_thread::yield();
                auto pause = [&] {
                    if(style == 0) return;
                    if(style == 1 && r.chance(1, 2)) std::this_thread::yield();
                    if(style == 2 && r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
                };
                for(int it = 0; it < iters && out.bad.empty(); ++it) {
                    env->PushLocalFrame(16);
                    Refs refs(env);
                    // some monitors in ascending order, each entered some times
                    std::vector<int> held;
                    for(int i = r.below(N); i < N && held.size() < 3; i += 1 + r.below(3)) {
                        int times = 1 + r.below(3);
                        for(int k = 0; k < times; ++k) {
                            auto kind = r.below(RKINDS);
                            auto o = refs.make(env->NewLocalRef(objs[i]), kind);
                            if(env->MonitorEnter(o) != 0) { out.bad = "MonitorEnter failed"; return; }
                            auto& d = g[i];
                            if(k == 0) {
                                if(d.owner || d.depth) out.bad = fmt("thread %d entered a monitor which thread %ld holds", t, d.owner);
                                d.owner = t + 1;
                            } else if(d.owner != t + 1 || d.depth != k) out.bad = fmt("thread %d holds a monitor, but thread %ld is inside", t, d.owner);
                            d.depth = k + 1;
                            pause();
                        }
                        held.push_back(i);
                        ++out.entered;
                    }
                    for(auto i : held) {
                        auto& d = g[i];
                        for(auto& x : d.data) {
                            auto old = x;
                            if(x != d.counter) out.bad = fmt("guarded data of the previous holder is not visible: %ld, %ld", x, d.counter);
                            pause();
                            x = old + 1;
                        }
                        ++d.counter;
                        ++out.added[i];
                    }
                    if(r.chance(1, 3)) refs.release(); // leave through others
                    std::vector<int> order = held;
                    for(size_t x = 1; x < order.size(); ++x) std::swap(order[x], order[r.below(x + 1)]);
                    for(auto i : order) {
                        auto& d = g[i];
                        while(d.depth) {
                            if(d.owner != t + 1) out.bad = fmt("thread %d holds a monitor, but thread %ld is inside", t, d.owner);
                            auto o = refs.make(env->NewLocalRef(objs[i]), r.below(RKINDS));
                            bool last = !--d.depth;
                            if(last) d.owner = 0;
                            if(env->MonitorExit(o) != 0) out.bad = "MonitorExit failed";
                            if(last) break;
                            pause();
                        }
                    }
                    refs.release();
                    env->PopLocalFrame(nullptr);
                }
                vm.GetJavaVM()->DetachCurrentThread();
                ++done;
            });
        }
        auto end = std::chrono::steady_clock::now() + std::chrono::seconds(DEADLINE * 2);
        while(done < threads) {
            if(std::chrono::steady_clock::now() > end) stuck("C14:stuck", fmt("%d of %d threads do not get in and out of their monitors", threads - (int)done, threads));
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
        for(auto& t : ts) t.join();
        long total = 0;
        for(auto& x : res) {
            REQ(x.bad.empty(), "C14:exclusion", "%s", x.bad.c_str());
            total += x.entered;
        }
        uint64_t h = 0;
        for(int i = 0; i < N; ++i) {
            long sum = 0;
            for(auto& x : res) sum += x.added[i];
            REQ(sum == g[i].counter && sum == g[i].data[3], "C14:lost-update", "monitor %d: %ld increments, %ld counted", i, sum, g[i].counter);
            h = vh::mix(h, sum);
        }
        vh::count("stress entries", total);
        vh::distinct(h);
    });

    vh::run_cases("scripted", 100000, scripted, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto e0 = vm.GetEnv().get();
        auto env0 = e0->GetJNIEnv();
        auto box = e0->GetClass<Box>("c14/Box");
        box->HookInstanceFunction(e0, "run", &Box::run);
        box->Hook(e0, "stat", [](jint x) { return x + 2; });
        box->HookInstance(e0, "f", &Box::f);
        for(auto n : { "c14/E", "c14/D", "c14/C0", "c14/C1", "c14/C2", "c14/C3", "c14/C4", "c14/C5" }) e0->GetClass(n);
        Actor A(vm), B(vm), C(vm);
        int N = 3 + r.below(4);
        std::vector<jobject> objs;
        for(int i = 0; i < N; ++i) {
            objs.push_back(env0->NewGlobalRef(make_object(r, env0, e0, i)));
            for(int j = 0; j < i; ++j) if(env0->IsSameObject(objs[i], objs[j])) { env0->DeleteGlobalRef(objs[i]); objs.pop_back(); --N; --i; break; }
        }
        auto bx = env0->NewGlobalRef(local(e0, std::make_shared<Box>()));
        int fresh = 0;
        // one of everything a thread may do while others hold or want monitors
        auto everything = [&](Actor& X, int held) {
            auto env = X.env;
            auto e = X.e;
            env->PushLocalFrame(32);
            Refs refs(env);
            auto o = env->NewLocalRef(objs[held]);
            refs.make(o, r.below(RKINDS));
            auto n = "c14/fresh" + std::to_string(fresh++);
            env->FindClass(n.c_str());
            env->ExceptionClear();
            auto oc = env->GetObjectClass(o);
            env->IsInstanceOf(o, env->FindClass("c14/Box"));
            env->IsSameObject(o, bx);
            auto c = env->FindClass("c14/Box");
            auto m = env->GetMethodID(c, "run", "(I)I");
            SOFT(env->CallIntMethod(bx, m, 4) == 5, "C14:call", "wrong result");
            SOFT(env->CallStaticIntMethod(c, env->GetStaticMethodID(c, "stat", "(I)I"), 4) == 6, "C14:call", "wrong result");
            auto f = env->GetFieldID(c, "f", "I");
            env->SetIntField(bx, f, 3);
            SOFT(env->GetIntField(bx, f) == 3, "C14:field", "wrong value");
            if(oc) { env->GetMethodID(oc, "unknown", "()V"); env->GetStaticFieldID(oc, "unknown", "I"); }
            auto s = env->NewStringUTF("abc");
            env->GetStringLength(s);
            auto a = env->NewObjectArray(2, env->FindClass("c14/D"), o);
            SOFT(env->IsSameObject(env->GetObjectArrayElement(a, 1), o), "C14:array", "wrong element");
            auto ia = env->NewIntArray(4);
            env->ReleaseIntArrayElements(ia, env->GetIntArrayElements(ia, nullptr), 0);
            env->Throw((jthrowable)local(e, std::make_shared<Throwable>()));
            env->ExceptionClear();
            refs.release();
            env->PopLocalFrame(nullptr);
            vh::count("operations beside monitors");
        };
        auto ref = [&](JNIEnv* env, Refs& refs, int i) { return refs.make(env->NewLocalRef(objs[i]), r.below(RKINDS)); };
        uint64_t h = 0;
        int rounds = 3 + r.below(5);
        for(int round = 0; round < rounds; ++round) {
            int x = r.below(N), depth = r.chance(1, 12) ? (const int[]) { 31, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 32768, 66000 }[r.below(DEPTHS)] : 1 + r.below(4), y = (x + 1 + r.below(N - 1)) % N;
            int kind = r.below(4);
            h = vh::mix(h, kind * 100 + depth * 10 + x);
            vh::op("round %d: kind %d, monitor %d entered %d times", round, kind, x, depth);
            A.run("entering a free monitor blocks", [&] {
                A.env->PushLocalFrame(16);
                Refs refs(A.env);
                for(int d = 0; d < depth; ++d) SOFT(A.env->MonitorEnter(d < 6 ? ref(A.env, refs, x) : objs[x]) == 0, "C14:result", "MonitorEnter failed");
                refs.release();
                A.env->PopLocalFrame(nullptr);
            });
            auto release = [&](int n) {
                A.run("leaving a monitor blocks", [&] {
                    A.env->PushLocalFrame(16);
                    Refs refs(A.env);
                    for(int d = 0; d < n; ++d) SOFT(A.env->MonitorExit(d < 6 ? ref(A.env, refs, x) : objs[x]) == 0, "C14:result", "MonitorExit failed");
                    refs.release();
                    A.env->PopLocalFrame(nullptr);
                });
            };
            if(kind == 0) {
                // others go on, with other monitors too
                B.run("a thread is blocked although the monitor it enters is free", [&] {
                    B.env->PushLocalFrame(16);
                    Refs refs(B.env);
                    B.env->MonitorEnter(ref(B.env, refs, y));
                    everything(B, x);
                    B.env->MonitorExit(ref(B.env, refs, y));
                    refs.release();
                    B.env->PopLocalFrame(nullptr);
                });
                A.run("the holder of a monitor is blocked", [&] { everything(A, x); });
                if(r.chance(1, 2)) B.run("detaching and attaching blocks while a monitor is held", [&] {
                    vm.GetJavaVM()->DetachCurrentThread();
                    vm.GetJavaVM()->AttachCurrentThread(&B.env, nullptr);
                    B.e = ENV::FromJNIEnv(B.env);
                });
                release(depth);
                vh::count("independence rounds");
            } else {
                // one or two threads wait
                std::atomic<int> in { 0 };
                Guarded g;
                auto want = [&](Actor& X, int kindref, long me) {
                    X.start([&, kindref, me] {
                        X.env->PushLocalFrame(8);
                        Refs refs(X.env);
                        auto o = refs.make(X.env->NewLocalRef(objs[x]), kindref);
                        X.env->MonitorEnter(o);
                        SOFT(!g.owner, "C14:exclusion", "entered while another thread is inside");
                        g.owner = me;
                        ++in;
                        std::this_thread::sleep_for(std::chrono::microseconds(50));
                        SOFT(g.owner == me, "C14:exclusion", "another thread entered");
                        ++g.counter;
                        g.owner = 0;
                        X.env->MonitorExit(o);
                        refs.release();
                        X.env->PopLocalFrame(nullptr);
                    });
                };
                g.owner = 99; // A
                int waiters = kind == 1 ? 1 : 1 + r.below(2);
                want(B, r.below(RKINDS), 1);
                if(waiters == 2) want(C, r.below(RKINDS), 2);
                std::this_thread::sleep_for(std::chrono::microseconds(100 + r.below(2000)));
                REQ(in == 0, "C14:exclusion", "a second thread entered a held monitor");
                // blocked threads hold nothing up
                A.run("the holder is blocked by a waiting thread", [&] { everything(A, x); });
                if(waiters == 1) C.run("a third thread is blocked by a waiting thread", [&] { everything(C, x); });
                release(depth - 1);
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
                REQ(in == 0, "C14:early-release", "a second thread entered after %d of %d exits", depth - 1, depth);
                A.run("the holder is blocked", [&] { g.owner = 0; });
                release(1);
                if(!B.wait() || waiters == 2 && !C.wait()) stuck("C14:not-released", fmt("no waiting thread gets in after %d of %d exits", depth, depth));
                REQ(in == waiters && g.counter == waiters, "C14:exclusion", "%d entries of %d", (int)in, waiters);
                vh::count("waiting rounds");
            }
            vh::count(depth > 4 ? std::string("depth above 30") : "depth " + std::to_string(depth));
        }
        for(auto* X : { &A, &B, &C }) X->run("detaching blocks", [&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(h);
    });
    // One thread holds a great many monitors, another sees exactly those as taken
    vh::run_cases("many monitors", 200000, T ? 60 : 8, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, false);
        auto e0 = vm.GetEnv().get();
        auto env0 = e0->GetJNIEnv();
        e0->GetClass<Box>("c14/Box");
        Actor A(vm), B(vm);
#ifdef VH_TSAN
        int n = 40; // its deadlock detector follows 64 held locks at most
#else
        int n = (const int[]) { 40, 70, 140, 300, 700 }[r.below(5)];
#endif
        std::vector<jobject> objs;
        std::vector<int> depth(n);
        for(int k = 0; k < n; ++k) {
            env0->PushLocalFrame(4);
            int kind = r.below(8);
            objs.push_back(env0->NewGlobalRef(kind == 0 ? (jobject)env0->FindClass(("c14/X" + std::to_string(k)).c_str()) : kind == 1 ? (jobject)env0->NewStringUTF("text") : kind == 2 ? (jobject)env0->NewIntArray(k % 3)
                : kind == 3 ? (jobject)env0->FindClass(("[Lc14/X" + std::to_string(k) + ";").c_str()) : kind == 4 ? (jobject)env0->NewObjectArray(1, env0->FindClass("c14/Box"), nullptr) : local(e0, std::make_shared<Box>())));
            env0->PopLocalFrame(nullptr);
        }
        vh::op("%d monitors", n);
        std::vector<int> entries;
        for(int k = 0; k < n; ++k) if(r.chance(1, 2)) {
            depth[k] = 1 + r.below(3);
            entries.insert(entries.end(), depth[k], k);
        }
        auto shuffle = [&] { for(size_t k = 1; k < entries.size(); ++k) std::swap(entries[k], entries[r.below(k + 1)]); };
        shuffle();
        A.run("entering free monitors blocks", [&] { for(auto k : entries) SOFT(A.env->MonitorEnter(objs[k]) == 0, "C14:result", "MonitorEnter failed"); });
        auto free = [&](const char* when) {
            B.run(when, [&] {
                for(int k = 0; k < n; ++k) if(!depth[k]) {
                    B.env->MonitorEnter(objs[k]);
                    B.env->MonitorExit(objs[k]);
                    vh::count("free among many");
                }
            });
        };
        free("a free monitor blocks while another thread holds others");
        shuffle();
        size_t half = r.below(entries.size() + 1);
        auto leave = [&](size_t from, size_t to) {
            A.run("leaving a monitor blocks", [&] { for(size_t k = from; k < to; ++k) SOFT(A.env->MonitorExit(objs[entries[k]]) == 0, "C14:result", "MonitorExit failed"); });
            for(size_t k = from; k < to; ++k) --depth[entries[k]];
        };
        leave(0, half);
        free("a monitor left again blocks while others are held");
        int held = -1;
        for(int k = 0; k < n; ++k) if(depth[k] && (held < 0 || r.chance(1, 8))) held = k;
        std::atomic<bool> in { false };
        if(held >= 0) {
            B.start([&] { B.env->MonitorEnter(objs[held]); in = true; B.env->MonitorExit(objs[held]); });
            std::this_thread::sleep_for(std::chrono::microseconds(300 + r.below(2000)));
            REQ(!in, "C14:exclusion", "one of %d monitors still held was entered by another thread", n);
        }
        leave(half, entries.size());
        if(!B.wait()) stuck("C14:not-released", "a waiting thread does not get in after all monitors were left");
        free("a free monitor blocks after all were left");
        for(auto* X : { &A, &B }) X->run("detaching blocks", [&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(vh::mix(n, i));
    });
    return vh::finish();
}
