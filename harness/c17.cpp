// C17: attaching and detaching threads, environments, function-table hooks.
#include "jh.h"
#include <baron/baron.h>
#include <fake-jni/fake-jni.h>
using namespace jh;
using namespace jnivm;

namespace {
    // Objects whose destructor uses the machine, as the thread which releases them
    struct User : Extends<Object> {
        Track t;
        JavaVM* vm = nullptr;
        std::atomic<bool>* machine_alive = nullptr;
        JNIEnv* expect = nullptr; // environment the releasing thread has (null: not checked)
        static thread_local JNIEnv* current;
        static std::atomic<long> used;
        ~User() {
            if(!vm || !*machine_alive) return;
            JNIEnv* env = nullptr;
            vm->GetEnv((void**)&env, JNI_VERSION_1_6);
            SOFT(env, "C17:destructor", "no environment in a destructor");
            if(!env) return;
            if(current) SOFT(env == current, "C17:destructor", "another environment in a destructor");
            auto c = env->FindClass("c17/Box");
            SOFT(c, "C17:destructor", "no class in a destructor");
            env->PushLocalFrame(4);
            auto s = env->NewStringUTF("x");
            auto g = env->NewGlobalRef((jobject)s);
            SOFT(env->GetStringLength((jstring)g) == 1, "C17:destructor", "wrong length in a destructor");
            env->DeleteGlobalRef(g);
            env->PopLocalFrame(nullptr);
            env->NewStringUTF("left behind");
            ++used;
        }
    };
    thread_local JNIEnv* User::current = nullptr;
    std::atomic<long> User::used { 0 };
    struct Box : Extends<Object> { Track t; };

    // Hooks: each wraps two entries of the table
    constexpr int HOOKS = 12;
    thread_local std::vector<int> log;
    jint (*prevVersion[HOOKS])(JNIEnv*);
    jsize (*prevLength[HOOKS])(JNIEnv*, jarray);
    template<int I> struct Hook {
        static jint version(JNIEnv* e) { log.push_back(I); return prevVersion[I](e); }
        static jsize length(JNIEnv* e, jarray a) { log.push_back(100 + I); return prevLength[I](e, a) + 1000; }
        static void install(JNINativeInterface& n, int which) {
            if(which & 1) { prevVersion[I] = n.GetVersion; n.GetVersion = version; }
            if(which & 2) { prevLength[I] = n.GetArrayLength; n.GetArrayLength = length; }
        }
    };
    template<int... I> std::vector<void (*)(JNINativeInterface&, int)> installers(std::integer_sequence<int, I...>) { return { Hook<I>::install... }; }

    struct MyFake : FakeJni::Jvm { using VM::AddHook; VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { using VM::AddHook; VM* vm() { return this; } };

    struct Thr {
        std::unique_ptr<Worker> w; // none: the main thread
        JNIEnv* env = nullptr;     // attached
        size_t hooks = 0;          // number of hooks at creation
        std::vector<std::vector<int>> frames; // ids of local objects
        std::vector<jobject> refs;
        int pending = -1;          // id of a payload
        pthread_t self {};
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C17");
    bool T = vh::S().thorough;
    auto inst = installers(std::make_integer_sequence<int, HOOKS>());
    vh::run_cases("attach histories", 0, T ? 8000 : 600, [&](vh::Rng& r, long i) {
        new_ledger();
        std::atomic<bool> machine_alive { true };
        {
        // three kinds of machines
        int kind = i % 3;
        std::unique_ptr<jnivm::VM> plain;
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<MyBaron> baron;
        jnivm::VM* vm;
        JavaVM* jvm;
        std::function<void(std::function<void(JNINativeInterface&)>&&)> addhook;
        // machines with hooks before their first environment
        if(kind == 0) { plain.reset(new jnivm::VM(false, r.chance(1, 2))); vm = plain.get(); jvm = vm->GetJavaVM(); addhook = [&](auto&& f) { plain->AddHook(std::move(f)); }; }
        else if(kind == 1) { fake.reset(new MyFake); vm = fake->vm(); jvm = fake.get(); addhook = [&](auto&& f) { fake->AddHook(std::move(f)); }; }
        else { baron.reset(new MyBaron); vm = baron->vm(); jvm = baron.get(); addhook = [&](auto&& f) { baron->AddHook(std::move(f)); }; }
        std::vector<int> hooks; // what each replaces
        const int NT = 4;
        Thr th[NT];
        for(int t = 1; t < NT; ++t) th[t].w.reset(new Worker);
        auto on = [&](int t, std::function<void()> f) { if(t) th[t].w->run(f); else f(); };
        for(int t = 0; t < NT; ++t) on(t, [&] { th[t].self = pthread_self(); });
        auto attached = [&](int t, JNIEnv* env) {
            auto& x = th[t];
            if(!x.env) {
                for(int u = 0; u < NT; ++u) REQ(th[u].env != env, "C17:shared", "threads %d and %d have the same environment", t, u);
                x.env = env;
                x.hooks = hooks.size();
                x.frames.assign(1, {});
                vh::count("attaches");
            } else {
                REQ(x.env == env, "C17:unstable", "thread %d attached again has another environment", t);
                vh::count("repeated attaches");
            }
        };
        {
            JNIEnv* env = nullptr;
            REQ(jvm->GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env, "C17:creator", "the creating thread has no environment");
            attached(0, env);
            ENV::FromJNIEnv(env)->GetClass<Box>("c17/Box");
            ENV::FromJNIEnv(env)->GetClass<User>("c17/User");
        }
        struct G { jobject ref; int id; bool weak; };
        std::vector<G> globals;
        auto payload = [&](JNIEnv* env) -> std::shared_ptr<Object> {
            if(r.chance(1, 3)) {
                auto p = std::make_shared<User>();
                p->vm = jvm;
                p->machine_alive = &machine_alive;
                return p;
            }
            return std::make_shared<Box>();
        };
        auto ident = [](Object* o) { auto b = dynamic_cast<Box*>(o); return b ? b->t.id : dynamic_cast<User*>(o)->t.id; };
        // expected liveness: held by a frame, a global or a pending exception
        auto verify = [&](const char* after) {
            std::set<int> alive;
            for(auto& t : th) for(auto& f : t.frames) alive.insert(f.begin(), f.end());
            for(auto& g : globals) if(!g.weak) alive.insert(g.id);
            for(auto& t : th) if(t.pending >= 0) alive.insert(t.pending);
            auto l = ledger();
            for(size_t id = 0; id < l->state.size(); ++id)
                REQ(l->alive(id) == (bool)alive.count(id), alive.count(id) ? "C17:lost" : "C17:kept", "after %s: object %zu is %s", after, id, alive.count(id) ? "destroyed" : "still alive");
            for(int t = 0; t < NT; ++t) if(th[t].env) on(t, [&] {
                auto& x = th[t];
                auto env = x.env;
                JavaVM* back = nullptr;
                REQ(env->GetJavaVM(&back) == 0, "C17:machine", "GetJavaVM failed");
                REQ(jnivm::VM::FromJavaVM(back) == vm, "C17:machine", "after %s: thread %d's environment belongs to another machine", after, t);
                REQ(ENV::FromJNIEnv(env)->GetVM() == vm && ENV::FromJNIEnv(env)->GetJNIEnv()->functions == env->functions, "C17:machine", "after %s: environment of thread %d", after, t);
                REQ((bool)env->ExceptionCheck() == (x.pending >= 0), "C17:pending", "after %s: thread %d", after, t);
                // hooks
                log.clear();
                env->GetVersion();
                std::vector<int> want;
                for(int h = (int)x.hooks - 1; h >= 0; --h) if(hooks[h] & 1) want.push_back(h);
                REQ(log == want, "C17:hooks", "after %s: thread %d ran %zu hooks instead of %zu of its creation, or in another order", after, t, log.size(), want.size());
                log.clear();
                int add = 0;
                env->PushLocalFrame(2);
                auto len = env->GetArrayLength((jarray)env->NewIntArray(3));
                env->PopLocalFrame(nullptr);
                want.clear();
                for(int h = (int)x.hooks - 1; h >= 0; --h) if(hooks[h] & 2) { want.push_back(100 + h); add += 1000; }
                REQ(log == want && len == 3 + add, "C17:hooks", "after %s: thread %d ran %zu hooks of another entry instead of %zu", after, t, log.size(), want.size());
                // locals are usable
                for(auto o : x.refs) REQ(env->IsSameObject(o, o) && env->GetObjectClass(o), "C17:local", "after %s: a local reference of thread %d is broken", after, t);
            });
            for(auto& g : globals) for(int t = 0; t < NT; ++t) if(th[t].env && r.chance(1, 3)) on(t, [&] {
                auto env = th[t].env;
                env->PushLocalFrame(2);
                bool live = alive.count(g.id);
                auto o = deref(ENV::FromJNIEnv(env), g.ref);
                REQ((bool)o == live && (!live || ident(o.get()) == g.id), "C17:global", "after %s: a %s reference seen by thread %d", after, g.weak ? "weak" : "global", t);
                env->PopLocalFrame(nullptr);
            });
            vh::count("verifications");
        };
        uint64_t h = kind;
        int steps = 40 + r.below(60);
        for(int s = 0; s < steps; ++s) {
            int t = r.below(NT), op = r.below(16);
            auto& x = th[t];
            h = vh::mix(h, t * 20 + op);
            const char* what = "";
            auto userenv = [&] { User::current = x.env; };
            if(op <= 2) {
                what = "attaching";
                vh::op("thread %d attaches (%d)", t, op);
                on(t, [&] {
                    userenv();
                    JNIEnv* env = nullptr;
                    jint res = op == 0 ? jvm->AttachCurrentThread(&env, nullptr) : op == 1 ? jvm->AttachCurrentThreadAsDaemon(&env, nullptr) : jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
                    REQ(res == JNI_OK && env, "C17:attach", "result %d", res);
                    attached(t, env);
                    REQ(vm->GetEnv().get() == ENV::FromJNIEnv(env) && vm->GetJNIEnv() && ENV::FromJNIEnv(vm->GetJNIEnv()) == ENV::FromJNIEnv(env), "C17:attach", "the machine knows another environment");
                    if(kind) REQ(ENV::FromJNIEnv(FakeJni::JniEnv::getCurrentEnv()) == ENV::FromJNIEnv(env), "C17:attach", "the current environment is another one");
                });
            } else if(op == 3) {
                what = "detaching";
                vh::op("thread %d detaches", t);
                on(t, [&] {
                    userenv();
                    REQ(jvm->DetachCurrentThread() == JNI_OK, "C17:detach", "failed");
                    User::current = nullptr;
                    if(kind) REQ(!FakeJni::JniEnv::getCurrentEnv(), "C17:detach", "a detached thread has a current environment");
                });
                if(x.env) vh::count(x.pending >= 0 ? "detaches with exception" : x.refs.size() ? "detaches with references" : "detaches");
                else vh::count("detaches of detached");
                x.env = nullptr;
                x.frames.clear();
                x.refs.clear();
                x.pending = -1;
            } else if(op == 15) {
                // the thread ends, another one takes its place; only of plain machines, threads have to detach first
                if(!t || (!kind && x.env)) continue;
                what = "a thread ended";
                vh::op("thread %d ends%s", t, x.env ? " attached" : "");
                vh::count(!x.env ? "ends of detached threads" : x.frames.size() > 1 ? "ends of attached threads in frames" : x.pending >= 0 ? "ends of attached threads with exception" : "ends of attached threads");
                if(x.env && x.frames.size() > 1 && x.frames.back().empty()) vh::count("ends of attached threads in empty frames");
                on(t, [&] { userenv(); });
                x.w.reset();
                x.w.reset(new Worker);
                x.env = nullptr;
                x.frames.clear();
                x.refs.clear();
                x.pending = -1;
                on(t, [&] {
                    x.self = pthread_self();
                    if(kind) REQ(!FakeJni::JniEnv::getCurrentEnv(), "C17:detach", "a new thread has a current environment");
                });
            } else if(op == 4) {
                if((int)hooks.size() >= HOOKS) continue;
                what = "adding a hook";
                int which = 1 + r.below(3), n = hooks.size();
                vh::op("hook %d replaces %d", n, which);
                auto f = inst[n];
                addhook([f, which](JNINativeInterface& n) { f(n, which); });
                hooks.push_back(which);
                vh::count("hooks");
            } else if(!x.env) {
                continue;
            } else if(op <= 8) {
                what = "a local reference";
                on(t, [&] {
                    auto p = payload(x.env);
                    vh::op("thread %d: object %d", t, ident(p.get()));
                    x.refs.push_back(local(ENV::FromJNIEnv(x.env), p));
                    x.frames.back().push_back(ident(p.get()));
                });
            } else if(op == 9) {
                what = "a frame";
                vh::op("thread %d: frame", t);
                if(x.frames.size() > 1 && r.chance(1, 2)) {
                    on(t, [&] { userenv(); x.env->PopLocalFrame(nullptr); });
                    x.refs.resize(x.refs.size() - x.frames.back().size());
                    x.frames.pop_back();
                } else {
                    on(t, [&] { x.env->PushLocalFrame(r.below(20)); });
                    x.frames.push_back({});
                }
            } else if(op <= 11) {
                if(x.refs.empty()) continue;
                what = "a global reference";
                G g;
                g.weak = r.chance(1, 3);
                on(t, [&] {
                    auto o = r.pick(x.refs);
                    g.id = ident(deref(ENV::FromJNIEnv(x.env), o).get());
                    g.ref = g.weak ? (jobject)x.env->NewWeakGlobalRef(o) : x.env->NewGlobalRef(o);
                });
                vh::op("thread %d: %s reference to %d", t, g.weak ? "weak" : "global", g.id);
                globals.push_back(g);
                vh::count("global references");
            } else if(op == 12) {
                if(globals.empty()) continue;
                what = "deleting a global reference";
                int n = r.below(globals.size());
                vh::op("thread %d: delete reference to %d", t, globals[n].id);
                on(t, [&] { userenv(); if(globals[n].weak) x.env->DeleteWeakGlobalRef(globals[n].ref); else x.env->DeleteGlobalRef(globals[n].ref); });
                globals.erase(globals.begin() + n);
            } else if(op == 13) {
                what = "throwing";
                on(t, [&] {
                    userenv();
                    struct Exc : Extends<Throwable> { Track t; };
                    auto e = std::make_shared<Exc>();
                    x.env->PushLocalFrame(2);
                    vh::op("thread %d: throw %d", t, e->t.id);
                    x.env->Throw((jthrowable)local(ENV::FromJNIEnv(x.env), e));
                    x.env->PopLocalFrame(nullptr);
                    x.pending = e->t.id;
                });
                vh::count("throws");
            } else {
                what = "clearing";
                vh::op("thread %d: clear", t);
                on(t, [&] { x.env->ExceptionClear(); });
                x.pending = -1;
            }
            verify(what);
        }
        // a new thread, which ends again
        if(r.chance(1, 2)) {
            int n = 1 + r.below(3);
            for(int k = 0; k < n; ++k) {
                std::thread([&] {
                    JNIEnv* env = nullptr;
                    jvm->AttachCurrentThread(&env, nullptr);
                    for(auto& x : th) SOFT(x.env != env, "C17:shared", "a new thread has another thread's environment");
                    env->NewStringUTF("x");
                    local(ENV::FromJNIEnv(env), std::make_shared<Box>());
                    if(kind == 0 || r.chance(1, 2)) jvm->DetachCurrentThread();
                }).join();
                vh::count("short threads");
            }
            verify("threads came and went");
        }
        for(int t = NT - 1; t >= 0; --t) if(th[t].env) on(t, [&] {
            User::current = th[t].env;
            if(t) jvm->DetachCurrentThread();
            User::current = nullptr;
            if(t) { th[t].env = nullptr; th[t].frames.clear(); th[t].refs.clear(); th[t].pending = -1; }
        });
        verify("detaching all");
        machine_alive = false;
        vh::distinct(h);
        }
        check_ledger("C17:lifetime");
        REQ(ledger()->living() == 0, "C17:kept", "%zu objects survive their machine", ledger()->living());
        vh::count("destructors using the machine", User::used.exchange(0));
    });
    // Many threads attached at the same time
    vh::run_cases("crowds", 100000, T ? 120 : 15, [&](vh::Rng& r, long i) {
        new_ledger();
        {
        int kind = i % 3;
        std::unique_ptr<jnivm::VM> plain;
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<MyBaron> baron;
        jnivm::VM* vm;
        JavaVM* jvm;
        if(kind == 0) { plain.reset(new jnivm::VM(false, r.chance(1, 2))); vm = plain.get(); jvm = vm->GetJavaVM(); }
        else if(kind == 1) { fake.reset(new MyFake); vm = fake->vm(); jvm = fake.get(); }
        else { baron.reset(new MyBaron); vm = baron->vm(); jvm = baron.get(); }
        {
            JNIEnv* env = nullptr;
            jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
            ENV::FromJNIEnv(env)->GetClass<Box>("c17/Box");
        }
        int n = (const int[]) { 20, 33, 65, 90, 130 }[r.below(5)];
        struct One {
            JNIEnv* env = nullptr;
            std::vector<jobject> refs;
            std::vector<int> ids;
            bool pending = false;
            std::unique_ptr<Worker> w;
        };
        std::vector<One> th(n);
        for(auto& t : th) t.w.reset(new Worker);
        vh::op("%d threads", n);
        std::map<JNIEnv*, int> envs;
        auto attach = [&](int t) {
            auto& x = th[t];
            int objs = r.below(5);
            bool pend = r.chance(1, 3);
            x.w->run([&] {
                JNIEnv* env = nullptr;
                REQ(jvm->AttachCurrentThread(&env, nullptr) == JNI_OK && env, "C17:attach", "thread %d of %d", t, n);
                x.env = env;
                for(int k = 0; k < objs; ++k) {
                    auto p = std::make_shared<Box>();
                    x.ids.push_back(p->t.id);
                    x.refs.push_back(local(ENV::FromJNIEnv(env), p));
                }
                if(pend) env->ThrowNew(env->FindClass("java/lang/Throwable"), "x");
                x.pending = pend;
            });
            REQ(envs.emplace(x.env, t).second, "C17:shared", "threads %d and %d of %d have the same environment", t, envs[x.env], n);
        };
        auto detach = [&](int t) {
            auto& x = th[t];
            x.w->run([&] { REQ(jvm->DetachCurrentThread() == JNI_OK, "C17:detach", "thread %d of %d", t, n); });
            envs.erase(x.env);
            for(auto id : x.ids) REQ(!ledger()->alive(id), "C17:kept", "a local object of a detached thread, one of %d, is alive", n);
            x.env = nullptr;
            x.ids.clear();
            x.refs.clear();
            x.pending = false;
        };
        auto verify = [&] {
            for(int t = 0; t < n; ++t) if(th[t].env) {
                auto& x = th[t];
                x.w->run([&] {
                    JNIEnv* env = nullptr;
                    REQ(jvm->GetEnv((void**)&env, JNI_VERSION_1_6) == JNI_OK && env == x.env, "C17:unstable", "thread %d of %d has another environment", t, n);
                    REQ((bool)env->ExceptionCheck() == x.pending, "C17:pending", "thread %d of %d", t, n);
                    for(size_t k = 0; k < x.refs.size(); ++k) {
                        REQ(ledger()->alive(x.ids[k]), "C17:lost", "a local object of thread %d of %d", t, n);
                        auto b = std::dynamic_pointer_cast<Box>(deref(ENV::FromJNIEnv(env), x.refs[k]));
                        REQ(b && b->t.id == x.ids[k], "C17:local", "a reference of thread %d of %d", t, n);
                    }
                });
                vh::count("threads of crowds");
            }
        };
        for(int t = 0; t < n; ++t) attach(t);
        verify();
        for(int k = 0; k < n / 2; ++k) {
            int t = r.below(n);
            if(th[t].env) detach(t);
        }
        verify();
        for(int t = n; t-- > 0;) if(!th[t].env && r.chance(2, 3)) attach(t);
        verify();
        for(int t = 0; t < n; ++t) if(th[t].env) detach(t);
        REQ(ledger()->living() == 0, "C17:kept", "%zu objects survive %d threads", ledger()->living(), n);
        vh::distinct(vh::mix(n, r.s));
        }
        check_ledger("C17:lifetime");
    });
    return vh::finish();
}
