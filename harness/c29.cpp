// C29: environments of own types, replaced function tables of environments and machines.
#include "jh.h"
#include <atomic>
using namespace jh;
using namespace jnivm;

namespace {
    const int V = 3; // variants of each replaced entry
    const int VMS = 3, TH = 3; // thread 0 is the main thread
    // What replaced entries saw
    struct Ran { int entry, variant; void* env; };
    thread_local std::vector<Ran> ran;
    const JNINativeInterface& orig() { static const JNINativeInterface t = VM::GetNativeInterfaceTemplate<false>(); return t; }
    JNIInvokeInterface invoke_orig;

    // Entry N of the table: how to replace it by variant K, which notes itself and does what the original does
#define ENTRIES(X) \
    X(0, GetVersion, jint, (JNIEnv* e), (e)) \
    X(1, FindClass, jclass, (JNIEnv* e, const char* n), (e, n)) \
    X(2, NewStringUTF, jstring, (JNIEnv* e, const char* s), (e, s)) \
    X(3, GetStringLength, jsize, (JNIEnv* e, jstring s), (e, s)) \
    X(4, ExceptionCheck, jboolean, (JNIEnv* e), (e)) \
    X(5, NewGlobalRef, jobject, (JNIEnv* e, jobject o), (e, o)) \
    X(6, DeleteGlobalRef, void, (JNIEnv* e, jobject o), (e, o)) \
    X(7, IsSameObject, jboolean, (JNIEnv* e, jobject a, jobject b), (e, a, b)) \
    X(8, CallStaticIntMethodA, jint, (JNIEnv* e, jclass c, jmethodID m, jvalue* v), (e, c, m, v)) \
    X(9, GetStaticIntField, jint, (JNIEnv* e, jclass c, jfieldID f), (e, c, f)) \
    X(10, NewIntArray, jintArray, (JNIEnv* e, jsize n), (e, n)) \
    X(11, GetObjectRefType, jobjectRefType, (JNIEnv* e, jobject o), (e, o)) \
    X(12, PushLocalFrame, jint, (JNIEnv* e, jint n), (e, n)) \
    X(13, GetJavaVM, jint, (JNIEnv* e, JavaVM** v), (e, v))
    const int ENTRIES_N = 14;
#define X(N, F, R, params, args) template<int K> R own##F params { ran.push_back({ N, K, e }); return orig().F args; }
    ENTRIES(X)
#undef X
    // k < 0: the original
    void put(JNINativeInterface& t, int entry, int k) {
        switch(entry) {
#define X(N, F, R, params, args) case N: t.F = k == 0 ? own##F<0> : k == 1 ? own##F<1> : k == 2 ? own##F<2> : orig().F; break;
        ENTRIES(X)
#undef X
        }
    }
    const char* ename(int e) {
        static const char* n[] = {
#define X(N, F, R, params, args) #F,
            ENTRIES(X)
#undef X
        };
        return n[e];
    }
    // Entries of the invocation table
    const int INV = 3;
    const char* iname[] = { "AttachCurrentThread", "DetachCurrentThread", "GetEnv" };
    template<int K> jint ownAttach(JavaVM* v, JNIEnv** e, void* a) { ran.push_back({ 100, K, v }); return invoke_orig.AttachCurrentThread(v, e, a); }
    template<int K> jint ownDetach(JavaVM* v) { ran.push_back({ 101, K, v }); return invoke_orig.DetachCurrentThread(v); }
    template<int K> jint ownGetEnv(JavaVM* v, void** e, jint n) { ran.push_back({ 102, K, v }); return invoke_orig.GetEnv(v, e, n); }
    void iput(JNIInvokeInterface& t, int entry, int k) {
        switch(entry) {
        case 0: t.AttachCurrentThread = k == 0 ? ownAttach<0> : k == 1 ? ownAttach<1> : k == 2 ? ownAttach<2> : invoke_orig.AttachCurrentThread; break;
        case 1: t.DetachCurrentThread = k == 0 ? ownDetach<0> : k == 1 ? ownDetach<1> : k == 2 ? ownDetach<2> : invoke_orig.DetachCurrentThread; break;
        default: t.GetEnv = k == 0 ? ownGetEnv<0> : k == 1 ? ownGetEnv<1> : k == 2 ? ownGetEnv<2> : invoke_orig.GetEnv;
        }
    }

    struct MyEnv : ENV {
        Track t;
        int serial;
        MyEnv(VM* v, const JNINativeInterface& n, int s) : ENV(v, n), serial(s) {}
        using ENV::OverrideJNINativeInterface;
    };
    using Table = std::vector<int>; // per entry: variant or -1
    struct MyVM : VM {
        int created = 0;
        Table base = Table(ENTRIES_N, -1); // what it gives to new environments by itself
        std::vector<ENV*> made;
        bool hookit;
        explicit MyVM(bool null, const Table& base, bool hookit) : VM(true, null), base(base), hookit(hookit) { initialize(); }
        std::shared_ptr<ENV> CreateEnv() override {
            auto t = GetNativeInterfaceTemplate();
            for(int i = 0; i < ENTRIES_N; ++i) if(base[i] >= 0) put(t, i, base[i]);
            if(hookit) for(auto& h : jnienvhooks) h(t);
            auto e = std::make_shared<MyEnv>(this, t, created++);
            made.push_back(e.get());
            return e;
        }
        using VM::OverrideJNIInvokeInterface;
        const JNINativeInterface& original() { return GetNativeInterfaceTemplate(); }
    };
    struct Env {
        JNIEnv* env = nullptr; // attached
        MyEnv* my = nullptr;
        int serial = -1, tracked = -1;
        Table table;
        jobject global = nullptr, loc = nullptr;
        Object* denotes = nullptr, *ldenotes = nullptr;
        Throwable* pending = nullptr;
        std::shared_ptr<Throwable> hold;
    };
    struct Machine {
        std::unique_ptr<MyVM> vm;
        JavaVM* jvm;
        Env envs[TH];
        Table invoke = Table(INV, -1);
        std::vector<std::pair<int, int>> hooks;
        int created = 0;
        jclass cls = nullptr;
        jmethodID mid;
        jfieldID fid;
        int value;
        bool null, hookit;
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C29");
    bool T = vh::S().thorough;
    {
        VM plain;
        invoke_orig = *plain.GetJavaVM()->functions;
    }
    vh::run_cases("tables", 0, T ? 12000 : 1200, [&](vh::Rng& r, long i) {
        new_ledger();
        Worker workers[TH - 1];
        auto on = [&](int t, std::function<void()> f) { if(t == 0) f(); else workers[t - 1].run(f); };
        Machine ms[VMS];
        uint64_t hist = 0;
        auto ran_exactly = [&](int entry, int variant, void* env, const char* what) {
            int n = 0;
            bool right = true;
            for(auto& x : ran) if(x.entry == entry) { ++n; right = right && x.variant == variant && x.env == env; }
            REQ(n == (variant < 0 ? 0 : 1) && right, "C29:entry", "%s: %d replaced entries ran, wanted variant %d%s", what, n, variant, right ? "" : "; another one or for another environment");
            vh::count(variant < 0 ? "original entries called" : "replaced entries called");
        };
        auto born = [&](Machine& m, int t, JNIEnv* env) {
            auto& x = m.envs[t];
            x = Env();
            x.env = env;
            auto found = ENV::FromJNIEnv(env);
            for(auto y : m.vm->made) if(y == found) x.my = static_cast<MyEnv*>(found);
            REQ(x.my, "C29:type", "an environment which the machine did not create");
            x.serial = x.my->serial;
            x.tracked = x.my->t.id;
            REQ(m.vm->created == ++m.created && x.serial == m.created - 1, "C29:created", "%d environments were created instead of %d", m.vm->created, m.created);
            x.table = m.vm->base;
            if(m.hookit) for(auto& h : m.hooks) x.table[h.first] = h.second;
        };
        auto start = [&](Machine& m, int t) {
            Table base(ENTRIES_N, -1);
            if(r.chance(1, 2)) for(auto& b : base) if(r.chance(1, 3)) b = r.below(V);
            m.null = r.chance(1, 3);
            m.hookit = r.chance(1, 2);
            m.hooks.clear();
            m.invoke.assign(INV, -1);
            m.created = 0;
            for(auto& x : m.envs) x = Env();
            m.value = r.below(100000);
            on(t, [&] {
                m.vm.reset(new MyVM(m.null, base, m.hookit));
                m.jvm = m.vm->GetJavaVM();
                born(m, t, m.vm->GetJNIEnv());
                auto e = m.envs[t].my;
                auto env = e->GetJNIEnv();
                auto c = e->GetClass<Tracked>("c29/K");
                auto v = m.value;
                c->Hook(e, "f", [v](ENV*, jint x) -> jint { return v + x; });
                c->HookGetterFunction(e, "g", [v](ENV*, Class*) -> jint { return v; });
                env->PushLocalFrame(8);
                m.cls = (jclass)env->NewGlobalRef((jobject)klass(e, c));
                m.mid = env->GetStaticMethodID(m.cls, "f", "(I)I");
                m.fid = env->GetStaticFieldID(m.cls, "g", "I");
                env->PopLocalFrame(nullptr);
            });
        };
        auto stop = [&](Machine& m, int t) {
            std::vector<int> envs;
            for(auto& x : m.envs) if(x.env) envs.push_back(x.tracked);
            on(t, [&] { m.vm.reset(); });
            for(auto id : envs) REQ(!ledger()->alive(id), "C29:destroyed", "an environment outlives its machine");
            for(auto& x : m.envs) x = Env();
            vh::count("machines destroyed");
        };
        // everything which must not depend on tables
        auto check = [&](Machine& m, int t, const char* what) {
            auto& x = m.envs[t];
            on(t, [&] {
                REQ(ENV::FromJNIEnv(x.env) == x.my && x.my->GetJNIEnv() == x.env && x.my->GetVM() == m.vm.get(), "C29:identity", "%s: environment", what);
                REQ(m.vm->GetEnv().get() == x.my && m.vm->GetJNIEnv() == x.env, "C29:identity", "%s: environment of the machine", what);
                REQ(VM::FromJavaVM(m.jvm) == m.vm.get() && m.vm->GetJavaVM() == m.jvm, "C29:identity", "%s: machine", what);
                REQ(ledger()->alive(x.tracked), "C29:destroyed", "%s: environment", what);
                REQ(x.my->current_exception.get() == x.pending, "C29:exception", "%s", what);
                if(x.global) REQ(deref(x.my, x.global).get() == x.denotes, "C29:global", "%s", what);
                if(x.loc) REQ(deref(x.my, x.loc).get() == x.ldenotes, "C29:local", "%s", what);
                // replaced or not: the very functions
                auto want = m.vm->original();
                for(int k = 0; k < ENTRIES_N; ++k) if(x.table[k] >= 0) put(want, k, x.table[k]);
                auto have = *x.env->functions;
                have.reserved0 = want.reserved0 = nullptr;
                REQ(!memcmp(&have, &want, sizeof have), "C29:table", "%s: the table differs", what);
                auto iwant = invoke_orig;
                for(int k = 0; k < INV; ++k) iput(iwant, k, m.invoke[k]);
                auto ihave = *m.jvm->functions;
                ihave.reserved0 = iwant.reserved0 = nullptr;
                REQ(!memcmp(&ihave, &iwant, sizeof ihave), "C29:table", "%s: the invocation table differs", what);
            });
        };
        int machines = 1 + r.below(VMS);
        for(int k = 0; k < machines; ++k) start(ms[k], r.below(TH));
        for(int s = 30 + r.below(40); s-- > 0;) {
            auto& m = ms[r.below(machines)];
            int mi = &m - ms, t = r.below(TH);
            auto& x = m.envs[t];
            const char* what = "";
            int op = r.below(12);
            hist = vh::mix(hist, op * 100 + mi * 10 + t);
            if(op == 0 && r.chance(1, 3)) {
                what = "another machine in its place";
                vh::op("machine %d: %s", mi, what);
                stop(m, t);
                start(m, r.below(TH));
            } else if(op <= 2) {
                what = "a hook";
                int e = r.below(ENTRIES_N), v = r.below(V);
                vh::op("machine %d: hook replaces %s", mi, ename(e));
                m.vm->AddHook([e, v](JNINativeInterface& t) { put(t, e, v); });
                m.hooks.push_back({ e, v });
            } else if(op <= 4) {
                what = "replacing the invocation table";
                JNIInvokeInterface table = r.chance(1, 2) ? *m.jvm->functions : invoke_orig;
                Table next = m.invoke;
                if(table.AttachCurrentThread == invoke_orig.AttachCurrentThread && table.DetachCurrentThread == invoke_orig.DetachCurrentThread && table.GetEnv == invoke_orig.GetEnv) next.assign(INV, -1);
                for(int k = 0; k < INV; ++k) if(r.chance(1, 2)) { next[k] = (int)r.below(V + 1) - 1; iput(table, k, next[k]); }
                VM* other = nullptr;
                for(auto& o : ms) if(&o != &m && o.vm) other = o.vm.get();
                int id = r.below(other ? 4 : 3);
                int dummy;
                table.reserved0 = id == 0 ? nullptr : id == 1 ? (void*)m.vm.get() : id == 2 ? (void*)&dummy : (void*)other;
                vh::op("machine %d: invocation table %d %d %d, identity %d", mi, next[0], next[1], next[2], id);
                bool threw = false;
                try { m.vm->OverrideJNIInvokeInterface(table); } catch(const std::exception&) { threw = true; }
                REQ(threw == (id > 1), "C29:refused", "%s", threw ? "a proper table is refused" : "a table of another machine is accepted");
                if(!threw) m.invoke = next;
                vh::count(threw ? "invocation tables refused" : "invocation tables replaced");
            } else if(op == 5 || !x.env) {
                if(x.env && r.chance(1, 2)) {
                    what = "detaching";
                    vh::op("machine %d: thread %d detaches", mi, t);
                    on(t, [&] {
                        auto id = x.tracked;
                        if(x.global) { m.vm->original().DeleteGlobalRef(x.env, x.global); }
                        x.hold = nullptr;
                        ran.clear();
                        REQ(m.jvm->DetachCurrentThread() == JNI_OK, "C29:detach", "fails");
                        ran_exactly(101, m.invoke[1], m.jvm, "detaching");
                        REQ(!ledger()->alive(id), "C29:destroyed", "a detached environment lives");
                        x = Env();
                    });
                    vh::count("detaches");
                    continue;
                }
                what = "attaching";
                int route = r.below(3);
                vh::op("machine %d: thread %d attaches by %d", mi, t, route);
                on(t, [&] {
                    JNIEnv* env = nullptr;
                    ran.clear();
                    bool had = x.env;
                    auto old = x.env;
                    jint rc = route == 0 ? m.jvm->AttachCurrentThread(&env, nullptr) : route == 1 ? m.jvm->GetEnv((void**)&env, JNI_VERSION_1_6) : m.jvm->AttachCurrentThreadAsDaemon(&env, nullptr);
                    REQ(rc == JNI_OK && env, "C29:attach", "fails");
                    if(route == 0) ran_exactly(100, m.invoke[0], m.jvm, "attaching");
                    if(route == 1) ran_exactly(102, m.invoke[2], m.jvm, "GetEnv");
                    if(!had) born(m, t, env);
                    else REQ(env == old && m.vm->created == m.created, "C29:created", "attached again: another environment");
                });
                vh::count("attaches");
            } else if(op <= 8) {
                what = "replacing a table";
                // from any thread which is attached: histories are sequential
                int by = r.below(TH);
                on(by, [&] {
                    bool fresh = r.chance(1, 3);
                    auto table = fresh ? m.vm->original() : *x.env->functions;
                    Table next = fresh ? Table(ENTRIES_N, -1) : x.table;
                    for(int k = 0; k < ENTRIES_N; ++k) if(r.chance(1, 4)) {
                        next[k] = (int)r.below(V + 1) - 1;
                        if(next[k] >= 0) put(table, k, next[k]);
                        else { // the original of this kind of machine
                            auto o = m.vm->original();
                            switch(k) {
#define X(N, F, R, params, args) case N: table.F = o.F; break;
                            ENTRIES(X)
#undef X
                            }
                        }
                    }
                    MyEnv* other = nullptr;
                    for(auto& o : ms) for(auto& y : o.envs) if(y.my && y.my != x.my && (!other || r.chance(1, 2))) other = y.my;
                    int id = r.below(other ? 4 : 3);
                    int dummy;
                    table.reserved0 = id == 0 ? nullptr : id == 1 ? (void*)(ENV*)x.my : id == 2 ? (void*)&dummy : (void*)(ENV*)other;
                    vh::op("machine %d: thread %d gets a table with identity %d", mi, t, id);
                    bool threw = false;
                    try { x.my->OverrideJNINativeInterface(table); } catch(const std::exception&) { threw = true; }
                    REQ(threw == (id > 1), "C29:refused", "%s", threw ? "a proper table is refused" : "a table of another environment is accepted");
                    if(!threw) x.table = next;
                    vh::count(threw ? "tables refused" : "tables replaced");
                });
            } else {
                what = "using the entries";
                on(t, [&] {
                    auto env = x.env;
                    int e = x.pending ? r.chance(1, 2) ? 4 : 6 : r.below(ENTRIES_N);
                    vh::op("machine %d: thread %d calls %s", mi, t, ename(e));
                    auto& o = m.vm->original();
                    o.PushLocalFrame(env, 8);
                    auto str = x.pending ? nullptr : o.NewStringUTF(env, "four");
                    ran.clear();
                    switch(e) {
                    case 0: REQ(env->GetVersion() == JNI_VERSION_1_6, "C29:result", "version"); break;
                    case 1: { auto c = env->FindClass("c29/K"); REQ(c && deref(x.my, (jobject)c) == deref(x.my, (jobject)m.cls), "C29:result", "class"); break; }
                    case 2: { auto q = env->NewStringUTF("xyz"); REQ(q && o.GetStringLength(env, q) == 3, "C29:result", "string"); break; }
                    case 3: REQ(env->GetStringLength(str) == 4, "C29:result", "length"); break;
                    case 4: REQ(env->ExceptionCheck() == (x.pending != nullptr), "C29:result", "exception"); break;
                    case 5: { auto g = env->NewGlobalRef(str); REQ(o.GetObjectRefType(env, g) == JNIGlobalRefType, "C29:result", "reference");
                        if(x.global) o.DeleteGlobalRef(env, x.global);
                        x.global = g; x.denotes = deref(x.my, g).get(); break; }
                    case 6: env->DeleteGlobalRef(x.global); x.global = nullptr; break;
                    case 7: REQ(env->IsSameObject(str, str) && !env->IsSameObject(str, m.cls), "C29:result", "same"); break;
                    case 8: { jvalue v[1]; v[0].i = r.below(1000); REQ(env->CallStaticIntMethodA(m.cls, m.mid, v) == m.value + v[0].i, "C29:result", "call"); break; }
                    case 9: REQ(env->GetStaticIntField(m.cls, m.fid) == m.value, "C29:result", "field"); break;
                    case 10: { auto a = env->NewIntArray(5); REQ(a && o.GetArrayLength(env, a) == 5, "C29:result", "array"); break; }
                    case 11: REQ(env->GetObjectRefType(m.cls) == JNIGlobalRefType, "C29:result", "kind"); break;
                    case 12: env->PushLocalFrame(3); break;
                    case 13: { JavaVM* v = nullptr; env->GetJavaVM(&v); REQ(v == m.jvm, "C29:result", "machine"); break; }
                    }
                    auto got = ran;
                    if(e == 7) { // called twice
                        size_t half = 0, k = 0;
                        for(; k < got.size() && half < 1; ++k) half += got[k].entry == 7;
                        ran.resize(k);
                    }
                    ran_exactly(e, x.table[e], env, ename(e));
                    if(e == 12) o.PopLocalFrame(env, nullptr);
                    o.PopLocalFrame(env, nullptr);
                    if(!x.loc && r.chance(1, 3)) { auto ob = std::make_shared<Tracked>(); x.ldenotes = ob.get(); x.loc = local(x.my, ob); }
                    if(r.chance(1, 6)) {
                        if(x.pending) { o.ExceptionClear(env); x.pending = nullptr; x.hold = nullptr; }
                        else { o.ThrowNew(env, m.cls, "x"); x.hold = x.my->current_exception; x.pending = x.hold.get(); }
                    }
                });
                vh::count("uses");
            }
            for(int k = 0; k < machines; ++k) for(int j = 0; j < TH; ++j) if(ms[k].envs[j].env) check(ms[k], j, what);
        }
        // what is no environment or machine
        for(int k = 0; k < 2; ++k) {
            bool threw = false;
            JNINativeInterface t = orig();
            t.reserved0 = nullptr;
            JNIEnv e { &t };
            try { ENV::FromJNIEnv(k ? &e : nullptr); } catch(const std::exception&) { threw = true; }
            REQ(threw, "C29:foreign", "an environment of nobody");
            threw = false;
            JNIInvokeInterface it = invoke_orig;
            it.reserved0 = nullptr;
            JavaVM v { &it };
            try { VM::FromJavaVM(k ? &v : nullptr); } catch(const std::exception&) { threw = true; }
            REQ(threw, "C29:foreign", "a machine of nobody");
        }
        vh::distinct(hist);
        for(int k = 0; k < machines; ++k) {
            for(auto& x : ms[k].envs) x.hold = nullptr;
            stop(ms[k], r.below(TH));
        }
    });
    return vh::finish();
}
