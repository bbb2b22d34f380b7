// C26: several machines in one process. Each simulated machine carries a model of its classes, members, natives,
// references, exceptions, hooks and threads, and is compared with it while others live, change and die around it: first in
// interleaved histories on three threads with a known order, then on free running threads, each with machines of its own.
#include "jh.h"
#include <fake-jni/fake-jni.h>
#include <jnivm/extends.h>
#include <atomic>
using namespace jh;
using namespace jnivm;

namespace {
    struct MyFake : FakeJni::Jvm { VM* vm() { return this; } };
    struct MyBaron : Baron::Jvm { VM* vm() { return this; } };
    // living objects of one machine; relaxed, to order nothing
    struct Live { std::atomic<long> n { 0 }; };
    thread_local std::shared_ptr<Live> current;
    struct Counted {
        std::shared_ptr<Live> l = current;
        Counted() { l->n.fetch_add(1, std::memory_order_relaxed); }
        Counted(const Counted&) = delete;
        ~Counted() { l->n.fetch_sub(1, std::memory_order_relaxed); }
    };
    struct A : Extends<Object> { Counted c; jint v = 0; jint who() { return 10; } };
    struct B : Extends<A> { jint w = 0; };
    struct Z : Object { Counted c; jint v = 0; };
    struct F : Extends<Object> {
        DEFINE_CLASS_NAME("c26/F")
        Counted c;
        jint v = 0;
        jint who() { return 40; }
        static jint twice(jint n) { return 2 * n; }
    };
}
BEGIN_NATIVE_DESCRIPTOR(F)
FakeJni::Constructor<ClassName>{},
{ FakeJni::Field<&ClassName::v>{}, "v" },
{ FakeJni::Function<&ClassName::who>{}, "who" },
{ FakeJni::Function<&ClassName::twice>{}, "twice", FakeJni::JMethodID::STATIC },
END_NATIVE_DESCRIPTOR

namespace {
    enum { TA, TB, TZ, TF, NT };
    const char* const pool[] = { "c26/One", "c26/Two", "c26/pkg/Three", "Four", "c26/Five", "c26/pkg/Six" };
    constexpr int NPOOL = 6, MEMBERS = 5, NAT = 8, VERS = 8;
    template<int K> jint nat(JNIEnv*, jclass) { return 100 + K; }
    void* const nats[NAT] = { (void*)nat<0>, (void*)nat<1>, (void*)nat<2>, (void*)nat<3>, (void*)nat<4>, (void*)nat<5>, (void*)nat<6>, (void*)nat<7> };
    template<int K> jint ver(JNIEnv*) { return 0x20000 + K; }
    jint (*const vers[VERS])(JNIEnv*) = { ver<0>, ver<1>, ver<2>, ver<3>, ver<4>, ver<5>, ver<6>, ver<7> };
    const char* kinds[] = { "plain", "null returning", "Baron", "FakeJni" };

    // Where traces and counts go: straight to the report, or kept by the thread until it is joined
    struct Log {
        bool direct = true;
        std::vector<std::string> ops;
        std::map<std::string, long> counts;
        void op(const std::string& s) { if(direct) vh::op("%s", s.c_str()); else ops.push_back(s); }
        void count(const char* s) { if(direct) vh::count(s); else ++counts[s]; }
        void flush() { for(auto& o : ops) vh::op("%s", o.c_str()); for(auto& c : counts) vh::count(c.first, c.second); ops.clear(); counts.clear(); }
    };

    struct Obj { // model of an object
        long* living;
        int type;
        std::weak_ptr<Object> p;
        jint v = 0;
        explicit Obj(long* l, int t) : living(l), type(t) { ++*l; }
        ~Obj() { --*living; }
    };
    using ObjP = std::shared_ptr<Obj>;
    struct At { // a thread attached to the machine
        JNIEnv* env;
        ENV* e;
        int version;
        bool pending = false;
        std::string message;
        std::vector<std::vector<std::pair<jobject, ObjP>>> frames { 1 };
    };

    // Machines are made where dead ones were
    template<class M> struct Place {
        static std::vector<void*>& free() { static std::vector<void*> f; return f; }
        static std::mutex& mtx() { static std::mutex m; return m; }
        M* m = nullptr;
        template<class... X> void make(X... x) {
            void* at = nullptr;
            {
                std::lock_guard<std::mutex> g(mtx());
                if(free().size()) { at = free().back(); free().pop_back(); }
            }
            if(!at) at = ::operator new(sizeof(M));
            m = new(at) M(x...);
        }
        void reset() {
            if(!m) return;
            m->~M();
            std::lock_guard<std::mutex> g(mtx());
            free().push_back(m);
            m = nullptr;
        }
        ~Place() { reset(); }
        M* operator->() { return m; }
        M* get() { return m; }
    };
    using Museum = std::vector<std::shared_ptr<Class>>; // classes of dead machines

    struct Sim {
        int id, kind;
        Log& log;
        Museum& museum;
        bool fake, fab;
        Place<VM> plain;
        Place<MyBaron> baron;
        Place<MyFake> fjni;
        VM* vm;
        std::shared_ptr<Live> live = std::make_shared<Live>();
        long model_live = 0; // before everything that holds an Obj
        std::string name[NT];
        bool registered[NT] = {};
        std::map<std::string, std::weak_ptr<Class>> known;
        std::map<std::pair<std::string, std::string>, jint> members; // what was hooked
        std::shared_ptr<std::map<std::string, jint>> cells = std::make_shared<std::map<std::string, jint>>();
        std::map<std::string, std::map<std::string, int>> natives;
        std::set<std::string> denied;
        std::vector<std::pair<jobject, ObjP>> globals;
        std::vector<std::pair<jweak, std::weak_ptr<Obj>>> weaks;
        std::vector<std::shared_ptr<A>> owned; // objects which outlive the machine
        std::map<int, At> at;
        int version = 0x10006, hooked = 0;

        std::string tag(const std::string& s) { return fmt("machine %d: ", id) + s; }
        At make(int thread) {
            At a;
            a.e = vm->GetEnv().get();
            REQ(a.e, "C26:attach", "machine %d: no environment", id);
            a.env = a.e->GetJNIEnv();
            a.version = version;
            (void)thread;
            return a;
        }
        Sim(int id, int kind, int thread, Log& log, Museum& museum, vh::Rng& r) : id(id), kind(kind), log(log), museum(museum), fake(kind >= 2), fab(kind == 0 || kind == 2) {
            log.op(tag(fmt("created as %s machine on thread %d", kinds[kind], thread)));
            current = live;
            switch(kind) {
            case 0: plain.make(); vm = plain.get(); break;
            case 1: plain.make(false, true); vm = plain.get(); break;
            case 2: baron.make(); vm = baron->vm(); break;
            default: fjni.make(); vm = fjni->vm();
            }
            std::vector<int> n = { 0, 1, 2, 3, 4, 5 };
            for(int i = NPOOL; i-- > 1;) std::swap(n[i], n[r.below(i + 1)]);
            for(int t = 0; t < TF; ++t) name[t] = pool[n[t]];
            name[TF] = "c26/F";
            at.emplace(thread, make(thread));
            log.count(fmt("machines:%s", kinds[kind]).c_str());
        }
        // the machine goes, with everything in it
        void destroy(std::vector<std::shared_ptr<A>>* orphans) {
            log.op(tag("destroyed"));
            std::vector<std::weak_ptr<Class>> classes;
            {
                std::lock_guard<std::recursive_mutex> g(vm->mtx);
                for(auto& c : vm->classes) classes.push_back(c.second);
            }
            std::vector<std::shared_ptr<Class>> kept;
            if(id % 3 == 0) for(auto& k : known) if(auto p = k.second.lock()) kept.push_back(p);
            at.clear();
            plain.reset(); baron.reset(); fjni.reset();
            SOFT(live->n == (long)owned.size(), "C26:destroy", "machine %d: %ld objects survive it", id, live->n.load() - (long)owned.size());
            log.count(kept.size() ? "classes kept of dead machines" : "no class kept of a dead machine");
            if(kept.empty()) for(auto& c : classes) SOFT(c.expired(), "C26:destroy", "machine %d: class %s survives it", id, c.lock() ? c.lock()->nativeprefix.c_str() : "");
            if(orphans && kept.empty()) for(auto& o : owned) orphans->push_back(o); // while their class lives, objects are of that class
            owned.clear();
            for(auto& k : kept) museum.push_back(k);
            log.count("destroyed");
        }
        // A class as the model sees it. Null: it must not be found
        jclass find(At& a, const std::string& n) {
            auto c = a.env->FindClass(n.c_str());
            if(c) for(auto& k : museum) REQ(deref(a.e, c) != k, "C26:class", "machine %d: class %s of a dead machine", id, n.c_str());
            auto k = known.find(n);
            if(k == known.end()) {
                if(!fab || denied.count(n)) {
                    REQ(!c, "C26:class", "machine %d: class %s of nobody is found", id, n.c_str());
                    log.count("classes not found");
                    return nullptr;
                }
                REQ(c, "C26:class", "machine %d: class %s is not fabricated", id, n.c_str());
                auto p = std::static_pointer_cast<Class>(deref(a.e, c));
                REQ(p->methods.empty() && p->fields.empty() && !p->Instantiate, "C26:class", "machine %d: new class %s has members", id, n.c_str());
                known[n] = p;
                return c;
            }
            REQ(c, "C26:class", "machine %d: class %s is not found", id, n.c_str());
            auto p = std::dynamic_pointer_cast<Class>(deref(a.e, c));
            REQ(p && p == k->second.lock() && p->nativeprefix == n, "C26:class", "machine %d: another class %s", id, n.c_str());
            return c;
        }
        void reg(At& a, int t) {
            log.op(tag(fmt("type %d becomes %s", t, name[t].c_str())));
            if(t == TB && !registered[TA]) reg(a, TA);
            std::shared_ptr<Class> c;
            jint base = id * 1000;
            switch(t) {
            case TA:
                c = a.e->GetClass<A>(name[t].c_str());
                c->Hook(a.e, "<init>", []() { return std::make_shared<A>(); });
                c->Hook(a.e, "v", &A::v);
                c->HookInstanceFunction(a.e, "who", [base](A*) -> jint { return base + 1; });
                c->Hook(a.e, "take", [base](std::shared_ptr<A> x) -> jint { return base + x->v; });
                break;
            case TB:
                c = a.e->GetClass<B>(name[t].c_str());
                c->Hook(a.e, "<init>", []() { return std::make_shared<B>(); });
                c->Hook(a.e, "make", []() { return std::make_shared<B>(); });
                c->HookInstanceFunction(a.e, "who", [base](B*) -> jint { return base + 2; });
                break;
            case TZ:
                c = a.e->GetClass<Z>(name[t].c_str());
                c->Hook(a.e, "<init>", []() { return std::make_shared<Z>(); });
                c->HookInstanceFunction(a.e, "who", [base](Z*) -> jint { return base + 3; });
                break;
            default: c = F::registerClass();
            }
            auto k = known.find(name[t]);
            REQ(k == known.end() || k->second.lock() == c, "C26:class", "machine %d: registration made another class %s", id, name[t].c_str());
            known[name[t]] = c;
            registered[t] = true;
            log.count("registrations");
        }
        int type_of(const std::string& n) { for(int t = 0; t < NT; ++t) if(registered[t] && name[t] == n) return t; return -1; }
        std::string member(const std::string& n, int k) { return fmt("%c%d", n == name[TB] ? 'b' : n == name[TA] ? 'a' : 's', k); }
        jobject keep(At& a, jobject o, const ObjP& m) { // moves a reference out of the frame of this step
            auto l = a.env->PopLocalFrame(o);
            a.frames.back().push_back({ l, m });
            return l;
        }
        void check_object(At& a, jobject o, const ObjP& m, vh::Rng& r) {
            auto env = a.env;
            auto c = env->GetObjectClass(o);
            auto p = std::dynamic_pointer_cast<Class>(deref(a.e, c));
            REQ(p && p == known[name[m->type]].lock(), "C26:object", "machine %d: object of class %s, not %s", id, p ? p->nativeprefix.c_str() : "?", name[m->type].c_str());
            REQ(deref(a.e, o) == m->p.lock(), "C26:object", "machine %d: another object", id);
            auto who = env->GetMethodID(c, "who", "()I");
            REQ(who, "C26:object", "machine %d: no method", id);
            jint want = m->type == TF ? 40 : id * 1000 + 1 + m->type, got = env->CallIntMethod(o, who);
            REQ(got == want, "C26:call", "machine %d: a method of %s returns %d, not %d", id, p->nativeprefix.c_str(), got, want);
            for(int t = 0; t < NT; ++t) if(registered[t]) {
                bool is = t == m->type || (t == TA && m->type == TB);
                REQ(env->IsInstanceOf(o, find(a, name[t])) == is, "C26:object", "machine %d: instance of %s", id, name[t].c_str());
            }
            if(m->type != TZ) {
                auto f = env->GetFieldID(c, "v", "I");
                REQ(f, "C26:object", "machine %d: no field", id);
                REQ(env->GetIntField(o, f) == m->v, "C26:field", "machine %d: field is %d, not %d", id, (int)env->GetIntField(o, f), (int)m->v);
                if(r.chance(1, 2)) { m->v = (jint)r.next(); env->SetIntField(o, f, m->v); }
            }
            if(m->type == TA || m->type == TB) {
                auto ac = find(a, name[TA]);
                auto take = env->GetStaticMethodID(ac, "take", ("(L" + name[TA] + ";)I").c_str());
                REQ(take, "C26:signature", "machine %d: no function taking a %s", id, name[TA].c_str());
                jint got = env->CallStaticIntMethod(ac, take, o);
                REQ((uint32_t)got == (uint32_t)id * 1000 + (uint32_t)m->v, "C26:call", "machine %d: a function returns %d", id, got);
                if(!fab) for(auto n : pool) if(n != name[TA]) REQ(!env->GetStaticMethodID(ac, "take", (std::string("(L") + n + ";)I").c_str()), "C26:signature", "machine %d: function taking a %s", id, n);
            }
            log.count("objects checked");
        }
        std::pair<jobject, ObjP> some(At& a, vh::Rng& r) {
            std::vector<std::pair<jobject, ObjP>> all = globals;
            for(auto& f : a.frames) all.insert(all.end(), f.begin(), f.end());
            for(auto& w : weaks) if(auto o = w.second.lock()) all.push_back({ w.first, o });
            if(all.empty()) return { nullptr, nullptr };
            return r.pick(all);
        }
        static const char* nth(vh::Rng& r) { return pool[r.below(NPOOL)]; }

        // One step on an attached thread
        void step(int thread, vh::Rng& r, std::vector<std::shared_ptr<A>>* orphans) {
            current = live;
            At& a = at.at(thread);
            auto env = a.env;
            int what = r.below(22);
            switch(what) {
            case 0: case 1: { // local references and frames
                if(r.chance(1, 2)) {
                    log.op(tag("PushLocalFrame"));
                    REQ(env->PushLocalFrame(r.below(4)) == 0, "C26:frame", "push");
                    a.frames.emplace_back();
                } else if(a.frames.size() > 1) {
                    log.op(tag("PopLocalFrame"));
                    env->PopLocalFrame(nullptr);
                    a.frames.pop_back();
                }
                log.count("frames");
                return verify(a);
            }
            }
            env->PushLocalFrame(4);
            switch(what) {
            case 2: case 3: { // registration
                int t = r.below(fake ? NT : TF);
                if(!registered[t] || r.chance(1, 8)) reg(a, t);
                break;
            }
            case 4: case 5: { // a function
                std::string n = nth(r), m = member(n, r.below(MEMBERS));
                jint v = id * 1000 + 100 + (++hooked % 800);
                log.op(tag(fmt("%s.%s returns %d", n.c_str(), m.c_str(), v)));
                auto c = a.e->GetClass(n.c_str());
                auto k = known.find(n);
                REQ(k == known.end() || k->second.lock() == c, "C26:class", "machine %d: another class %s", id, n.c_str());
                known[n] = c;
                c->Hook(a.e, m, [v]() -> jint { return v; });
                members[{ n, m }] = v;
                log.count("functions");
                break;
            }
            case 6: case 7: case 8: { // looking up a function, which other machines may have
                std::string n = nth(r), m = member(n, r.below(MEMBERS));
                log.op(tag(fmt("call %s.%s", n.c_str(), m.c_str())));
                auto c = find(a, n);
                if(!c) break;
                auto f = env->GetStaticMethodID(c, m.c_str(), "()I");
                auto k = members.find({ n, m });
                if(k == members.end() && !fab) {
                    REQ(!f, "C26:member", "machine %d: function %s.%s of nobody is found", id, n.c_str(), m.c_str());
                    log.count("members not found");
                    break;
                }
                REQ(f, "C26:member", "machine %d: function %s.%s is not found", id, n.c_str(), m.c_str());
                jint got = env->CallStaticIntMethod(c, f), want = k == members.end() ? 0 : k->second;
                REQ(got == want, "C26:call", "machine %d: %s.%s returns %d, not %d", id, n.c_str(), m.c_str(), got, want);
                log.count(want ? "calls" : "fabricated calls");
                break;
            }
            case 9: { // static fields
                std::string n = nth(r);
                auto c = find(a, n);
                if(!c) break;
                bool have = cells->count(n);
                if(!have && r.chance(1, 2)) {
                    log.op(tag("static field of " + n));
                    auto p = known[n].lock();
                    (*cells)[n] = 0;
                    p->HookGetterFunction(a.e, "cell", [cells = cells, n](ENV*, Class*) -> jint { return (*cells)[n]; });
                    p->HookSetterFunction(a.e, "cell", [cells = cells, n](ENV*, Class*, jint v) { (*cells)[n] = v; });
                    have = true;
                    // on the way
                }
                auto f = env->GetStaticFieldID(c, "cell", "I");
                if(!have) {
                    if(n == name[TB] && registered[TB] && cells->count(name[TA])) break; // inherited
                    REQ(fab == (f != nullptr), "C26:member", "machine %d: static field of %s is %sfound", id, n.c_str(), f ? "" : "not ");
                    if(f) { env->SetStaticIntField(c, f, 5); REQ(env->GetStaticIntField(c, f) == 0, "C26:field", "machine %d: static field of nobody is %d", id, (int)env->GetStaticIntField(c, f)); }
                    log.count("fields of nobody");
                    break;
                }
                REQ(f, "C26:member", "machine %d: no static field of %s", id, n.c_str());
                if(n == name[TB] && registered[TB]) break; // own or inherited
                jint want = (*cells)[n], got = env->GetStaticIntField(c, f);
                REQ(got == want, "C26:field", "machine %d: static field of %s is %d, not %d", id, n.c_str(), got, want);
                want = (jint)r.next();
                env->SetStaticIntField(c, f, want);
                REQ((*cells)[n] == want, "C26:field", "machine %d: static field of %s was not written", id, n.c_str());
                log.count("static fields");
                break;
            }
            case 10: case 11: { // new objects
                std::vector<int> ts;
                for(int t = 0; t < NT; ++t) if(registered[t]) ts.push_back(t);
                if(ts.empty()) break;
                auto m = std::make_shared<Obj>(&model_live, r.pick(ts));
                auto& n = name[m->type];
                log.op(tag("new " + n));
                auto c = find(a, n);
                jobject o = nullptr;
                if(m->type == TB && r.chance(1, 3)) {
                    auto f = env->GetStaticMethodID(c, "make", ("()L" + n + ";").c_str());
                    REQ(f, "C26:signature", "machine %d: no function making a %s", id, n.c_str());
                    o = env->CallStaticObjectMethod(c, f);
                }
                if(!o && r.chance(1, 2)) {
                    switch(m->type) {
                    case TA: o = local(a.e, std::make_shared<A>()); break;
                    case TB: o = local(a.e, std::make_shared<B>()); break;
                    case TZ: o = local(a.e, std::make_shared<Z>()); break;
                    default: o = local(a.e, std::make_shared<F>());
                    }
                }
                if(!o) {
                    auto f = env->GetMethodID(c, "<init>", "()V");
                    REQ(f, "C26:object", "machine %d: no constructor of %s", id, n.c_str());
                    o = env->NewObject(c, f);
                }
                REQ(o, "C26:object", "machine %d: no object of %s", id, n.c_str());
                m->p = deref(a.e, o);
                check_object(a, o, m, r);
                keep(a, o, m);
                log.count("objects");
                return verify(a);
            }
            case 12: case 13: { // global and weak references
                auto o = some(a, r);
                if(o.first && r.chance(2, 3)) {
                    if(r.chance(1, 2)) { log.op(tag("NewGlobalRef")); globals.push_back({ env->NewGlobalRef(o.first), o.second }); REQ(globals.back().first, "C26:global", "null"); }
                    else { log.op(tag("NewWeakGlobalRef")); weaks.push_back({ env->NewWeakGlobalRef(o.first), o.second }); REQ(weaks.back().first, "C26:global", "null"); }
                } else if(globals.size() && r.chance(2, 3)) {
                    log.op(tag("DeleteGlobalRef"));
                    std::swap(globals[r.below(globals.size())], globals.back());
                    env->DeleteGlobalRef(globals.back().first);
                    globals.pop_back();
                } else if(weaks.size()) {
                    log.op(tag("DeleteWeakGlobalRef"));
                    std::swap(weaks[r.below(weaks.size())], weaks.back());
                    env->DeleteWeakGlobalRef(weaks.back().first);
                    weaks.pop_back();
                }
                log.count("global references");
                break;
            }
            case 14: { // using any reference
                auto o = some(a, r);
                if(o.first) check_object(a, o.first, o.second, r);
                break;
            }
            case 15: { // exceptions
                log.op(tag("exceptions"));
                if(a.pending && r.chance(1, 2)) {
                    env->ExceptionClear();
                    a.pending = false;
                } else {
                    auto c = env->FindClass("java/lang/Throwable");
                    a.message = fmt("exception %d of machine %d on thread %d, long enough for the heap", (int)r.below(1000), id, thread);
                    env->ThrowNew(c, a.message.c_str());
                    a.pending = true;
                }
                log.count("exceptions");
                break;
            }
            case 16: { // natives
                std::string n = nth(r);
                auto c = find(a, n);
                if(!c) break;
                auto& tab = natives[n];
                int w = r.below(8);
                if(w == 0) {
                    log.op(tag("UnregisterNatives " + n));
                    env->UnregisterNatives(c);
                    tab.clear();
                } else if(w < 5) {
                    std::string m = fmt("n%d", (int)r.below(3));
                    int k = r.below(NAT);
                    log.op(tag(fmt("RegisterNatives %s.%s = %d", n.c_str(), m.c_str(), k)));
                    JNINativeMethod nm = { (char*)m.c_str(), (char*)"()I", nats[k] };
                    env->RegisterNatives(c, &nm, 1);
                    tab[m] = k;
                }
                auto p = known[n].lock();
                size_t found = 0;
                std::vector<std::shared_ptr<Method>> ms;
                { std::lock_guard<std::mutex> g(p->mtx); ms = p->methods; }
                for(auto& m : ms) if(m->native) {
                    ++found;
                    auto t = tab.find(m->name);
                    REQ(t != tab.end(), "C26:native", "machine %d: native %s.%s of nobody", id, n.c_str(), m->name.c_str());
                    if(a.pending) continue; // it would be thrown
                    jint got = m->invoke(*env, p.get()).i;
                    REQ(got == 100 + t->second, "C26:native", "machine %d: native %s.%s is %d, not %d", id, n.c_str(), m->name.c_str(), got - 100, t->second);
                }
                REQ(found == tab.size(), "C26:native", "machine %d: %s has %ld natives, not %ld", id, n.c_str(), (long)found, (long)tab.size());
                log.count("natives");
                break;
            }
            case 17: { // rules of a Baron machine
                if(kind != 2) break;
                std::string n = nth(r);
                log.op(tag("deny " + n));
                baron->denyClass(n.c_str());
                denied.insert(n);
                log.count("denied classes");
                break;
            }
            case 18: { // hooks of the function table, for threads attached later
                if(r.chance(3, 4)) break;
                version = 0x20000 + id % VERS;
                log.op(tag(fmt("GetVersion becomes %x", version)));
                std::lock_guard<std::recursive_mutex> g(vm->mtx);
                vm->AddHook([f = vers[id % VERS]](JNINativeInterface& t) { t.GetVersion = f; });
                log.count("hooks");
                break;
            }
            case 19: { // an object which outlives its machine
                if(!registered[TA]) break;
                std::shared_ptr<A> o;
                if(orphans && orphans->size() && r.chance(2, 3)) {
                    o = orphans->back();
                    orphans->pop_back();
                    o->c.l->n.fetch_sub(1);
                    o->c.l = live;
                    live->n.fetch_add(1);
                    log.op(tag("adopts an object of a dead machine"));
                    log.count("adopted objects");
                    owned.push_back(o);
                } else if(owned.size() < 3) {
                    log.op(tag("an object of C++"));
                    owned.push_back(o = std::make_shared<A>());
                } else o = r.pick(owned);
                auto c = env->GetObjectClass(local(a.e, o));
                auto p = c ? std::dynamic_pointer_cast<Class>(deref(a.e, c)) : nullptr;
                REQ(p && p == known[name[TA]].lock(), "C26:object", "machine %d: object of C++ is of class %s", id, p ? p->nativeprefix.c_str() : "?");
                REQ(env->CallIntMethod(local(a.e, o), env->GetMethodID(c, "who", "()I")) == id * 1000 + 1, "C26:call", "machine %d: method of an object of C++", id);
                break;
            }
            case 20: { // strings, arrays
                auto s = env->NewStringUTF(fmt("machine %d", id).c_str());
                auto u = env->GetStringUTFChars(s, nullptr);
                REQ(u == fmt("machine %d", id), "C26:string", "machine %d", id);
                env->ReleaseStringUTFChars(s, u);
                int t = r.below(3);
                if(registered[t]) {
                    auto arr = env->NewObjectArray(3, find(a, name[t]), nullptr);
                    auto c = std::dynamic_pointer_cast<Class>(deref(a.e, env->GetObjectClass(arr)));
                    REQ(c && c->nativeprefix == "[L" + name[t] + ";", "C26:array", "machine %d: class %s", id, c ? c->nativeprefix.c_str() : "?");
                    REQ(env->IsSameObject(env->FindClass(c->nativeprefix.c_str()), klass(a.e, c)), "C26:array", "machine %d: another class %s", id, c->nativeprefix.c_str());
                }
                log.count("strings and arrays");
                break;
            }
            default: { // classes by name
                auto n = nth(r);
                find(a, n);
                log.count("class lookups");
            }
            }
            env->PopLocalFrame(nullptr);
            verify(a);
        }
        // Everything which must hold after any step of any machine
        void verify(At& a) {
            auto env = a.env;
            REQ((env->ExceptionCheck() == JNI_TRUE) == a.pending, "C26:exception", "machine %d: %s exception", id, a.pending ? "lost the" : "foreign");
            if(a.pending) {
                env->PushLocalFrame(1);
                auto t = std::dynamic_pointer_cast<Throwable>(deref(a.e, env->ExceptionOccurred()));
                std::string got;
                if(t && t->except) try { std::rethrow_exception(t->except); } catch(const std::exception& x) { got = x.what(); }
                REQ(got == a.message, "C26:exception", "machine %d: exception \"%s\"", id, got.c_str());
                env->PopLocalFrame(nullptr);
            }
            REQ(live->n == model_live + (long)owned.size(), "C26:objects", "machine %d: %ld objects live, not %ld", id, live->n.load(), model_live + (long)owned.size());
            for(auto& w : weaks) REQ((env->IsSameObject(w.first, nullptr) == JNI_TRUE) == w.second.expired(), "C26:weak", "machine %d: weak reference", id);
            REQ(env->GetVersion() == a.version, "C26:table", "machine %d: version %x, not %x", id, (int)env->GetVersion(), a.version);
            JavaVM* j = nullptr;
            JNIEnv* e2 = nullptr;
            REQ(env->GetJavaVM(&j) == JNI_OK && j == vm->GetJavaVM(), "C26:machine", "machine %d: GetJavaVM", id);
            REQ(j->GetEnv((void**)&e2, JNI_VERSION_1_6) == JNI_OK && e2 == env, "C26:machine", "machine %d: another environment", id);
            REQ(VM::FromJavaVM(j) == vm && ENV::FromJNIEnv(env)->GetVM() == vm, "C26:machine", "machine %d: back reference", id);
        }
        void attach(int thread) {
            log.op(tag(fmt("thread %d attaches", thread)));
            current = live;
            JNIEnv* env = nullptr;
            REQ(vm->GetJavaVM()->AttachCurrentThread(&env, nullptr) == JNI_OK && env, "C26:attach", "machine %d", id);
            at.emplace(thread, make(thread));
            REQ(at.at(thread).env == env, "C26:attach", "machine %d: another environment", id);
            verify(at.at(thread));
            log.count("attaches");
        }
        void detach(int thread) {
            log.op(tag(fmt("thread %d detaches", thread)));
            REQ(vm->GetJavaVM()->DetachCurrentThread() == JNI_OK, "C26:attach", "machine %d: detach", id);
            at.erase(thread);
            if(at.size()) REQ(live->n == model_live + (long)owned.size(), "C26:objects", "machine %d: %ld objects live, not %ld", id, live->n.load(), model_live + (long)owned.size());
            log.count("detaches");
        }
        void monitor(At& a, const char* n, bool enter) {
            auto env = a.env;
            env->PushLocalFrame(2);
            auto c = find(a, n);
            if(c) REQ((enter ? env->MonitorEnter(c) : env->MonitorExit(c)) == JNI_OK, "C26:monitor", "machine %d", id);
            env->PopLocalFrame(nullptr);
        }
    };
    int pick_kind(vh::Rng& r) { static const int k[] = { 0, 0, 1, 1, 2, 2, 3, 3 }; return k[r.below(8)]; }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C26");
    bool T = vh::S().thorough;
#ifndef VH_TSAN
    vh::run_cases("interleaved histories", 0, T ? 30000 : 2400, [&](vh::Rng& r, long) {
        Log log;
        constexpr int W = 3;
        Worker w[W];
        const Sim* current_fake[W] = {}; // one fake-jni environment per thread
        std::vector<std::shared_ptr<A>> orphans;
        Museum museum;
        std::vector<std::unique_ptr<Sim>> sims;
        int next = 1;
        uint64_t hist = 0;
        auto create = [&](int t) {
            int kind = pick_kind(r);
            if(kind >= 2 && current_fake[t]) kind -= 2;
            w[t].run([&] { sims.emplace_back(new Sim(next++, kind, t, log, museum, r)); });
            if(kind >= 2) current_fake[t] = sims.back().get();
        };
        auto destroy = [&](size_t k, int t) {
            auto s = std::move(sims[k]);
            sims.erase(sims.begin() + k);
            for(int q = 0; q < W; ++q) if(current_fake[q] == s.get()) current_fake[q] = nullptr;
            w[t].run([&] { s->destroy(&orphans); });
            s.reset();
        };
        try {
            create(0);
            for(int n = 60 + r.below(200); n-- > 0;) {
                int t = r.below(W), what = r.below(40);
                hist = vh::mix(hist, r.s ^ what);
                if(what == 0 && sims.size() < 6) create(t);
                else if(what == 1 && sims.size() > 1) {
                    size_t k = r.below(sims.size());
                    // destroyed by a thread of its own, another one, or one which knows none
                    if(sims.size() > 1 && r.chance(1, 4)) vh::count("destroyed by any thread");
                    destroy(k, t);
                } else if(sims.empty()) create(t);
                else {
                    auto& s = *r.pick(sims);
                    bool in = s.at.count(t);
                    if(!in) {
                        if(s.fake && current_fake[t]) continue;
                        if(!r.chance(1, 3)) continue;
                        w[t].run([&] { s.attach(t); });
                        if(s.fake) current_fake[t] = &s;
                    } else if(what == 2) {
                        w[t].run([&] { s.detach(t); });
                        if(s.fake) current_fake[t] = nullptr;
                    } else if(what == 3 && sims.size() > 1) {
                        // the monitors of classes with the same name have nothing to do with each other
                        auto& s2 = *r.pick(sims);
                        int t2 = (t + 1 + r.below(W - 1)) % W;
                        if(&s2 == &s || !s2.at.count(t2)) continue;
                        auto n = Sim::nth(r);
                        vh::op("monitors of %s in machines %d and %d", n, s.id, s2.id);
                        w[t].run([&] { s.monitor(s.at.at(t), n, true); });
                        w[t2].run([&] { s2.monitor(s2.at.at(t2), n, true); s2.monitor(s2.at.at(t2), n, false); });
                        w[t].run([&] { s.monitor(s.at.at(t), n, false); });
                        vh::count("monitors");
                    } else w[t].run([&] { s.step(t, r, &orphans); });
                }
                if(sims.size() > 1) vh::count("steps beside other machines");
                // classes of one machine are those of no other
                if(n % 16 == 0) {
                    std::map<Class*, int> all;
                    for(auto& s : sims) for(auto& k : s->known) {
                        auto p = k.second.lock();
                        REQ(p, "C26:class", "machine %d: class %s is gone", s->id, k.first.c_str());
                        REQ(all.emplace(p.get(), s->id).second, "C26:class", "machine %d shares class %s", s->id, k.first.c_str());
                    }
                }
            }
            vh::distinct(hist);
            while(sims.size()) destroy(r.below(sims.size()), r.below(W));
        } catch(...) {
            for(auto& s : sims) (void)s.release(); // abandoned
            throw;
        }
    });
#endif
    vh::run_cases("concurrent machines", 100000, T ? 4000 : 160, [&](vh::Rng& r, long) {
        int n = 2 + r.below(6);
        struct Out { Log log; bool stopped = false; std::string what; uint64_t seed; };
        std::vector<Out> out(n);
        for(auto& o : out) { o.log.direct = false; o.seed = r.next(); }
        std::vector<std::thread> th;
        std::atomic<int> ready { 0 };
        for(int t = 0; t < n; ++t) th.emplace_back([&, t] {
            auto& o = out[t];
            vh::Rng r(o.seed);
            ready.fetch_add(1, std::memory_order_relaxed);
            while(ready.load(std::memory_order_relaxed) < n) ;
            std::vector<std::shared_ptr<A>> orphans;
        Museum museum;
            std::vector<std::unique_ptr<Sim>> sims;
            bool fake = false;
            try {
                for(int k = 150 + r.below(300), id = 1 + t * 100; k-- > 0;) {
                    int what = r.below(30);
                    if(sims.empty() || (what == 0 && sims.size() < 3)) {
                        int kind = pick_kind(r);
                        if(kind >= 2 && fake) kind -= 2;
                        sims.emplace_back(new Sim(id++, kind, t, o.log, museum, r));
                        if(kind >= 2) fake = true;
                    } else if(what == 1) {
                        size_t k = r.below(sims.size());
                        if(sims[k]->fake) fake = false;
                        sims[k]->destroy(&orphans);
                        sims.erase(sims.begin() + k);
                    } else r.pick(sims)->step(t, r, &orphans);
                }
                while(sims.size()) { sims.back()->destroy(&orphans); sims.pop_back(); }
            } catch(const vh::Stop&) {
                o.stopped = true;
                for(auto& s : sims) (void)s.release();
            } catch(const std::exception& e) {
                o.what = e.what();
                for(auto& s : sims) (void)s.release();
            }
        });
        for(auto& t : th) t.join();
        for(auto& o : out) {
            o.log.flush();
            if(o.what.size()) vh::soft("C26:unexpected-exception", o.what);
            vh::distinct(o.seed);
        }
        vh::count("concurrent threads", n);
    });
    return vh::finish();
}
