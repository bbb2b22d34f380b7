// C02: global references pin objects, weak references do not.
// Model: a set of reference handles (global, weak, local in the current frame of one of three threads, C++ pointer)
// over objects; an object lives exactly while a strong handle denotes it. Operations run on changing threads.
#include "makers.h"
using namespace jh;

struct H {
    enum Kind { Global, WeakG, Local, Cpp } kind;
    int obj;
    jobject ref = nullptr;
    int thread = 0; // Local
    std::shared_ptr<Tracked> p;
    bool dead = false; // weak: the object is gone
};

static void history(vh::Rng& r, long idx) {
    new_ledger();
    auto vm = std::make_unique<jnivm::VM>();
    const int T = 3;
    std::vector<std::unique_ptr<Worker>> workers;
    std::vector<JNIEnv*> envs(T, nullptr);
    for(int i = 0; i < T; ++i) workers.push_back(i ? std::make_unique<Worker>() : nullptr);
    auto on = [&](int t, std::function<void(JNIEnv*, jnivm::ENV*)> f) {
        auto g = [&] {
            if(!envs[t]) vm->GetJavaVM()->AttachCurrentThread(&envs[t], nullptr);
            f(envs[t], jnivm::ENV::FromJNIEnv(envs[t]));
        };
        if(t) workers[t]->run(g);
        else g();
    };
    on(0, [&](JNIEnv*, jnivm::ENV* e) { e->GetClass<Tracked>("c02/Tracked"); });
    std::vector<H> hs;
    std::map<int, jnivm::Object*> ptr;
    uint64_t trace = 0;
    auto strong = [&](int obj) {
        int n = 0;
        for(auto& h : hs) if(h.obj == obj && h.kind != H::WeakG) ++n;
        return n;
    };
    auto verify = [&](const char* after) {
        auto& l = *ledger();
        for(auto& p : ptr) {
            bool should = strong(p.first) > 0, is = l.alive(p.first);
            if(should && !is) vh::fail("C02:destroyed-early", fmt("after %s: object %d has %d strong references but is destroyed", after, p.first, strong(p.first)));
            if(!should && is) vh::fail("C02:destroyed-late", fmt("after %s: object %d has no strong reference but lives", after, p.first));
        }
        check_ledger("C02:double-destroy");
        int t = (int)r.below(T);
        on(t, [&](JNIEnv* env, jnivm::ENV* e) {
            for(auto& h : hs) {
                bool alive = l.alive(h.obj);
                if(h.kind == H::Global || (h.kind == H::Local && h.thread == t)) {
                    auto o = dynamic_cast<Tracked*>(deref(e, h.ref).get());
                    REQ(o && o->id() == h.obj, "C02:wrong-object", "after %s: %s reference of object %d on thread %d", after, h.kind == H::Global ? "global" : "local", h.obj, t);
                    REQ(env->GetObjectRefType(h.ref) == (h.kind == H::Global ? JNIGlobalRefType : JNILocalRefType), "C02:ref-type", "object %d", h.obj);
                    vh::count("strong-uses");
                } else if(h.kind == H::WeakG) {
                    REQ(env->GetObjectRefType(h.ref) == JNIWeakGlobalRefType, "C02:ref-type", "weak of object %d", h.obj);
                    REQ((bool)env->IsSameObject(h.ref, nullptr) == !alive, "C02:weak-null", "after %s: object %d alive %d, on thread %d", after, h.obj, (int)alive, t);
                    REQ((bool)env->IsSameObject(nullptr, h.ref) == !alive, "C02:weak-null", "after %s: object %d alive %d (mirrored)", after, h.obj, (int)alive);
                    vh::count(alive ? "weak-live" : "weak-dead");
                    if(!alive) {
                        REQ(env->NewLocalRef(h.ref) == nullptr, "C02:dead-weak", "NewLocalRef of a dead weak reference, object %d", h.obj);
                        REQ(env->NewGlobalRef(h.ref) == nullptr, "C02:dead-weak", "NewGlobalRef of a dead weak reference, object %d", h.obj);
                        REQ(env->NewWeakGlobalRef(h.ref) == nullptr, "C02:dead-weak", "NewWeakGlobalRef of a dead weak reference, object %d", h.obj);
                    } else if(r.chance(1, 4)) {
                        env->PushLocalFrame(0);
                        auto lr = env->NewLocalRef(h.ref);
                        REQ(raw(lr) == ptr[h.obj], "C02:wrong-object", "weak reference of object %d", h.obj);
                        env->PopLocalFrame(nullptr);
                    }
                }
            }
        });
    };
    int steps = (int)r.range(15, vh::S().thorough ? 160 : 70);
    for(int i = 0; i < steps; ++i) {
        int t = (int)r.below(T);
        int k = (int)r.below(10);
        const char* what = "nothing";
        auto usable = [&](bool allowdead) -> int {
            std::vector<int> c;
            for(int j = 0; j < (int)hs.size(); ++j) {
                auto& h = hs[j];
                if(h.kind == H::Cpp || (h.kind == H::Local && h.thread != t)) continue;
                if(h.kind == H::WeakG && !allowdead && !ledger()->alive(h.obj)) continue;
                c.push_back(j);
            }
            return c.empty() ? -1 : (int)r.pick(c);
        };
        on(t, [&](JNIEnv* env, jnivm::ENV* e) {
            if(k == 0 || hs.size() < 2) {
                auto p = std::make_shared<Tracked>();
                H h{ H::Local, p->id(), local(e, p), t };
                ptr[h.obj] = p.get();
                hs.push_back(h);
                vh::op("t%d: object %d with a local reference", t, h.obj);
                if(r.chance(1, 4)) hs.push_back(H{ H::Cpp, h.obj, nullptr, 0, p });
                what = "creation";
            } else if(k <= 3) {
                int j = usable(false);
                if(j < 0) return;
                auto src = hs[j];
                int target = (int)r.below(3);
                vh::op("t%d: new %s from %s of object %d", t, target == 0 ? "global" : target == 1 ? "weak" : "local", src.kind == H::Global ? "global" : src.kind == H::WeakG ? "weak" : "local", src.obj);
                H h{ target == 0 ? H::Global : target == 1 ? H::WeakG : H::Local, src.obj, nullptr, t };
                h.ref = target == 0 ? env->NewGlobalRef(src.ref) : target == 1 ? (jobject)env->NewWeakGlobalRef(src.ref) : env->NewLocalRef(src.ref);
                REQ(h.ref, "C02:null-reference", "from a live reference of object %d", src.obj);
                if(target != 2) for(auto& o : hs) REQ(o.ref != h.ref, "C02:not-independent", "a second reference to object %d is not a new one", src.obj);
                hs.push_back(h);
                what = "making a reference";
            } else if(k <= 7) {
                // delete any handle, from any thread if it is not local
                std::vector<int> c;
                for(int j = 0; j < (int)hs.size(); ++j) if(hs[j].kind != H::Local || hs[j].thread == t) c.push_back(j);
                if(c.empty()) return;
                int j = (int)r.pick(c);
                auto h = hs[j];
                hs.erase(hs.begin() + j);
                vh::op("t%d: delete %s of object %d", t, h.kind == H::Global ? "global" : h.kind == H::WeakG ? "weak" : h.kind == H::Cpp ? "C++ pointer" : "local", h.obj);
                if(h.kind == H::Global) env->DeleteGlobalRef(h.ref);
                else if(h.kind == H::WeakG) env->DeleteWeakGlobalRef((jweak)h.ref);
                else if(h.kind == H::Local) env->DeleteLocalRef(h.ref);
                h.p = nullptr;
                vh::count("deletions");
                what = "deleting a reference";
            } else if(k == 8) {
                // frames on one thread never release globals
                vh::op("t%d: frame round trip", t);
                env->PushLocalFrame(4);
                int j = usable(false);
                if(j >= 0) {
                    auto x = env->NewLocalRef(hs[j].ref);
                    REQ(raw(x) == ptr[hs[j].obj], "C02:wrong-object", "object %d", hs[j].obj);
                }
                env->PopLocalFrame(nullptr);
                what = "a frame";
            } else {
                vh::op("t%d: null operations", t);
                REQ(env->NewGlobalRef(nullptr) == nullptr && env->NewWeakGlobalRef(nullptr) == nullptr, "C02:null", "reference to null");
                env->DeleteGlobalRef(nullptr);
                env->DeleteWeakGlobalRef(nullptr);
                what = "null operations";
            }
        });
        trace = vh::mix(trace, k * 100 + t * 10 + hs.size());
        verify(what);
        vh::count("ops");
    }
    // detach threads: only their local references go
    for(int t = 1; t < T; ++t) {
        if(!envs[t]) continue;
        vh::op("detach thread %d", t);
        workers[t]->run([&] { vm->GetJavaVM()->DetachCurrentThread(); });
        envs[t] = nullptr;
        for(size_t j = hs.size(); j-- > 0;) if(hs[j].kind == H::Local && hs[j].thread == t) hs.erase(hs.begin() + j);
        verify("detaching");
    }
    // the machine dies with whatever is left, C++ pointers survive it
    vh::op("destroy the machine");
    for(size_t j = hs.size(); j-- > 0;) if(hs[j].kind != H::Cpp) hs.erase(hs.begin() + j);
    workers.clear();
    vm = nullptr;
    for(auto& p : ptr) REQ(ledger()->alive(p.first) == (strong(p.first) > 0), "C02:machine-death", "object %d", p.first);
    vh::distinct(trace);
    if(idx < 2) vh::sample(std::string(vh::S().cur, std::min<size_t>(500, vh::S().curpos)));
}

// Many references to few objects, deleted in a random permutation
static void permutation(vh::Rng& r, long idx) {
    new_ledger();
    jnivm::VM vm;
    auto env = vm.GetJNIEnv();
    auto e = vm.GetEnv().get();
    int objs = (int)r.range(1, 6), refs = (int)r.range(2, 40);
    std::vector<H> hs;
    std::vector<int> left(objs, 0);
    std::vector<jobject> loc;
    for(int i = 0; i < objs; ++i) loc.push_back(local(e, std::make_shared<Tracked>()));
    for(int i = 0; i < refs; ++i) {
        int o = (int)r.below(objs);
        bool weak = r.chance(1, 3);
        jobject src = loc[o];
        if(r.chance(1, 2)) for(auto& h : hs) if(h.obj == o) src = h.ref;
        hs.push_back(H{ weak ? H::WeakG : H::Global, o, weak ? (jobject)env->NewWeakGlobalRef(src) : env->NewGlobalRef(src) });
        left[o] += !weak;
        vh::op("%s of object %d", weak ? "weak" : "global", o);
    }
    for(int i = 0; i < objs; ++i) env->DeleteLocalRef(loc[i]);
    for(int i = 0; i < objs; ++i) REQ(ledger()->alive(i) == (left[i] > 0), "C02:local-delete", "object %d has %d global references", i, left[i]);
    while(!hs.empty()) {
        int j = (int)r.below(hs.size());
        auto h = hs[j];
        hs.erase(hs.begin() + j);
        vh::op("delete %s of object %d", h.kind == H::WeakG ? "weak" : "global", h.obj);
        if(h.kind == H::WeakG) env->DeleteWeakGlobalRef((jweak)h.ref);
        else {
            env->DeleteGlobalRef(h.ref);
            left[h.obj]--;
        }
        for(int i = 0; i < objs; ++i) REQ(ledger()->alive(i) == (left[i] > 0), "C02:deletion", "object %d has %d global references left", i, left[i]);
        for(auto& o : hs) {
            auto d = deref(e, o.ref);
            bool alive = left[o.obj] > 0;
            REQ((bool)d == alive, "C02:other-reference", "a reference of object %d after deleting another one", o.obj);
            if(d) REQ(dynamic_cast<Tracked*>(d.get())->id() == o.obj, "C02:wrong-object", "object %d", o.obj);
        }
        vh::count("deletions");
    }
    vh::distinct(vh::mix(refs, r.next()));
}

// Crowds of references to objects of every kind, made and deleted on changing threads
static void crowd(vh::Rng& r, long idx) {
    new_ledger();
    auto vm = std::make_unique<jnivm::VM>(false, r.chance(1, 2));
    const int T = 3;
    std::vector<std::unique_ptr<Worker>> workers;
    JNIEnv* envs[T] = {};
    for(int i = 0; i < T; ++i) workers.push_back(i ? std::make_unique<Worker>() : nullptr);
    auto on = [&](int t, std::function<void(JNIEnv*)> f) {
        auto g = [&] {
            if(!envs[t]) vm->GetJavaVM()->AttachCurrentThread(&envs[t], nullptr);
            f(envs[t]);
        };
        if(t) workers[t]->run(g); else g();
    };
    std::unique_ptr<Makers> mk;
    on(0, [&](JNIEnv* env) { mk.reset(new Makers(env)); });
    struct Obj { std::weak_ptr<jnivm::Object> w; int kind, left = 0; void* p; std::shared_ptr<jnivm::Object> pin; };
    struct Ref { jobject ref; int obj; bool weak; };
    std::vector<Obj> objs;
    std::vector<Ref> refs;
    static const int sizes[] = { 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2000 };
    int n = sizes[r.below(idx % 8 == 0 ? 25 : 15)], way = r.below(Makers::COUNT + 1);
    uint64_t h = vh::mix(n, way);
    vh::op("%d objects by %s", n, way < Makers::COUNT ? Makers::name(way) : "all");
    auto make = [&](JNIEnv* env, jobject src, int o) {
        bool weak = r.chance(1, 3);
        Ref x { weak ? (jobject)env->NewWeakGlobalRef(src) : env->NewGlobalRef(src), o, weak };
        REQ(x.ref, "C02:null-reference", "to an object made by %s", Makers::name(objs[o].kind));
        objs[o].left += !weak;
        refs.push_back(x);
        return x.ref;
    };
    for(int k = 0; k < n;) {
        int t = r.below(T), batch = 1 + r.below(std::min(n - k, 200));
        on(t, [&](JNIEnv* env) {
            auto e = jnivm::ENV::FromJNIEnv(env);
            env->PushLocalFrame(r.below(40));
            for(int b = 0; b < batch; ++b, ++k) {
                int kind = way < Makers::COUNT ? way : r.below(Makers::COUNT);
                auto j = mk->make(env, r, kind);
                REQ(j && !env->ExceptionCheck(), "C02:setup", "%s", Makers::name(kind));
                auto p = deref(e, j);
                objs.push_back({ p, kind, 0, p.get(), r.chance(1, 12) ? p : nullptr });
                for(int m = 1 + r.below(3), src = 0; m-- > 0; ++src) {
                    auto x = make(env, j, objs.size() - 1);
                    if(r.chance(1, 3)) make(env, x, objs.size() - 1);
                }
                if(r.chance(1, 8)) env->DeleteLocalRef(j);
            }
            env->PopLocalFrame(nullptr);
        });
    }
    auto check = [&](JNIEnv* env, const Ref& x, const char* after) {
        auto e = jnivm::ENV::FromJNIEnv(env);
        auto& o = objs[x.obj];
        bool alive = o.left || o.pin;
        auto d = deref(e, x.ref);
        REQ(alive == !o.w.expired(), alive ? "C02:destroyed-early" : "C02:destroyed-late", "after %s: object made by %s with %d global references%s", after, Makers::name(o.kind), o.left, o.pin ? " and a C++ pointer" : "");
        REQ(d.get() == (alive ? o.p : nullptr), "C02:wrong-object", "after %s: a %s reference of an object made by %s", after, x.weak ? "weak" : "global", Makers::name(o.kind));
        REQ((bool)env->IsSameObject(x.ref, nullptr) == !alive, "C02:weak-null", "after %s: object made by %s", after, Makers::name(o.kind));
        REQ(env->GetObjectRefType(x.ref) == (x.weak ? JNIWeakGlobalRefType : JNIGlobalRefType), "C02:ref-type", "object made by %s", Makers::name(o.kind));
        vh::count(alive ? "crowd-live" : "crowd-dead");
    };
    on(r.below(T), [&](JNIEnv* env) { for(auto& x : refs) check(env, x, "making all"); });
    while(refs.size()) {
        int t = r.below(T), batch = 1 + r.below(20);
        on(t, [&](JNIEnv* env) {
            while(batch-- > 0 && refs.size()) {
                int at = r.chance(1, 4) ? (int)refs.size() - 1 : r.chance(1, 4) ? 0 : (int)r.below(refs.size());
                auto x = refs[at];
                refs[at] = refs.back();
                refs.pop_back();
                auto& o = objs[x.obj];
                if(x.weak) env->DeleteWeakGlobalRef((jweak)x.ref);
                else { env->DeleteGlobalRef(x.ref); --o.left; }
                if(o.pin && !o.left && r.chance(1, 2)) o.pin = nullptr;
                REQ(o.w.expired() == !(o.left || o.pin), "C02:deletion", "object made by %s has %d global references%s left and is %s", Makers::name(o.kind), o.left, o.pin ? " and a C++ pointer" : "", o.w.expired() ? "destroyed" : "alive");
                vh::count("deletions");
                // others, among them those of the same object
                for(int m = 0; m < 3 && refs.size(); ++m) check(env, r.pick(refs), "a deletion");
                if(refs.size() < 60) for(auto& y : refs) if(y.obj == x.obj) check(env, y, "deleting another reference of the object");
            }
        });
        if(r.chance(1, 400)) break; // the machine ends with the rest
    }
    bool rest = refs.size();
    if(!rest) on(0, [&](JNIEnv* env) { mk->release(env); });
    mk = nullptr;
    for(int t = 1; t < T; ++t) if(envs[t]) workers[t]->run([&] { vm->GetJavaVM()->DetachCurrentThread(); });
    for(auto& x : refs) REQ(objs[x.obj].w.expired() == !(objs[x.obj].left || objs[x.obj].pin), "C02:detach", "object made by %s", Makers::name(objs[x.obj].kind));
    workers.clear();
    vm = nullptr;
    for(auto& o : objs) REQ(o.w.expired() == !o.pin, "C02:machine-death", "object made by %s is %s", Makers::name(o.kind), o.pin ? "destroyed" : "alive");
    if(rest) vh::count("crowds left to the machine");
    vh::distinct(h);
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C02");
    bool t = vh::S().thorough;
    vh::run_cases("reference histories on three threads", 0, t ? 4000 : 300, history);
    vh::run_cases("deletion permutations", 100000, t ? 4000 : 300, permutation);
    vh::run_cases("crowds of all kinds", 200000, t ? 4000 : 320, crowd);
    return vh::finish();
}
