// C06: member lookup. Random histories of registrations, lookups and calls over a hierarchy, against a model of member
// tables. Where several ancestors qualify without one being nearer, any of them is accepted, as long as it stays.
#include "crowd.h"
#include "graph.h"
#include "deep.h"
using namespace jh;
using namespace jnivm;
using namespace graph;

namespace {
    struct Sig {
        const char* method;
        const char* field;
    };
    constexpr int NS = 6;
    const Sig sigs[NS] = { { "()I", "I" }, { "(I)I", "J" }, { "(J)I", "B" }, { "(IJ)I", "D" }, { "(Ljava/lang/String;)I", "Ljava/lang/String;" }, { "([I)I", "[I" } };
    // Member kinds
    enum Kind { IMETHOD, SMETHOD, CTOR, IFIELD, SFIELD, KINDS };
    const char* kname[] = { "method", "static method", "constructor", "field", "static field" };

    struct Key {
        int kind;
        std::string name;
        int sig;
        bool operator<(const Key& o) const { return std::tie(kind, name, sig) < std::tie(o.kind, o.name, o.sig); }
    };
    struct Entry {
        int cls = 0;
        void* id = nullptr;
        bool real = false;
        int tag = 0;
    };

    template<class... P> void hook_method(ENV* e, Class* c, bool st, const std::string& n, int tag) {
        if(st) c->Hook(e, n, [tag](ENV*, P...) -> jint { return tag; });
        else c->HookInstanceFunction(e, n, [tag](ENV*, P...) -> jint { return tag; });
    }
    template<class T> void hook_field(ENV* e, Class* c, bool st, const std::string& n, T v, bool setter) {
        if(st) {
            if(setter) c->HookSetterFunction(e, n, [](ENV*, Class*, T) {});
            else c->HookGetterFunction(e, n, [v](ENV*, Class*) -> T { return v; });
        } else {
            if(setter) c->HookInstanceSetterFunction(e, n, [](ENV*, Object*, T) {});
            else c->HookInstanceGetterFunction(e, n, [v](ENV*, Object*) -> T { return v; });
        }
    }
}

// Constructors need the C++ class for their return type
template<int W, int N> void ctor_of(ENV* e, Class* c, int sig, int tag) {
    using T = Node<W, N>;
    auto mk = [tag] {
        auto p = std::make_shared<T>();
        p->id = tag;
        return p;
    };
    switch(sig) {
    case 0: return c->Hook(e, "<init>", [mk]() { return mk(); });
    case 1: return c->Hook(e, "<init>", [mk](jint) { return mk(); });
    default: return c->Hook(e, "<init>", [mk](jlong) { return mk(); });
    }
}
template<int W, int N> int tag_of(ENV* e, jobject o) {
    return JNITypes<std::shared_ptr<Node<W, N>>>::JNICast(e, o)->id;
}
struct CtorEnt {
    void (*hook)(ENV*, Class*, int, int);
    int (*tag)(ENV*, jobject);
};
template<int W, int... N> std::vector<CtorEnt> ctorsN(std::integer_sequence<int, N...>) { return { CtorEnt { ctor_of<W, N>, tag_of<W, N> }... }; }
template<int W> std::vector<CtorEnt> ctors() { return ctorsN<W>(std::make_integer_sequence<int, NC>()); }

int main(int argc, char** argv) {
    vh::init(argc, argv, "C06");
    bool T = vh::S().thorough;
    std::vector<std::vector<Ent>> worlds = { world<2>(), world<3>() };
    std::vector<std::vector<CtorEnt>> ctorv = { ctors<2>(), ctors<3>() };
    vh::run_cases("member histories", 0, T ? 6000 : 500, [&](vh::Rng& r, long i) {
        auto w = worlds[i % worlds.size()];
        auto& ct = ctorv[i % worlds.size()];
        Stretch stretch(r, 1, 3);
        std::vector<std::string> names;
        for(auto n : { "f", "ff", "F", "getX", "x", "main" }) names.push_back(stretch(n));
        bool null = r.chance(1, 2);
        jnivm::VM vm(false, null);
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        Worker other;
        JNIEnv* env2 = nullptr;
        other.run([&] { vm.GetJavaVM()->AttachCurrentThread(&env2, nullptr); });
        std::vector<std::shared_ptr<Class>> c(NC);
        for(int k = 0; k < NC; ++k) c[k] = w[k].reg(e, ("c6/K" + std::to_string(k)).c_str());
        std::map<std::pair<int, Key>, Entry> tab;
        std::map<std::pair<int, Key>, void*> last; // results since the last registration that could matter
        std::map<void*, std::pair<int, Key>> owner;
        Refs refs(env);
        int tags = 0;
        uint64_t h = 0;
        std::vector<Key> keys; // few keys, to make collisions between classes likely
        for(int k = 0; k < 10; ++k) {
            Key q { (int)r.below(KINDS), names[r.below(names.size())], (int)r.below(NS) };
            if(q.kind == CTOR) q.name = "<init>", q.sig %= 3;
            keys.push_back(q);
        }
        for(int k = 0; k < 5; ++k) { // variations of existing keys
            Key q = keys[r.below(10)];
            if(q.kind == CTOR) q.sig = r.below(3);
            else switch(r.below(3)) {
                case 0: q.kind = (const int[]) { SMETHOD, IMETHOD, 0, SFIELD, IFIELD }[q.kind]; break;
                case 1: q.sig = r.below(NS); break;
                default: q.name = names[r.below(names.size())];
            }
            keys.push_back(q);
        }
        auto raw_lookup = [&](JNIEnv* env, int k, const Key& q, int how) -> void* {
            auto j = (jclass)refs.make((jobject)klass(ENV::FromJNIEnv(env), c[k]), how);
            switch(q.kind) {
            case IMETHOD: return env->GetMethodID(j, q.name.c_str(), sigs[q.sig].method);
            case SMETHOD: return env->GetStaticMethodID(j, q.name.c_str(), sigs[q.sig].method);
            case CTOR: {
                std::string d = sigs[q.sig].method;
                d.back() = 'V';
                return env->GetMethodID(j, "<init>", d.c_str());
            }
            case IFIELD: return env->GetFieldID(j, q.name.c_str(), sigs[q.sig].field);
            default: return env->GetStaticFieldID(j, q.name.c_str(), sigs[q.sig].field);
            }
        };
        // classes whose own entry may be what a lookup in k finds
        std::function<void(int, const Key&, std::set<int>&, bool)> frontier = [&](int k, const Key& q, std::set<int>& out, bool realonly) {
            auto f = tab.find({ k, q });
            if(f != tab.end() && (!realonly || f->second.real)) {
                out.insert(k);
                if(f->second.real) return;
            }
            if(q.kind == CTOR) return;
            for(auto b : w[k].bases) frontier(b, q, out, realonly);
        };
        auto learn = [&](int k, const Key& q, void* id) {
            auto& en = tab[{ k, q }];
            if(en.id) {
                REQ(en.id == id, "C06:unstable-id", "%s %s sig %d of class %d: the identifier changed", kname[q.kind], q.name.c_str(), q.sig, k);
                return;
            }
            auto o = owner.find(id);
            REQ(o == owner.end(), "C06:shared-id", "%s %s sig %d of class %d has the identifier of %s %s sig %d of class %d", kname[q.kind], q.name.c_str(), q.sig, k,
                kname[o->second.second.kind], o->second.second.name.c_str(), o->second.second.sig, o->second.first);
            owner[id] = { k, q };
            en.cls = k;
            en.id = id;
        };
        // the own, registered member is always what a lookup in its class finds
        auto own = [&](int k, const Key& q) {
            auto id = raw_lookup(env, k, q, RLocal);
            REQ(id, "C06:registered-not-found", "%s %s sig %d of class %d", kname[q.kind], q.name.c_str(), q.sig, k);
            learn(k, q, id);
            return id;
        };
        // Calls or reads through the identifier, on an object of class k
        auto use = [&](JNIEnv* env, int k, const Key& q, void* id) -> int {
            auto e = ENV::FromJNIEnv(env);
            auto j = klass(e, c[k]);
            jvalue a[2] = {};
            if(q.sig == 4) a[0].l = (jobject)env->NewStringUTF("q");
            else if(q.sig == 5) a[0].l = (jobject)env->NewIntArray(1);
            switch(q.kind) {
            case IMETHOD: return env->CallIntMethodA(local(e, w[k].make()), (jmethodID)id, a);
            case SMETHOD: return env->CallStaticIntMethodA(j, (jmethodID)id, a);
            case CTOR: {
                auto o = env->NewObjectA(j, (jmethodID)id, a);
                return o ? ct[k].tag(e, o) : 0;
            }
            default: {
                bool st = q.kind == SFIELD;
                jobject o = local(e, w[k].make());
                auto f = (jfieldID)id;
                switch(q.sig) {
                case 0: return st ? env->GetStaticIntField(j, f) : env->GetIntField(o, f);
                case 1: return st ? env->GetStaticLongField(j, f) : env->GetLongField(o, f);
                case 2: return (uint8_t)(st ? env->GetStaticByteField(j, f) : env->GetByteField(o, f));
                case 3: return st ? env->GetStaticDoubleField(j, f) : env->GetDoubleField(o, f);
                case 4: {
                    auto s = st ? env->GetStaticObjectField(j, f) : env->GetObjectField(o, f);
                    return s ? env->GetStringLength((jstring)s) : 0;
                }
                default: {
                    auto s = st ? env->GetStaticObjectField(j, f) : env->GetObjectField(o, f);
                    return s ? env->GetArrayLength((jarray)s) : 0;
                }
                }
            }
            }
        };
        auto reg = [&](int k, const Key& q, int tag) {
            auto cl = c[k].get();
            switch(q.kind) {
            case IMETHOD: case SMETHOD: {
                bool st = q.kind == SMETHOD;
                switch(q.sig) {
                case 0: return hook_method<>(e, cl, st, q.name, tag);
                case 1: return hook_method<jint>(e, cl, st, q.name, tag);
                case 2: return hook_method<jlong>(e, cl, st, q.name, tag);
                case 3: return hook_method<jint, jlong>(e, cl, st, q.name, tag);
                case 4: return hook_method<std::shared_ptr<String>>(e, cl, st, q.name, tag);
                default: return hook_method<std::shared_ptr<Array<jint>>>(e, cl, st, q.name, tag);
                }
            }
            case CTOR: return ct[k].hook(e, cl, q.sig, tag);
            default: {
                bool st = q.kind == SFIELD;
                for(int setter = r.below(2), n = 0; n < 2; ++n, setter ^= 1) switch(q.sig) {
                case 0: hook_field<jint>(e, cl, st, q.name, tag, setter); break;
                case 1: hook_field<jlong>(e, cl, st, q.name, tag, setter); break;
                case 2: hook_field<jbyte>(e, cl, st, q.name, (jbyte)tag, setter); break;
                case 3: hook_field<jdouble>(e, cl, st, q.name, tag, setter); break;
                case 4: hook_field<std::shared_ptr<String>>(e, cl, st, q.name, std::make_shared<String>(std::string(tag, 'x')), setter); break;
                default: hook_field<std::shared_ptr<Array<jint>>>(e, cl, st, q.name, std::make_shared<Array<jint>>(tag), setter);
                }
            }
            }
        };
        // Crowded classes: many members which the history does not touch, all of them still found afterwards
        struct Filler { int k; Key q; int tag; void* id; };
        std::vector<Filler> crowd;
        if(r.chance(1, 5)) {
            int m = (const int[]) { 20, 70, 140, 300, 600 }[r.below(5)], one = r.chance(1, 2) ? (int)r.below(NC) : -1;
            for(int n = 0; n < m; ++n) {
                Key q { (const int[]) { IMETHOD, SMETHOD, IFIELD, SFIELD }[r.below(4)], stretch("crowd" + std::to_string(n / (1 + n % 3))), (int)r.below(NS) };
                int k = one < 0 ? r.below(NC) : one;
                bool dup = false;
                for(auto& f : crowd) dup |= f.k == k && !(f.q < q) && !(q < f.q);
                if(dup) continue;
                crowd.push_back({ k, q, 1 + n % 120, nullptr });
                reg(k, q, crowd.back().tag);
            }
            vh::count("crowds");
        }
        int steps = 20 + r.below(60);
        for(int s = 0; s < steps; ++s) {
            env->PushLocalFrame(32);
            int k = r.below(NC);
            auto q = r.pick(keys);
            if(r.chance(1, 3)) {
                int tag = 1 + tags++ % 250;
                vh::op("register %s %s %d in %d tag %d", kname[q.kind], q.name.c_str(), q.sig, k, tag);
                reg(k, q, tag);
                auto& en = tab[{ k, q }];
                en.cls = k;
                vh::count(en.real ? "replacements" : en.id ? "placeholders-filled" : "registrations");
                en.real = true;
                en.tag = tag;
                last.clear();
                if(r.chance(1, 2)) own(k, q);
            } else {
                bool th = r.chance(1, 6);
                std::set<int> real, all;
                frontier(k, q, real, true);
                frontier(k, q, all, false);
                for(auto b : real) own(b, q);
                auto me = tab.find({ k, q });
                void* id = nullptr;
                int got = 0;
                bool usable = false;
                auto body = [&](JNIEnv* env) {
                    id = raw_lookup(env, k, q, th ? RLocal : r.below(RKINDS));
                    if(id) got = use(env, k, q, id);
                };
                // every identifier has to stay usable
                if(th) other.run([&] { body(env2); });
                else body(env);
                vh::op("lookup %s %s %d in %d -> %p yields %d", kname[q.kind], q.name.c_str(), q.sig, k, id, got);
                h = vh::mix(h, k * 131 + q.kind * 7 + q.sig + all.size() * 1000);
                REQ(!env->ExceptionCheck(), "C06:exception", "lookup or use of %s %s sig %d of class %d", kname[q.kind], q.name.c_str(), q.sig, k);
                std::string d = fmt("%s %s sig %d of class %d", kname[q.kind], q.name.c_str(), q.sig, k);
                if(all.empty()) {
                    if(null) {
                        REQ(!id, "C06:invented", "%s was never registered", d.c_str());
                        vh::count("null-lookups");
                    } else {
                        REQ(id, "C06:no-placeholder", "%s", d.c_str());
                        learn(k, q, id);
                        vh::count("placeholders");
                    }
                } else {
                    REQ(id, "C06:not-found", "%s", d.c_str());
                    if(me != tab.end() && me->second.real) {
                        learn(k, q, id);
                        vh::count("own");
                    } else {
                        auto o = owner.find(id);
                        REQ(o != owner.end(), "C06:not-inherited", "%s: a new identifier although a member exists in the hierarchy", d.c_str());
                        bool same = !(o->second.second < q) && !(q < o->second.second);
                        REQ(same && all.count(o->second.first), "C06:wrong-member", "%s: found %s %s sig %d of class %d", d.c_str(), kname[o->second.second.kind], o->second.second.name.c_str(), o->second.second.sig, o->second.first);
                        // real one over an unknown one, unless this class already handed out a placeholder
                        bool placeholder = !tab[o->second].real;
                        if(real.size() && placeholder) {
                            bool sometimes = false;
                            for(auto b : all) sometimes |= !tab[{ b, q }].real;
                            REQ(sometimes, "C06:placeholder-preferred", "%s", d.c_str());
                        }
                        vh::count(placeholder ? "inherited-placeholder" : "inherited");
                    }
                    auto& l = last[{ k, q }];
                    REQ(!l || l == id, "C06:unstable-id", "%s: the identifier changed without a registration", d.c_str());
                    l = id;
                }
                if(id) {
                    auto& en = tab[owner.at(id)];
                    std::set<int> want;
                    if(en.real) want.insert(en.tag);
                    if(q.kind == IMETHOD) { // dispatched on the object
                        want.clear();
                        for(auto b : real) want.insert(tab[{ b, q }].tag);
                    }
                    if(want.empty()) {
                        // constructors of an unregistered kind give a default constructed object
                        if(q.kind != CTOR) REQ(got == 0, "C06:placeholder-result", "%s yields %d", d.c_str(), got);
                    } else {
                        REQ(want.count(got), "C06:wrong-implementation", "%s yields %d, not %d", d.c_str(), got, *want.begin());
                        vh::count("implementations");
                    }
                }
            }
            env->PopLocalFrame(nullptr);
        }
        // every identifier ever handed out is still what a lookup in its class finds
        for(auto& t : tab) if(t.second.id && t.second.real) {
            REQ(raw_lookup(env, t.first.first, t.first.second, RLocal) == t.second.id, "C06:unstable-id", "final sweep: %s %s of class %d", kname[t.first.second.kind], t.first.second.name.c_str(), t.first.first);
        }
        for(int round = 0; round < 2; ++round) for(auto& f : crowd) {
            env->PushLocalFrame(4);
            auto id = raw_lookup(env, f.k, f.q, RLocal);
            std::string d = fmt("%s %s sig %d of class %d among %zu others", kname[f.q.kind], f.q.name.c_str(), f.q.sig, f.k, crowd.size());
            REQ(id && (!round || id == f.id), "C06:crowd", "%s: %s", d.c_str(), id ? "unstable" : "not found");
            f.id = id;
            auto o = owner.find(id);
            REQ(o == owner.end() || round, "C06:shared-id", "%s shares an identifier", d.c_str());
            owner[id] = { f.k, f.q };
            int got = use(env, f.k, f.q, id);
            REQ(got == f.tag, "C06:crowd", "%s yields %d, not %d", d.c_str(), got, f.tag);
            vh::count("crowd members");
            env->PopLocalFrame(nullptr);
        }
        refs.release();
        other.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(h);
    });
    vh::run_cases("deep and wide", 200000, T ? 400 : 40, [&](vh::Rng& r, long) {
        bool null = r.chance(1, 2);
        jnivm::VM vm(false, null);
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        DeepWorld w(e, r);
        std::vector<std::string> names = { "f", "g" };
        std::map<Key, std::map<int, void*>> tab; // own entries
        std::map<std::pair<int, Key>, void*> last;
        auto look = [&](int k, const Key& q) -> void* {
            auto j = klass(e, w.c[k]);
            switch(q.kind) {
            case IMETHOD: return env->GetMethodID(j, q.name.c_str(), sigs[q.sig].method);
            case SMETHOD: return env->GetStaticMethodID(j, q.name.c_str(), sigs[q.sig].method);
            case IFIELD: return env->GetFieldID(j, q.name.c_str(), sigs[q.sig].field);
            default: return env->GetStaticFieldID(j, q.name.c_str(), sigs[q.sig].field);
            }
        };
        for(int n = 0; n < 250; ++n) {
            env->PushLocalFrame(16);
            Key q { (const int[]) { IMETHOD, SMETHOD, IFIELD, SFIELD }[r.below(4)], r.pick(names), (int)r.below(2) };
            int k = DeepWorld::pick(r);
            auto& t = tab[q];
            auto d = fmt("%s %s sig %d of class %d", kname[q.kind], q.name.c_str(), q.sig, k);
            if(t.size() < 8 && r.chance(1, 4)) {
                k = DeepWorld::above(r, k);
                auto c = w.c[k].get();
                bool st = q.kind == SMETHOD || q.kind == SFIELD;
                if(q.kind == IMETHOD || q.kind == SMETHOD) q.sig ? hook_method<jint>(e, c, st, q.name, 1) : hook_method<>(e, c, st, q.name, 1);
                else q.sig ? hook_field<jlong>(e, c, st, q.name, 1, false) : hook_field<jint>(e, c, st, q.name, 1, false);
                last.clear();
                auto id = look(k, q);
                REQ(id, "C06:deep-registered-not-found", "%s", d.c_str());
                for(auto& o : t) REQ(o.first == k || o.second != id, "C06:deep-shared-id", "%s and of class %d", d.c_str(), o.first);
                REQ(!t.count(k) || t[k] == id, "C06:deep-unstable-id", "%s", d.c_str());
                t[k] = id;
            } else {
                auto want = DeepWorld::nearest(k, t);
                auto id = look(k, q);
                if(want.empty()) {
                    REQ(null == !id, "C06:deep-invented", "%s: %s", d.c_str(), id ? "invented" : "no placeholder");
                    if(id) t[k] = id;
                } else {
                    bool ok = false;
                    for(auto b : want) ok |= t[b] == id;
                    REQ(ok, "C06:deep-wrong-member", "%s: not the one of class %d", d.c_str(), *want.begin());
                    auto& l = last[{ k, q }];
                    REQ(!l || l == id, "C06:deep-unstable-id", "%s", d.c_str());
                    l = id;
                    vh::count("deep and wide lookups");
                    if(k < DEEP && k - *want.begin() > 20) vh::count("members more than 20 levels above");
                }
            }
            env->PopLocalFrame(nullptr);
        }
        vh::distinct(r.s);
    });
    vh::run_cases("crowds", 400000, T ? 1600 : 80, [&](vh::Rng& r, long) { crowd::run("C06", r, crowd::FUNCTIONS | crowd::FIELDS); });
    return vh::finish();
}
