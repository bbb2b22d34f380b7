// C09: fields read back what was written, whatever side writes, and nothing else changes.
#include "crowd.h"
#include "values.h"
#include "deep.h"
using namespace sig;

#define FIELDS(X) X(TZ, z) X(TB, b) X(TC, c) X(TS, s) X(TI, i) X(TJ, j) X(TF, f) X(TD, d) X(TBool, bo) X(TObject, o) X(TString, str) X(TFoo, foo) \
    X(TAI, ai) X(TAS, as) X(TAAI, aai) X(TClass, cl) X(TThrowable, th)
namespace {
    struct Data : Object {
#define X(K, n) Ty<K>::type n {}, n##2 {}, n##3 {};
        FIELDS(X)
#undef X
#define X(K, n) static Ty<K>::type s##n, s##n##2;
        FIELDS(X)
#undef X
    };
#define X(K, n) Ty<K>::type Data::s##n {}, Data::s##n##2 {};
    FIELDS(X)
#undef X
    // shadows some fields, inherits the rest
    struct Sub : Extends<Data> {
#define X(K, n) Ty<K>::type sub##n {};
        FIELDS(X)
#undef X
    };
    struct Sub2 : Extends<Sub> {};

    template<int K> struct Acc;
#define ACC(K, Name, T) template<> struct Acc<K> { \
        static jvalue get(JNIEnv* e, jobject o, jfieldID f) { return pack(e->Get##Name##Field(o, f)); } \
        static jvalue sget(JNIEnv* e, jclass o, jfieldID f) { return pack(e->GetStatic##Name##Field(o, f)); } \
        static void set(JNIEnv* e, jobject o, jfieldID f, jvalue v) { T t; memcpy(&t, &v, sizeof t); e->Set##Name##Field(o, f, t); } \
        static void sset(JNIEnv* e, jclass o, jfieldID f, jvalue v) { T t; memcpy(&t, &v, sizeof t); e->SetStatic##Name##Field(o, f, t); } };
    ACC(TZ, Boolean, jboolean) ACC(TBool, Boolean, jboolean) ACC(TB, Byte, jbyte) ACC(TC, Char, jchar) ACC(TS, Short, jshort) ACC(TI, Int, jint) ACC(TJ, Long, jlong)
    ACC(TF, Float, jfloat) ACC(TD, Double, jdouble) ACC(TObject, Object, jobject)
    template<int K> using A = Acc<is_ref(K) ? (int)TObject : K>;

    // One field: how to reach its storage natively
    struct Slot {
        int k = 0;
        bool st = false;
        int cls = 0; // class declaring it: 0 Data, 1 Sub
        std::string name;
        bool readable = true, writable = true;
        uint64_t (*peek)(ENV*, Object*) = nullptr;
        void (*poke)(ENV*, Object*, jvalue, const std::shared_ptr<Object>&) = nullptr;
        jvalue (*get)(JNIEnv*, jobject, jfieldID) = nullptr;
        jvalue (*sget)(JNIEnv*, jclass, jfieldID) = nullptr;
        void (*set)(JNIEnv*, jobject, jfieldID, jvalue) = nullptr;
        void (*sset)(JNIEnv*, jclass, jfieldID, jvalue) = nullptr;
        int owner = -1;
    };
    template<int K> void store(typename Ty<K>::type& s, jvalue v, const std::shared_ptr<Object>& o) {
        if constexpr(is_ref(K)) s = std::dynamic_pointer_cast<typename Ty<K>::type::element_type>(o);
        else if constexpr(K == TBool) s = v.z;
        else memcpy(&s, &v, sizeof s);
    }
    template<int K, class C, typename Ty<K>::type C::*M> Slot inst(const std::string& n, int cls) {
        Slot s;
        s.k = K;
        s.cls = cls;
        s.name = n;
        s.peek = [](ENV* e, Object* o) { return seen<K>(e, dynamic_cast<C*>(o)->*M); };
        s.poke = [](ENV*, Object* o, jvalue v, const std::shared_ptr<Object>& r) { store<K>(dynamic_cast<C*>(o)->*M, v, r); };
        s.get = A<K>::get;
        s.set = A<K>::set;
        return s;
    }
    template<int K, typename Ty<K>::type* P> Slot statf(const std::string& n) {
        Slot s;
        s.k = K;
        s.st = true;
        s.name = n;
        s.peek = [](ENV* e, Object*) { return seen<K>(e, *P); };
        s.poke = [](ENV*, Object*, jvalue v, const std::shared_ptr<Object>& r) { store<K>(*P, v, r); };
        s.sget = A<K>::sget;
        s.sset = A<K>::sset;
        return s;
    }
    // getters and setters, in the shapes the library accepts
    template<int K, class C, typename Ty<K>::type C::*M> void hook_acc(ENV* e, Class* c, const std::string& n, int how, bool g, bool s) {
        using V = typename Ty<K>::type;
        if(g) switch(how % 3) {
        case 0: c->HookInstanceGetterFunction(e, n, [](ENV*, C* o) -> V { return o->*M; }); break;
        case 1: c->HookInstanceGetterFunction(e, n, [](Object* o) -> V { return dynamic_cast<C*>(o)->*M; }); break;
        default: c->HookInstanceGetterFunction(e, n, [](JNIEnv* e, jobject o) -> V { return std::dynamic_pointer_cast<C>(deref(ENV::FromJNIEnv(e), o)).get()->*M; });
        }
        if(s) switch(how / 3 % 3) {
        case 0: c->HookInstanceSetterFunction(e, n, [](ENV*, C* o, V v) { o->*M = v; }); break;
        case 1: c->HookInstanceSetterFunction(e, n, [](Object* o, V v) { dynamic_cast<C*>(o)->*M = v; }); break;
        default: c->HookInstanceSetterFunction(e, n, [](JNIEnv* e, jobject o, V v) { std::dynamic_pointer_cast<C>(deref(ENV::FromJNIEnv(e), o)).get()->*M = v; });
        }
    }
    template<int K, typename Ty<K>::type* P> void hook_sacc(ENV* e, Class* c, const std::string& n, int how, bool g, bool s) {
        using V = typename Ty<K>::type;
        if(g) switch(how % 3) {
        case 0: c->HookGetterFunction(e, n, [](ENV*, Class*) -> V { return *P; }); break;
        case 1: c->HookGetterFunction(e, n, [](Class*) -> V { return *P; }); break;
        default: c->HookGetterFunction(e, n, [](JNIEnv*, jclass) -> V { return *P; });
        }
        if(s) switch(how / 3 % 3) {
        case 0: c->HookSetterFunction(e, n, [](ENV*, Class*, V v) { *P = v; }); break;
        case 1: c->HookSetterFunction(e, n, [](Class*, V v) { *P = v; }); break;
        default: c->HookSetterFunction(e, n, [](JNIEnv*, jclass, V v) { *P = v; });
        }
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C09");
    bool T = vh::S().thorough;
    vh::run_cases("field histories", 0, T ? 3000 : 250, [&](vh::Rng& r, long i) {
        bool null = r.chance(1, 2);
        jnivm::VM vm(false, null);
        auto env0 = vm.GetJNIEnv();
        auto e0 = vm.GetEnv().get();
        auto foo = e0->GetClass<Foo>("c9/Foo");
        std::shared_ptr<Class> c[3] = { e0->GetClass<Data>("c9/Data"), e0->GetClass<Sub>("c9/Sub"), e0->GetClass<Sub2>("c9/Sub2") };
        std::vector<Slot> slots;
        auto rw = [&](Slot s, bool& g, bool& st) {
            int x = r.below(6);
            g = x != 0;
            st = x != 1;
            s.readable = g;
            s.writable = st;
            return s;
        };
        // names: of every type, the same name may be used by another type, kind or class
        bool samename = r.chance(1, 2);
        auto name = [&](const char* n, const char* suffix) { return samename ? std::string("v") + suffix : std::string(n) + suffix; };
        bool g, s;
        int how;
#define X(K, n) { \
            using V = Ty<K>::type; \
            auto nm = name(#n, ""); \
            /* data member */ \
            if(r.chance(1, 2)) c[0]->HookInstanceProperty(e0, nm, (V Data::*)&Data::n); else c[0]->HookInstance(e0, nm, (V Data::*)&Data::n); \
            slots.push_back(inst<K, Data, &Data::n>(nm, 0)); \
            /* getter and setter functions */ \
            nm = name(#n, "2"); \
            auto sl = rw(inst<K, Data, &Data::n##2>(nm, 0), g, s); \
            how = r.below(9); \
            hook_acc<K, Data, &Data::n##2>(e0, c[0].get(), nm, how, g, s); \
            slots.push_back(sl); \
            /* static member, named like the instance field */ \
            nm = name(#n, ""); \
            c[0]->Hook(e0, nm, (V*)&Data::s##n); \
            slots.push_back(statf<K, &Data::s##n>(nm)); \
            nm = name(#n, "2"); \
            sl = rw(statf<K, &Data::s##n##2>(nm), g, s); \
            how = r.below(9); \
            hook_sacc<K, &Data::s##n##2>(e0, c[0].get(), nm, how, g, s); \
            slots.push_back(sl); \
            /* a field of the derived class, sometimes shadowing the one of the base */ \
            nm = name(#n, r.chance(1, 3) ? "" : "S"); \
            c[1]->HookInstanceProperty(e0, nm, (V Sub::*)&Sub::sub##n); \
            slots.push_back(inst<K, Sub, &Sub::sub##n>(nm, 1)); \
            Data::s##n = V(); \
            Data::s##n##2 = V(); \
        }
        FIELDS(X)
#undef X
        struct Obj {
            std::shared_ptr<Object> o;
            int cls;
        };
        std::vector<Obj> objs;
        for(int k = 0; k < 5; ++k) {
            int cls = r.below(3);
            objs.push_back({ cls == 0 ? (std::shared_ptr<Object>)std::make_shared<Data>() : cls == 1 ? (std::shared_ptr<Object>)std::make_shared<Sub>() : std::make_shared<Sub2>(), cls });
        }
        Pool pool0(e0, r, foo);
        std::map<std::pair<int, int>, uint64_t> model; // (object or -1, slot) -> bits
        std::map<std::pair<int, int>, std::shared_ptr<Object>> keep;
        Worker other;
        JNIEnv* env1 = nullptr;
        other.run([&] { vm.GetJavaVM()->AttachCurrentThread(&env1, nullptr); });
        uint64_t h = 0;
        int steps = 300;
        for(int st = 0; st < steps; ++st) {
            bool th = r.chance(1, 8);
            auto body = [&](JNIEnv* env) {
                auto e = ENV::FromJNIEnv(env);
                env->PushLocalFrame(32);
                Refs refs(env);
                int x = r.below(slots.size());
                auto& f = slots[x];
                // an object which has the field, and a class to look it up in
                std::vector<int> cand;
                for(int k = 0; k < (int)objs.size(); ++k) if(objs[k].cls >= f.cls) cand.push_back(k);
                if(cand.empty()) cand.push_back(-1);
                int ob = f.st ? -1 : r.pick(cand);
                if(!f.st && ob < 0) {
                    env->PopLocalFrame(nullptr);
                    return;
                }
                auto d = desc(f.k, "c9/Foo");
                int via = f.st ? r.below(3) : r.below(objs[ob].cls + 1 - f.cls) + f.cls;
                // found in a class which shadows it?
                int fx = x;
                if(!f.st && f.cls == 0 && via >= 1)
                    for(int k = 0; k < (int)slots.size(); ++k) if(slots[k].cls == 1 && slots[k].name == f.name && slots[k].k != f.k && desc(slots[k].k, "c9/Foo") == d) fx = -1; // boolean has two C++ types
                if(!f.st && f.cls == 0 && via >= 1)
                    for(int k = 0; k < (int)slots.size(); ++k) if(slots[k].cls == 1 && slots[k].name == f.name && desc(slots[k].k, "c9/Foo") == d) via = 0;
                // two C++ types share a descriptor: the later registration replaces the earlier one
                for(int k = 0; k < (int)slots.size(); ++k) if(k != x && slots[k].cls == f.cls && slots[k].st == f.st && slots[k].name == f.name && desc(slots[k].k, "c9/Foo") == d) fx = -1;
                if(fx < 0) {
                    env->PopLocalFrame(nullptr);
                    return;
                }
                auto jc = (jclass)refs.make((jobject)klass(e, c[via]), r.below(RKINDS));
                auto id = f.st ? env->GetStaticFieldID(jc, f.name.c_str(), d.c_str()) : env->GetFieldID(jc, f.name.c_str(), d.c_str());
                std::string w = fmt("%sfield %s %s of class %d through class %d, object %d", f.st ? "static " : "", d.c_str(), f.name.c_str(), f.cls, via, ob);
                REQ(id, "C09:lookup", "%s", w.c_str());
                jobject jo = f.st ? nullptr : refs.make(local(e, objs[ob].o), r.below(RKINDS));
                auto raw = f.st ? nullptr : objs[ob].o.get();
                std::pair<int, int> key(ob, x);
                int op = r.below(4);
                h = vh::mix(h, x * 8 + op);
                auto& m = model[key];
                if(op <= 1) {
                    uint64_t want;
                    jvalue v = pool0.value(r, refs, f.k, true, want);
                    std::shared_ptr<Object> obj = is_ref(f.k) && v.l ? deref(e, v.l) : nullptr;
                    if(op == 0) {
                        vh::op("write %s = %llx", w.c_str(), (unsigned long long)want);
                        if(f.st) f.sset(env, jc, id, v);
                        else f.set(env, jo, id, v);
                        if(f.writable) {
                            m = want;
                            keep[key] = obj;
                        }
                        vh::count(f.writable ? "writes" : "ignored writes");
                    } else {
                        vh::op("native write %s = %llx", w.c_str(), (unsigned long long)want);
                        f.poke(e, raw, v, obj);
                        m = want;
                        keep[key] = obj;
                        vh::count("native writes");
                    }
                } else {
                    auto v = f.st ? f.sget(env, jc, id) : f.get(env, jo, id);
                    uint64_t got = 0;
                    if(is_ref(f.k)) {
                        auto o = deref(e, v.l);
                        got = (uint64_t)(uintptr_t)o.get();
                        if(!f.readable && o) {
                            // a default object: of the field's class, fresh
                            got = 0;
                        }
                    } else got = (uint64_t)v.j;
                    REQ(got == (f.readable ? m : 0), "C09:read", "%s yields %llx instead of %llx", w.c_str(), (unsigned long long)got, (unsigned long long)(f.readable ? m : 0));
                    vh::count(f.readable ? "reads" : "default reads");
                }
                REQ(!env->ExceptionCheck(), "C09:exception", "%s", w.c_str());
                // no other storage changed
                for(int k = 0; k < (int)slots.size(); ++k) {
                    auto& q = slots[k];
                    if(st % 8 && k != x && r.chance(3, 4)) continue;
                    for(int b = q.st ? -1 : 0; b < (q.st ? 0 : (int)objs.size()); ++b) {
                        if(!q.st && objs[b].cls < q.cls) continue;
                        auto got = q.peek(e, q.st ? nullptr : objs[b].o.get());
                        auto f = model.find({ b, k });
                        uint64_t want = f == model.end() ? 0 : f->second;
                        REQ(got == want, "C09:interference", "after %s: storage of %sfield %s %s of object %d is %llx instead of %llx", w.c_str(), q.st ? "static " : "", desc(q.k, "c9/Foo").c_str(), q.name.c_str(), b, (unsigned long long)got, (unsigned long long)want);
                        vh::count("storage checks");
                    }
                }
                refs.release();
                env->PopLocalFrame(nullptr);
            };
            if(th) other.run([&] { body(env1); });
            else body(env0);
        }
        // unregistered fields: default values, writes ignored, nothing else affected
        if(!null) for(int k = 0; k < 20; ++k) {
            auto& q = r.pick(slots);
            bool st = r.chance(1, 2);
            auto jc = klass(e0, c[r.below(3)]);
            auto jo = local(e0, r.pick(objs).o);
            auto d = desc(q.k, "c9/Foo");
            auto n = "unknown" + std::to_string(r.below(4));
            auto id = st ? env0->GetStaticFieldID(jc, n.c_str(), d.c_str()) : env0->GetFieldID(jc, n.c_str(), d.c_str());
            uint64_t want;
            Refs refs(env0);
            auto v = pool0.value(r, refs, q.k, true, want);
            // accessors of the right type, from a slot of that kind
            for(auto& a : slots) if(a.k == q.k && a.st == st) {
                if(st) a.sset(env0, jc, id, v);
                else a.set(env0, jo, id, v);
                auto g = st ? a.sget(env0, jc, id) : a.get(env0, jo, id);
                if(!is_ref(q.k)) REQ(g.j == 0, "C09:unregistered", "unregistered field of type %s yields %llx", d.c_str(), (unsigned long long)g.j);
                else REQ(!g.l || deref(e0, g.l).get() != (Object*)(uintptr_t)want, "C09:unregistered", "unregistered field of type %s kept a write", d.c_str());
                break;
            }
            REQ(!env0->ExceptionCheck(), "C09:unregistered", "exception");
            vh::count("unregistered");
            refs.release();
        }
        other.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        // static storage must not outlive this machine
#define X(K, n) Data::s##n = Ty<K>::type(); Data::s##n##2 = Ty<K>::type();
        FIELDS(X)
#undef X
        vh::distinct(h);
    });
    auto od = owndeeps(std::make_integer_sequence<int, DEEP>());
    auto ob = ownbases(std::make_integer_sequence<int, WIDE>());
    vh::run_cases("deep and wide", 200000, T ? 300 : 30, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        DeepWorld w(e, r);
        const int M = DEEP + WIDE;
        std::vector<bool> hooked(M);
        auto own = [&](int j, Object* o) { return j < DEEP ? od[j].own(o) : ob[j - DEEP].own(o); };
        // shadows the fields of the same name above, or has a name of its own
        auto name = [&](int j) { return j % 3 ? "v" + std::to_string(j) : std::string("v"); };
        for(int j = 0; j < M; ++j) if(r.chance(3, 4)) {
            hooked[j] = true;
            j < DEEP ? od[j].hook(e, w.c[j].get(), name(j)) : ob[j - DEEP].hook(e, w.c[j].get(), name(j));
        }
        std::vector<std::shared_ptr<Object>> objs;
        std::vector<int> cls;
        std::vector<std::map<int, jint>> model;
        for(int n = 0; n < 6; ++n) {
            int k = n == 0 ? DEEP - 1 : n == 1 ? (int)DeepWorld::BELOW : DeepWorld::pick(r);
            objs.push_back(w.make(k));
            cls.push_back(k);
            model.emplace_back();
            for(int j = 0; j < M; ++j) if(DeepWorld::up(k, j)) model.back()[j] = *own(j, objs.back().get());
        }
        for(int n = 0; n < 300; ++n) {
            env->PushLocalFrame(8);
            int x = r.below(objs.size()), j = DeepWorld::above(r, cls[x]);
            if(j < M && hooked[j]) {
                auto f = env->GetFieldID(klass(e, w.c[j]), name(j).c_str(), "I");
                auto o = local(e, objs[x]);
                auto d = fmt("object of class %d, field of class %d", cls[x], j);
                REQ(f, "C09:deep-not-found", "%s", d.c_str());
                int via = j % 3 ? cls[x] : j; // also through the object's own class, if nothing shadows it
                REQ(env->GetFieldID(klass(e, w.c[via]), name(j).c_str(), "I") == f, "C09:deep-not-inherited", "%s", d.c_str());
                if(r.chance(1, 2)) {
                    jint v = r.next();
                    if(r.chance(1, 2)) env->SetIntField(o, f, v);
                    else *own(j, objs[x].get()) = v;
                    model[x][j] = v;
                }
                REQ(env->GetIntField(o, f) == model[x][j], "C09:deep-read", "%s: %d, not %d", d.c_str(), env->GetIntField(o, f), model[x][j]);
                for(auto& m : model[x]) REQ(*own(m.first, objs[x].get()) == m.second, "C09:deep-other", "%s: the one of class %d changed", d.c_str(), m.first);
                vh::count("fields of deep and wide classes");
            }
            env->PopLocalFrame(nullptr);
        }
        vh::distinct(r.s);
    });
    vh::run_cases("crowds", 400000, T ? 1200 : 60, [&](vh::Rng& r, long) { crowd::run("C09", r, crowd::FIELDS); });
    return vh::finish();
}
