// C08: dispatch of instance and non-virtual calls over random placements of implementations in a hierarchy.
#include "graph.h"
#include "deep.h"
#include "prim.h"
using namespace jh;
using namespace jnivm;
using namespace graph;

namespace {
    enum { LAMBDA, SELF, MEMBER };
    struct Ran {
        int tag = 0, times = 0;
        Object* self = nullptr;
        double arg = 0;
    };
    Ran ran;
    // One signature: an argument and a result of the same type, or none
    struct Sig {
        const char* sig;
        void (*hook)(ENV*, Class*, const std::string&, int tag, bool self);
        // form: 0 jvalue array, 1 va_list, 2 variadic
        double (*call)(JNIEnv*, jobject, jclass, jmethodID, int form, bool nonv, int a, jstring str, bool& same);
        double (*value)(int); // what an integer reads as after a conversion to the type and back
    };
    template<class T> T val(int x) {
        if constexpr(std::is_floating_point<T>::value) return (T)(x / 2.0);
        else return (T)x;
    }
    template<> jboolean val<jboolean>(int x) { return (jboolean)(x & 1); }
    template<class T> double value(int x) { return (double)val<T>(x); }
    template<class T> void hookT(ENV* e, Class* cl, const std::string& n, int tag, bool self) {
        if(self) cl->HookInstanceFunction(e, n, [tag](ENV*, Object* o, T a) -> T { ran = { tag, ran.times + 1, o, (double)a }; return val<T>(tag); });
        else cl->HookInstanceFunction(e, n, [tag](ENV*, T a) -> T { ran = { tag, ran.times + 1, nullptr, (double)a }; return val<T>(tag); });
    }
    void hookS(ENV* e, Class* cl, const std::string& n, int tag, bool self) {
        if(self) cl->HookInstanceFunction(e, n, [tag](ENV*, Object* o, std::shared_ptr<String> a) -> std::shared_ptr<String> { ran = { tag, ran.times + 1, o, 0 }; return a; });
        else cl->HookInstanceFunction(e, n, [tag](ENV*, std::shared_ptr<String> a) -> std::shared_ptr<String> { ran = { tag, ran.times + 1, nullptr, 0 }; return a; });
    }
    void hookV(ENV* e, Class* cl, const std::string& n, int tag, bool self) {
        if(self) cl->HookInstanceFunction(e, n, [tag](ENV*, Object* o) { ran = { tag, ran.times + 1, o, 0 }; });
        else cl->HookInstanceFunction(e, n, [tag](ENV*) { ran = { tag, ran.times + 1, nullptr, 0 }; });
    }
#define VA(R, N) \
    R v##N(JNIEnv* e, jobject o, jmethodID m, ...) { va_list l; va_start(l, m); struct D { va_list& l; ~D() { va_end(l); } } d { l }; return e->functions->Call##N##MethodV(e, o, m, l); } \
    R nv##N(JNIEnv* e, jobject o, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); struct D { va_list& l; ~D() { va_end(l); } } d { l }; return e->functions->CallNonvirtual##N##MethodV(e, o, c, m, l); }
#define CALL(N, ...) (nonv ? form == 0 ? f->CallNonvirtual##N##MethodA(e, o, c, m, v) : form == 1 ? nv##N(e, o, c, m __VA_ARGS__) : f->CallNonvirtual##N##Method(e, o, c, m __VA_ARGS__) \
    : form == 0 ? f->Call##N##MethodA(e, o, m, v) : form == 1 ? v##N(e, o, m __VA_ARGS__) : f->Call##N##Method(e, o, m __VA_ARGS__))
#define COMMA ,
#define X(N, T, mem, d) VA(T, N) double call##N(JNIEnv* e, jobject o, jclass c, jmethodID m, int form, bool nonv, int a, jstring, bool&) { \
        auto f = e->functions; T x = val<T>(a); jvalue v[1]; v[0].mem = x; return (double)CALL(N, COMMA x); }
    PRIMS(X)
#undef X
    VA(jobject, Object)
    double callObject(JNIEnv* e, jobject o, jclass c, jmethodID m, int form, bool nonv, int, jstring str, bool& same) {
        auto f = e->functions;
        jvalue v[1];
        v[0].l = (jobject)str;
        auto x = CALL(Object, COMMA str);
        same = e->IsSameObject(x, (jobject)str);
        return 0;
    }
    VA(void, Void)
    double callVoid(JNIEnv* e, jobject o, jclass c, jmethodID m, int form, bool nonv, int, jstring, bool&) {
        auto f = e->functions;
        jvalue v[1];
        v[0].l = nullptr;
        CALL(Void, );
        return 0;
    }
    double zero(int) { return 0; }
    // The first is the one that also takes member functions
    const Sig sigs[] = { { "(I)I", hookT<jint>, callInt, value<jint> }, { "(J)J", hookT<jlong>, callLong, value<jlong> }, { "(Ljava/lang/String;)Ljava/lang/String;", hookS, callObject, zero }, { "()V", hookV, callVoid, zero },
        { "(Z)Z", hookT<jboolean>, callBoolean, value<jboolean> }, { "(B)B", hookT<jbyte>, callByte, value<jbyte> }, { "(C)C", hookT<jchar>, callChar, value<jchar> }, { "(S)S", hookT<jshort>, callShort, value<jshort> },
        { "(F)F", hookT<jfloat>, callFloat, value<jfloat> }, { "(D)D", hookT<jdouble>, callDouble, value<jdouble> } };
    const int NS = sizeof(sigs) / sizeof(*sigs);
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C08");
    bool T = vh::S().thorough;
    std::vector<std::vector<Ent>> worlds = { world<0>(), world<1>(), world<2>(), world<3>() };
    vh::run_cases("dispatch histories", 0, T ? 8000 : 600, [&](vh::Rng& r, long i) {
        auto w = worlds[i % worlds.size()];
        jnivm::VM vm(false, r.chance(1, 2));
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        std::vector<std::shared_ptr<Class>> c(NC);
        for(int k = 0; k < NC; ++k) c[k] = w[k].reg(e, ("c8/K" + std::to_string(k)).c_str());
        bool up[NC][NC] = {};
        for(int n = 0; n < NC; ++n) {
            up[n][n] = true;
            for(auto b : w[n].bases) for(int j = 0; j < NC; ++j) up[n][j] |= up[b][j];
        }
        using Key = std::pair<std::string, int>;
        struct Impl { int tag, kind; };
        std::map<std::pair<int, Key>, Impl> impl;
        Stretch stretch(r);
        auto nf = stretch("f"), ng = stretch("g");
        std::vector<Key> keys = { { nf, 0 }, { nf, (int)r.below(NS) }, { nf, (int)r.below(NS) }, { ng, 0 }, { ng, (int)r.below(NS) }, { nf, (int)r.below(NS) } };
        int tags = 0;
        std::function<void(int, const Key&, std::set<int>&)> frontier = [&](int k, const Key& q, std::set<int>& out) {
            if(impl.count({ k, q })) {
                out.insert(k);
                return;
            }
            for(auto b : w[k].bases) frontier(b, q, out);
        };
        auto reg = [&](int k, const Key& q) {
            int kind = r.below(q.second == 0 ? 3 : 2);
            int tag = ++tags;
            auto cl = c[k].get();
            auto n = q.first;
            if(kind == MEMBER) w[k].hookmember(e, cl, n);
            else sigs[q.second].hook(e, cl, n, tag, kind == SELF);
            impl[{ k, q }] = { tag, kind };
            vh::op("class %d implements %s%s tag %d kind %d", k, n.c_str(), sigs[q.second].sig, tag, kind);
        };
        std::string shape = std::to_string(i % worlds.size());
        int steps = 10 + r.below(60);
        for(int s = 0; s < steps; ++s) {
            if(s < 6 || r.chance(1, 3)) {
                int k = r.below(NC);
                auto q = r.pick(keys);
                reg(k, q);
                // overriding static methods of the same name must not interfere
                if(r.chance(1, 4)) c[k]->Hook(e, q.first, [](ENV*, jint) -> jint { ran = { -1, ran.times + 1, nullptr, 0 }; return -1; });
                shape += fmt("%d%s%d,", k, q.first.c_str(), q.second);
                continue;
            }
            env->PushLocalFrame(16);
            Refs refs(env);
            auto q = r.pick(keys);
            int k = r.below(NC); // class of the object
            std::vector<int> anc;
            for(int j = 0; j < NC; ++j) if(up[k][j]) anc.push_back(j);
            bool nonv = r.chance(1, 3);
            int named = nonv ? r.pick(anc) : k;
            // identifier from the class itself or any of its ancestors
            std::vector<int> from;
            for(int j = 0; j < NC; ++j) if(up[named][j]) from.push_back(j);
            int via = r.pick(from);
            auto id = env->GetMethodID(klass(e, c[via]), q.first.c_str(), sigs[q.second].sig);
            if(!id) { // only possible where nothing is fabricated and via has nothing
                std::set<int> f;
                frontier(via, q, f);
                REQ(f.empty(), "C08:lookup", "class %d has or inherits %s%s", via, q.first.c_str(), sigs[q.second].sig);
                env->PopLocalFrame(nullptr);
                continue;
            }
            // the object: created natively or through its default constructor, passed as itself or as a base class
            std::shared_ptr<Object> keep;
            int way = (const int[]) { -1, -2, -3 }[r.below(3)];
            if(!w[k].bases.empty() && r.chance(1, 2)) way = r.pick(w[k].bases);
            jobject o;
            if(way == -3) {
                keep = c[k]->Instantiate(e);
                o = local(e, keep);
            } else o = w[k].pass(e, way, keep);
            o = refs.make(o, r.below(RKINDS));
            auto jc = (jclass)refs.make((jobject)klass(e, c[named]), r.below(RKINDS));
            std::set<int> want;
            frontier(named, q, want);
            int form = r.below(3);
            jint a = (jint)r.next() % 1000;
            auto str = env->NewStringUTF("argument");
            ran = {};
            bool same = true;
            auto& sg = sigs[q.second];
            double res = sg.call(env, o, jc, id, form, nonv, a, str, same);
            std::string d = fmt("%s call of %s%s on an object of class %d passed as %d, named class %d, identifier from %d", nonv ? "non-virtual" : "virtual", q.first.c_str(), sigs[q.second].sig, k, way, named, via);
            vh::op("%s: tag %d, result %g", d.c_str(), ran.tag, res);
            bool ex = env->ExceptionCheck();
            env->ExceptionClear();
            if(want.empty()) {
                REQ(ran.times == 0 && res == 0 && !ex, "C08:unimplemented", "%s: something ran", d.c_str());
                vh::count("unimplemented");
            } else {
                bool ok = false;
                std::string exp;
                for(auto b : want) {
                    auto& im = impl[{ b, q }];
                    exp += fmt("class %d (tag %d) ", b, im.tag);
                    if(im.kind == MEMBER) ok |= nonv ? ex && ran.times == 0 && res == 0 : !ex && ran.times == 0 && res == 100000 + b * 1000 + a;
                    else ok |= !ex && ran.times == 1 && ran.tag == im.tag && (im.kind == LAMBDA || ran.self == keep.get()) && ran.arg == (sg.value == zero ? 0 : sg.value(a)) && res == sg.value(im.tag) && same;
                }
                REQ(ok, nonv ? "C08:nonvirtual" : "C08:virtual", "%s: ran tag %d %d times on %p, result %g, exception %d; expected %s", d.c_str(), ran.tag, ran.times, (void*)ran.self, res, ex, exp.c_str());
                vh::count(nonv ? "non-virtual" : "virtual");
                vh::count(std::string("results ") + (sg.sig + strcspn(sg.sig, ")") + 1));
                if(want.size() == 1 && *want.begin() != named) vh::count("inherited");
                if(!nonv && via != k && want.count(k)) vh::count("overridden");
                if(nonv) {
                    std::set<int> real;
                    frontier(k, q, real);
                    if(real != want) vh::count("non-virtual past an override");
                }
            }
            refs.release();
            env->PopLocalFrame(nullptr);
        }
        vh::distinct(vh::hash(shape));
    });
    vh::run_cases("deep and wide", 200000, T ? 400 : 40, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        DeepWorld w(e, r);
        std::vector<std::map<int, int>> impl(NS);
        std::map<std::pair<int, int>, int> chosen;
        int tags = 0;
        for(int n = 0; n < 250; ++n) {
            env->PushLocalFrame(16);
            int q = r.below(NS), k = DeepWorld::pick(r);
            if(impl[q].size() < 6 && r.chance(1, 4)) {
                int a = DeepWorld::above(r, k), tag = ++tags;
                sigs[q].hook(e, w.c[a].get(), "f", tag, true);
                impl[q][a] = tag;
                chosen.clear();
                vh::op("class %d implements f%s tag %d", a, sigs[q].sig, tag);
            }
            bool nonv = r.chance(1, 3);
            int named = nonv ? DeepWorld::above(r, k) : k, via = DeepWorld::above(r, named);
            auto id = env->GetMethodID(klass(e, w.c[via]), "f", sigs[q].sig);
            if(id) {
                auto obj = w.make(k);
                auto o = local(e, obj);
                auto want = DeepWorld::nearest(named, impl[q]);
                jint a = (jint)r.next() % 1000;
                auto str = env->NewStringUTF("argument");
                ran = {};
                bool same = true;
                double res = sigs[q].call(env, o, klass(e, w.c[named]), id, r.below(3), nonv, a, str, same);
                auto d = fmt("%s call of f%s on an object of class %d, named class %d, identifier from %d", nonv ? "non-virtual" : "virtual", sigs[q].sig, k, named, via);
                REQ(!env->ExceptionCheck(), "C08:deep-exception", "%s", d.c_str());
                if(want.empty()) {
                    REQ(!ran.times && res == 0, "C08:deep-unimplemented", "%s: tag %d ran", d.c_str(), ran.tag);
                } else {
                    bool ok = false;
                    for(auto b : want) ok |= ran.times == 1 && ran.tag == impl[q][b] && ran.self == obj.get() && res == sigs[q].value(impl[q][b]) && same;
                    REQ(ok, "C08:deep-dispatch", "%s: tag %d ran %d times, expected class %d (tag %d)", d.c_str(), ran.tag, ran.times, *want.begin(), impl[q][*want.begin()]);
                    vh::count("deep and wide calls");
                    if(named < DEEP && named - *want.begin() > 20) vh::count("implementations more than 20 levels above");
                }
            } else REQ(DeepWorld::nearest(via, impl[q]).empty(), "C08:deep-lookup", "f%s of class %d", sigs[q].sig, via);
            env->PopLocalFrame(nullptr);
        }
        vh::distinct(r.s);
    });
    return vh::finish();
}
