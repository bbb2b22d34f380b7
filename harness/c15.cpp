// C15: RegisterNatives, UnregisterNatives and calling natives from C++, against a table model.
#include "crowd.h"
#include "graph.h"
#include "deep.h"
#include <baron/baron.h>
#include <fake-jni/fake-jni.h>
#include <jnivm.h>
using namespace jh;
using namespace jnivm;
using namespace graph;

namespace {
    // What the last native saw
    struct Seen {
        int calls = 0;
        int id = -1;
        JNIEnv* env = nullptr;
        jobject self = nullptr;
        std::shared_ptr<Object> selfobj;
        std::vector<uint64_t> args;
        std::vector<std::shared_ptr<Object>> objs;
        // what it shall do
        uint64_t result = 0;
        jobject objresult = nullptr;
        std::string thrownew;
        std::function<void()> inside;
    };
    thread_local Seen seen;
    template<class T> uint64_t bits(T t) { uint64_t x = 0; memcpy(&x, &t, sizeof t); return x; }
    template<class T> T unbits(uint64_t x) { T t; memcpy(&t, &x, sizeof t); return t; }
    template<class T> void note(JNIEnv* env, T t) {
        if constexpr(std::is_pointer<T>::value) {
            seen.objs.push_back(deref(ENV::FromJNIEnv(env), (jobject)t));
        } else seen.args.push_back(bits(t));
    }
    template<int ID, class R, class... A> R native(JNIEnv* env, jobject self, A... a) {
        ++seen.calls;
        seen.id = ID;
        seen.env = env;
        seen.self = self;
        seen.selfobj = deref(ENV::FromJNIEnv(env), self);
        seen.args.clear();
        seen.objs.clear();
        (note(env, a), ...);
        if(seen.inside) { auto f = std::move(seen.inside); seen.inside = nullptr; auto s = seen; f(); seen = s; }
        if(!seen.thrownew.empty()) env->ThrowNew(env->FindClass("java/lang/Throwable"), seen.thrownew.c_str());
        if constexpr(std::is_pointer<R>::value) return (R)seen.objresult;
        else if constexpr(!std::is_void<R>::value) return unbits<R>(seen.result);
    }
    template<class T> T value(vh::Rng& r) {
        auto x = r.next();
        if(std::is_same<T, jboolean>::value) x &= 1;
        if(std::is_same<T, jfloat>::value && (x & 0x7f800000) == 0x7f800000) x &= ~0x40000000ull;
        if(r.chance(1, 8)) x = r.chance(1, 2) ? 0 : std::is_same<T, jboolean>::value ? 1 : std::is_floating_point<T>::value ? 0x8000000080000000ull : ~0ull;
        return unbits<T>(x);
    }
    // C++ argument for a native parameter
    struct Pool { std::vector<std::shared_ptr<String>> s; std::vector<std::shared_ptr<Array<jint>>> a; std::vector<std::shared_ptr<Object>> o; std::vector<std::shared_ptr<Class>> c; };
    struct Expect { std::vector<uint64_t> args; std::vector<std::shared_ptr<Object>> objs; };
    template<class T> struct Arg { static T make(vh::Rng& r, Pool&, Expect& x) { auto v = value<T>(r); x.args.push_back(bits(v)); return v; } };
#define OBJ(J, Ty, from) template<> struct Arg<J> { static std::shared_ptr<Ty> make(vh::Rng& r, Pool& p, Expect& x) { \
        auto v = r.chance(1, 8) ? nullptr : r.pick(p.from); x.objs.push_back(v); return v; } };
    OBJ(jstring, String, s) OBJ(jintArray, Array<jint>, a) OBJ(jobject, Object, o) OBJ(jclass, Class, c)
#undef OBJ
    struct Shape {
        const char* sig;
        std::vector<void*> fns; // one per native id
        jvalue (*call)(vh::Rng&, Pool&, Expect&, Method*, MethodProxy*, JNIEnv&, Class*, Object*);
        char ret;
    };
    constexpr int IDS = 8;
    template<class R, class... A> struct Maker {
        template<int... I> static std::vector<void*> fns(std::integer_sequence<int, I...>) { return { (void*)native<I, R, A...>... }; }
        template<class... V> static jvalue invoke(Method* m, MethodProxy* p, JNIEnv& env, Class* c, Object* o, V... v) {
            if(m) return c ? m->invoke(env, c, v...) : m->invoke(env, o, v...);
            return c ? p->invoke(env, c, v...) : p->invoke(env, o, v...);
        }
        static jvalue call(vh::Rng& r, Pool& pool, Expect& x, Method* m, MethodProxy* p, JNIEnv& env, Class* c, Object* o) {
            // braces: in order
            std::tuple<decltype(Arg<A>::make(r, pool, x))...> v { Arg<A>::make(r, pool, x)... };
            return std::apply([&](auto... a) { return invoke(m, p, env, c, o, a...); }, v);
        }
    };
    template<class R, class... A> Shape shape(const char* sig) {
        return { sig, Maker<R, A...>::fns(std::make_integer_sequence<int, IDS>()), Maker<R, A...>::call, strchr(sig, ')')[1] };
    }
    // C strings which live only during a call, in blocks of their own
    struct Temp {
        std::vector<std::unique_ptr<char[]>> v;
        char* operator()(const std::string& s) {
            v.emplace_back(new char[s.size() + 1]);
            memcpy(v.back().get(), s.c_str(), s.size() + 1);
            return v.back().get();
        }
    };
}

// Natives that tell which one ran
namespace {
    int deepran = -1;
    template<int N> void deepnative(JNIEnv*, jobject) { deepran = N; }
    template<int... N> std::vector<void*> deepnatives(std::integer_sequence<int, N...>) { return { (void*)deepnative<N>... }; }

    struct H0 : Extends<> {}; struct H1 : Extends<H0> {}; struct H2 : Extends<H1> {}; struct H3 : Extends<H2> {};
    template<int I> jint numbered(JNIEnv*, jobject, jint x) { return I * 1000 + x; }
    template<int... I> std::vector<void*> numbereds(std::integer_sequence<int, I...>) { return { (void*)&numbered<I>... }; }
    void handles(vh::Rng& r) {
        static auto natives = numbereds(std::make_integer_sequence<int, 40>());
        bool fabricates = r.chance(2, 3);
        std::unique_ptr<FakeJni::Jvm> machine;
        if(fabricates) machine.reset(new Baron::Jvm());
        else machine.reset(new FakeJni::Jvm());
        auto& jvm = *machine;
        FakeJni::LocalFrame frame(jvm);
        auto env = &frame.getJniEnv();
        auto e = ENV::FromJNIEnv(env);
        std::shared_ptr<Class> c[] = { e->GetClass<H0>("c15/H0"), e->GetClass<H1>("c15/H1"), e->GetClass<H2>("c15/H2"), e->GetClass<H3>("c15/H3") };
        std::function<std::shared_ptr<Object>()> make[] = { std::make_shared<H0>, std::make_shared<H1>, std::make_shared<H2>, std::make_shared<H3> };
        enum { INSTANCE, STATIC, NATIVE, KINDS };
        static const char* kinds[] = { "instance", "static", "native" };
        std::map<int, int> tab[4][KINDS]; // name -> number
        std::set<int> fab[4][2]; // names of fabricated methods
        int last = 39;
        auto nearest = [&](int k, int kind, int n) -> int { for(; k >= 0; --k) { auto f = tab[k][kind].find(n); if(f != tab[k][kind].end()) return f->second; } return -1; };
        for(int s = 0; s < 120; ++s) {
            env->PushLocalFrame(8);
            int k = r.below(4), n = r.below(16);
            auto name = "m" + std::to_string(n);
            bool unhooked = n >= 12; // only looked up and registered as native
            if(unhooked && r.chance(1, 3)) {
                bool st = r.chance(1, 2);
                vh::op("class %d: lookup of %s %s", k, kinds[st], name.c_str());
                auto id = st ? env->GetStaticMethodID(klass(e, c[k]), name.c_str(), "(I)I") : env->GetMethodID(klass(e, c[k]), name.c_str(), "(I)I");
                REQ(fabricates == (bool)id && (!id || !((Method*)id)->native), "C15:placeholder", "class %d, %s", k, name.c_str());
                int q = fabricates ? k : -1;
                while(q >= 0 && !fab[q][st].count(n)) --q;
                if(q < 0 && fabricates) fab[k][st].insert(n);
                vh::count("handles: fabricated methods");
            } else if(r.chance(1, 3)) {
                int kind = unhooked ? NATIVE : r.below(KINDS), no = kind == NATIVE ? r.below(40) : ++last;
                vh::op("class %d gets %s %s: %d", k, kinds[kind], name.c_str(), no);
                if(kind == INSTANCE) c[k]->HookInstanceFunction(e, name, [no](ENV*, Object*, jint x) -> jint { return no * 1000 + x; });
                else if(kind == STATIC) c[k]->Hook(e, name, [no](ENV*, Class*, jint x) -> jint { return no * 1000 + x; });
                else { JNINativeMethod m { (char*)name.c_str(), (char*)"(I)I", natives[no] }; env->RegisterNatives(klass(e, c[k]), &m, 1); }
                tab[k][kind][n] = no;
                vh::count("handles: registrations");
            } else if(r.chance(1, 20)) {
                vh::op("class %d loses its natives", k);
                env->UnregisterNatives(klass(e, c[k]));
                tab[k][NATIVE].clear();
            } else {
                int st = nearest(k, STATIC, n), in = nearest(k, INSTANCE, n), na = in < 0 && st < 0 ? nearest(k, NATIVE, n) : -1;
                auto p = c[k]->getMethod("(I)I", name.c_str());
                bool placeholder = false;
                for(int q = 0; q <= k; ++q) placeholder |= fab[q][0].count(n) || fab[q][1].count(n);
                if(placeholder) {
                    vh::op("class %d: handle of %s, looked up before: native %d", k, name.c_str(), na);
                    if(na >= 0) vh::count("handles of natives looked up before");
                    else { env->PopLocalFrame(nullptr); continue; }
                }
                vh::op("class %d: handle of %s: instance %d, static %d, native %d", k, name.c_str(), in, st, na);
                if(in < 0 || st < 0) REQ((bool)p == (in >= 0 || st >= 0 || na >= 0), "C15:handle-truth", "class %d, %s: instance %d, static %d, native %d, but the handle is %d", k, name.c_str(), in, st, na, (bool)p);
                REQ((bool)std::as_const(p) == ((in >= 0) != (st >= 0) || na >= 0), "C15:handle-truth", "class %d, %s: instance %d, static %d, native %d, but the constant handle is %d", k, name.c_str(), in, st, na, (bool)std::as_const(p));
                bool threw = false;
                Method* m = nullptr;
                try { m = (Method*)p; } catch(const std::exception&) { threw = true; }
                REQ(threw == (in >= 0 && st >= 0) && (threw || (bool)m == (bool)p), "C15:handle-method", "class %d, %s", k, name.c_str());
                if(m) {
                    REQ(m->name == name && m->signature == "(I)I" && !strcmp(GetJMethodIDSignature((jmethodID)m), "(I)I"), "C15:handle-method", "class %d, %s: the handle is of %s%s", k, name.c_str(), m->name.c_str(), m->signature.c_str());
                    REQ((st >= 0) == m->_static && (na >= 0) == (m->native != nullptr), "C15:handle-method", "class %d, %s: a method of another kind", k, name.c_str());
                    if(st >= 0) REQ((jmethodID)m == env->GetStaticMethodID(klass(e, c[k]), name.c_str(), "(I)I"), "C15:handle-method", "class %d, %s: identifier", k, name.c_str());
                    if(in >= 0) REQ((jmethodID)m == env->GetMethodID(klass(e, c[k]), name.c_str(), "(I)I"), "C15:handle-method", "class %d, %s: identifier", k, name.c_str());
                }
                // an object of this class or one below, whose override runs
                int d = k + r.below(4 - k);
                auto o = make[d]();
                jint x = r.below(1000);
                auto call = [&](bool on, int want) {
                    threw = false;
                    jint got = -1;
                    try { got = on ? p.invoke(*env, o.get(), x).i : p.invoke(*env, c[k].get(), x).i; } catch(const std::exception&) { threw = true; }
                    REQ(threw == (want < 0) && (want < 0 || got == want * 1000 + x), "C15:handle-call", "class %d, %s: %s yields %d, expected of %d (%d)", k, name.c_str(), on ? "an object" : "the class", got, want, x);
                    REQ(!env->ExceptionCheck(), "C15:handle-call", "an exception is pending");
                };
                call(false, st >= 0 ? st : na);
                call(true, in >= 0 ? nearest(d, INSTANCE, n) : na);
                vh::count(in >= 0 && st >= 0 ? "handles of two methods" : na >= 0 ? "handles of natives" : in >= 0 ? "handles of instance methods" : st >= 0 ? "handles of static methods" : "empty handles");
            }
            env->PopLocalFrame(nullptr);
        }
        vh::distinct(r.s);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C15");
    bool T = vh::S().thorough;
    static const std::vector<Shape> shapes = {
        shape<void>("()V"), shape<jint, jint>("(I)I"), shape<jlong, jlong, jint>("(JI)J"), shape<jboolean, jboolean, jbyte, jchar, jshort>("(ZBCS)Z"),
        shape<jfloat, jfloat, jdouble, jfloat>("(FDF)F"), shape<jdouble, jint, jdouble, jlong, jfloat, jint, jdouble, jlong, jfloat, jint, jdouble, jlong, jint, jfloat, jdouble, jdouble, jdouble, jdouble>("(IDJFIDJFIDJIFDDDD)D"),
        shape<jobject, jstring, jobject>("(Ljava/lang/String;Ljava/lang/Object;)Ljava/lang/Object;"), shape<jstring, jstring>("(Ljava/lang/String;)Ljava/lang/String;"),
        shape<jbyte, jintArray, jbyte>("([IB)B"), shape<jchar, jclass>("(Ljava/lang/Class;)C"), shape<jshort, jint, jstring, jdouble, jobject, jintArray, jclass, jlong, jobject>("(ILjava/lang/String;DLjava/lang/Object;[ILjava/lang/Class;JLjava/lang/Object;)S"),
        shape<jintArray, jbyte, jbyte, jbyte, jbyte, jbyte, jbyte, jbyte, jbyte, jbyte>("(BBBBBBBBB)[I"), shape<jint>("()I"), shape<void, jlong, jobject>("(JLjava/lang/Object;)V") };
    std::vector<std::vector<Ent>> worlds = { world<0>(), world<1>(), world<2>(), world<4>() };
    vh::run_cases("native histories", 0, T ? 6000 : 500, [&](vh::Rng& r, long i) {
        auto& w = worlds[i % worlds.size()];
        FakeJni::Jvm jvm;
        FakeJni::LocalFrame frame(jvm);
        auto e0 = ENV::FromJNIEnv(&frame.getJniEnv());
        Worker other;
        FakeJni::LocalFrame* oframe = nullptr;
        other.run([&] { oframe = new FakeJni::LocalFrame(jvm); });
        std::vector<std::shared_ptr<Class>> c(NC);
        for(int k = 0; k < NC; ++k) c[k] = w[k].reg(e0, ("c15/K" + std::to_string(k)).c_str());
        c.push_back(e0->GetClass("c15/Plain"));
        int N = c.size();
        Stretch stretch(r);
        std::vector<std::string> names = { stretch("a"), stretch("aa"), stretch("native"), stretch("b"), "" };
        struct Key { int name, shape; bool operator<(const Key& o) const { return std::tie(name, shape) < std::tie(o.name, o.shape); } };
        std::vector<Key> keys;
        for(int k = 0; k < 9; ++k) keys.push_back({ (int)r.below(names.size()), (int)r.below(shapes.size()) });
        for(int k = 0; k < 3; ++k) keys.push_back({ keys[r.below(9)].name, (int)r.below(shapes.size()) });
        std::vector<std::map<Key, int>> tab(N);
        std::map<std::pair<int, Key>, MethodProxy> proxies; // of a class's own natives
        std::map<std::pair<int, Key>, int> chosen;      // class which an ambiguous lookup picked
        // methods which are no natives
        for(int k = 0; k < N; ++k) {
            c[k]->Hook(e0, "sm", [k]() -> jint { return 1000 + k; });
            c[k]->HookInstanceFunction(e0, "im", [k](Object*) -> jint { return 2000 + k; });
            c[k]->Hook(e0, "a", [k](std::shared_ptr<Array<jlong>>) -> jint { return 3000 + k; });
        }
        std::function<void(int, Key, std::set<int>&)> frontier = [&](int k, Key q, std::set<int>& out) {
            if(tab[k].count(q)) { out.insert(k); return; }
            if(k < NC) for(auto b : w[k].bases) frontier(b, q, out);
        };
        auto on = [&](std::function<void(ENV*)> f) {
            auto g = [&](FakeJni::Env& fe) {
                auto e = ENV::FromJNIEnv(&fe);
                e->GetJNIEnv()->PushLocalFrame(16);
                f(e);
                REQ(!e->GetJNIEnv()->ExceptionCheck(), "C15:stray-exception", "pending");
                e->GetJNIEnv()->PopLocalFrame(nullptr);
            };
            if(r.chance(1, 4)) other.run([&] { g(oframe->getJniEnv()); });
            else g(frame.getJniEnv());
        };
        Pool pool;
        for(int k = 0; k < 3; ++k) {
            pool.s.push_back(std::make_shared<String>("s" + std::to_string(k)));
            pool.a.push_back(std::make_shared<Array<jint>>(k + 1));
            pool.o.push_back(k == 0 ? std::static_pointer_cast<Object>(pool.s[0]) : w[k].make());
            pool.c.push_back(c[k]);
        }
        uint64_t h = 0;
        auto call = [&](ENV* e, int k, Key q) {
            auto env = e->GetJNIEnv();
            auto& s = shapes[q.shape];
            std::set<int> f;
            frontier(k, q, f);
            auto d = fmt("class %d, %s%s", k, names[q.name].c_str(), s.sig);
            Temp temp;
            auto m = c[k]->getMethod(temp(s.sig), temp(names[q.name]));
            if(f.empty()) {
                REQ(!(bool)m, "C15:found-unregistered", "%s is found", d.c_str());
                bool thrown = false;
                seen = Seen();
                try {
                    Expect x;
                    s.call(r, pool, x, nullptr, &m, *env, c[k].get(), nullptr);
                } catch(const std::exception&) {
                    thrown = true;
                }
                REQ(thrown && !seen.calls, "C15:found-unregistered", "%s is called", d.c_str());
                vh::count("absent");
                return;
            }
            REQ((bool)m, "C15:not-found", "%s is not found", d.c_str());
            auto own = f.size() == 1 && *f.begin() == k;
            MethodProxy old = m;
            if(own) { // proxies of earlier lookups are as good
                auto it = proxies.find({ k, q });
                if(it == proxies.end()) proxies.emplace(std::make_pair(k, q), m);
                else if(r.chance(1, 2)) { old = it->second; vh::count("earlier proxies"); }
            }
            Method* mm = r.chance(1, 2) ? (Method*)old : nullptr;
            seen = Seen();
            seen.result = r.next();
            if(s.ret == 'Z') seen.result &= 1;
            if(s.ret == 'F' && ((seen.result & 0x7f800000) == 0x7f800000)) seen.result &= ~0x40000000ull;
            std::shared_ptr<Object> ro;
            if(s.ret == 'L' || s.ret == '[') {
                if(!r.chance(1, 6)) ro = s.ret == '[' ? std::static_pointer_cast<Object>(r.pick(pool.a)) : std::static_pointer_cast<Object>(r.pick(pool.s));
                seen.objresult = local(e, ro);
            }
            bool throws = r.chance(1, 10);
            if(throws) seen.thrownew = "thrown by " + d;
            bool st = r.chance(1, 2);
            auto obj = k < NC ? w[k].make() : std::static_pointer_cast<Object>(std::make_shared<String>("x"));
            auto before = obj.use_count();
            if(r.chance(1, 8)) seen.inside = [&, e] { e->GetJNIEnv()->FindClass("c15/K3"); };
            Expect x;
            jvalue v {};
            bool thrown = false;
            std::string msg;
            vh::op("call %s as %s%s", d.c_str(), st ? "static" : "instance", throws ? ", throwing" : "");
            try {
                v = s.call(r, pool, x, mm, &old, *env, st ? c[k].get() : nullptr, st ? nullptr : obj.get());
            } catch(const std::runtime_error& ex) {
                thrown = true;
                msg = ex.what();
            }
            REQ(thrown == throws, "C15:throws", "%s: %s", d.c_str(), thrown ? msg.c_str() : "no exception");
            if(throws) {
                REQ(msg == seen.thrownew, "C15:message", "%s: %s", d.c_str(), msg.c_str());
                env->ExceptionClear();
                vh::count("throwing");
            }
            REQ(seen.calls == 1, "C15:calls", "%s: %d natives ran", d.c_str(), seen.calls);
            // which one?
            int from = -1;
            for(auto x : f) if(tab[x][q] == seen.id) from = x;
            REQ(from >= 0, "C15:wrong-function", "%s: native %d ran, class %d has %d", d.c_str(), seen.id, *f.begin(), tab[*f.begin()][q]);
            REQ(seen.env == env, "C15:environment", "%s: another environment", d.c_str());
            REQ(seen.selfobj == (st ? std::static_pointer_cast<Object>(c[k]) : obj), "C15:self", "%s: another %s", d.c_str(), st ? "class" : "object");
            REQ(seen.args == x.args, "C15:arguments", "%s: other primitive arguments", d.c_str());
            REQ(seen.objs == x.objs, "C15:arguments", "%s: other object arguments", d.c_str());
            if(!throws) switch(s.ret) {
            case 'V': break;
            case 'L': case '[': REQ(deref(e, v.l) == ro, "C15:result", "%s: another object", d.c_str()); break;
            case 'Z': REQ(v.z == unbits<jboolean>(seen.result), "C15:result", "%s", d.c_str()); break;
            case 'B': REQ(v.b == unbits<jbyte>(seen.result), "C15:result", "%s", d.c_str()); break;
            case 'C': REQ(v.c == unbits<jchar>(seen.result), "C15:result", "%s", d.c_str()); break;
            case 'S': REQ(v.s == unbits<jshort>(seen.result), "C15:result", "%s", d.c_str()); break;
            case 'I': REQ(v.i == unbits<jint>(seen.result), "C15:result", "%s", d.c_str()); break;
            case 'J': REQ(v.j == unbits<jlong>(seen.result), "C15:result", "%s", d.c_str()); break;
            case 'F': REQ(bits(v.f) == bits(unbits<jfloat>(seen.result)), "C15:result", "%s", d.c_str()); break;
            default: REQ(bits(v.d) == seen.result, "C15:result", "%s", d.c_str());
            }
            vh::count(own ? "own" : "inherited");
        };
        auto others = [&](ENV* e, int k) { // methods which are no natives are as ever
            auto env = e->GetJNIEnv();
            auto jc = klass(e, c[k]);
            auto obj = k < NC ? w[k].make() : nullptr;
            auto m1 = env->GetStaticMethodID(jc, "sm", "()I");
            REQ(m1 && env->CallStaticIntMethod(jc, m1) == 1000 + k, "C15:other-methods", "static method of class %d", k);
            auto m2 = env->GetStaticMethodID(jc, "a", "([J)I");
            REQ(m2 && env->CallStaticIntMethod(jc, m2, nullptr) == 3000 + k, "C15:other-methods", "overload of class %d", k);
            auto m3 = env->GetMethodID(jc, "im", "()I");
            REQ(m3 && (!obj || env->CallIntMethod(local(e, obj), m3) == 2000 + k), "C15:other-methods", "method of class %d", k);
            vh::count("other methods");
        };
        int steps = 40 + r.below(60);
        for(int s = 0; s < steps; ++s) {
            int op = r.below(10), k = r.below(N);
            h = vh::mix(h, op * 100 + k);
            if(op <= 2) {
                int n = r.chance(1, 6) ? 0 : 1 + r.below(4);
                on([&](ENV* e) {
                    Temp temp;
                    std::unique_ptr<JNINativeMethod[]> m(new JNINativeMethod[n]);
                    for(int x = 0; x < n; ++x) {
                        auto& q = r.pick(keys);
                        int id = r.below(IDS);
                        m[x] = { temp(names[q.name]), temp(shapes[q.shape].sig), shapes[q.shape].fns[id] };
                        vh::op("register for class %d: %s%s = native %d", k, names[q.name].c_str(), shapes[q.shape].sig, id);
                        if(tab[k].count(q)) vh::count("replaced");
                        tab[k][q] = id;
                        vh::count("registered");
                    }
                    Refs refs(e->GetJNIEnv());
                    auto jc = refs.make((jobject)klass(e, c[k]), r.below(RKINDS));
                    REQ(e->GetJNIEnv()->RegisterNatives((jclass)jc, m.get(), n) == 0, "C15:register", "failed");
                    refs.release();
                });
            } else if(op == 3) {
                vh::op("unregister class %d", k);
                on([&](ENV* e) {
                    Refs refs(e->GetJNIEnv());
                    auto jc = refs.make((jobject)klass(e, c[k]), r.below(RKINDS));
                    REQ(e->GetJNIEnv()->UnregisterNatives((jclass)jc) == 0, "C15:unregister", "failed");
                    refs.release();
                });
                tab[k].clear();
                for(auto it = proxies.begin(); it != proxies.end();) it = it->first.first == k ? proxies.erase(it) : std::next(it);
                on([&](ENV* e) { others(e, k); });
                vh::count("unregistered");
            } else if(op == 4) on([&](ENV* e) { others(e, k); });
            else on([&](ENV* e) {
                Key q = r.pick(keys);
                if(r.chance(1, 10)) q.shape = r.below(shapes.size());
                call(e, k, q);
            });
        }
        // Many at once: one call registers hundreds
        if(r.chance(1, 4)) {
            int k = r.below(N), n = (const int[]) { 17, 33, 65, 130, 260, 520 }[r.below(6)];
            size_t first = keys.size();
            on([&](ENV* e) {
                Temp temp;
                std::unique_ptr<JNINativeMethod[]> m(new JNINativeMethod[n]);
                for(int x = 0; x < n; ++x) {
                    Key q { (int)names.size(), (int)r.below(shapes.size()) };
                    names.push_back(stretch("bulk" + std::to_string(x)));
                    int id = r.below(IDS);
                    m[x] = { temp(names[q.name]), temp(shapes[q.shape].sig), shapes[q.shape].fns[id] };
                    tab[k][q] = id;
                    keys.push_back(q);
                }
                vh::op("register %d natives for class %d", n, k);
                REQ(e->GetJNIEnv()->RegisterNatives(klass(e, c[k]), m.get(), n) == 0, "C15:register", "failed");
            });
            for(size_t x = first; x < keys.size(); ++x) on([&](ENV* e) { call(e, k, keys[x]); });
            vh::count("bulk registrations");
            if(r.chance(1, 2)) {
                on([&](ENV* e) { REQ(e->GetJNIEnv()->UnregisterNatives(klass(e, c[k])) == 0, "C15:unregister", "failed"); });
                tab[k].clear();
                for(auto it = proxies.begin(); it != proxies.end();) it = it->first.first == k ? proxies.erase(it) : std::next(it);
                for(size_t x = first; x < keys.size(); ++x) on([&](ENV* e) { call(e, k, keys[x]); });
                keys.resize(first);
            }
        }
        // the whole table
        for(int k = 0; k < N; ++k) for(auto& q : keys) on([&](ENV* e) { call(e, k, q); });
        other.run([&] { delete oframe; });
        vh::distinct(h);
    });
    auto dn = deepnatives(std::make_integer_sequence<int, DeepWorld::ALL>());
    vh::run_cases("deep and wide", 200000, T ? 300 : 30, [&](vh::Rng& r, long) {
        FakeJni::Jvm jvm;
        FakeJni::LocalFrame frame(jvm);
        JNIEnv* env = &frame.getJniEnv();
        auto e = ENV::FromJNIEnv(env);
        DeepWorld w(e, r);
        std::vector<std::map<int, int>> tab(3);
        for(int n = 0; n < 250; ++n) {
            env->PushLocalFrame(16);
            int k = DeepWorld::pick(r), q = r.below(3);
            auto name = "n" + std::to_string(q);
            if(r.chance(1, 6)) {
                int j = DeepWorld::above(r, k);
                int f = r.below(dn.size());
                JNINativeMethod m { (char*)name.c_str(), (char*)"()V", dn[f] };
                env->RegisterNatives(klass(e, w.c[j]), &m, 1);
                tab[q][j] = f;
                vh::op("class %d has %s as %d", j, name.c_str(), f);
            } else if(r.chance(1, 12)) {
                int j = DeepWorld::above(r, k);
                env->UnregisterNatives(klass(e, w.c[j]));
                for(auto& t : tab) t.erase(j);
                vh::op("class %d has none", j);
            }
            auto want = DeepWorld::nearest(k, tab[q]);
            auto m = w.c[k]->getMethod("()V", name.c_str());
            REQ((bool)m == !want.empty(), "C15:deep-lookup", "%s of class %d is %sfound", name.c_str(), k, m ? "" : "not ");
            if(m) {
                deepran = -1;
                auto o = w.make(k);
                if(r.chance(1, 2)) m.invoke(*env, o.get());
                else m.invoke(*env, w.c[k].get());
                bool ok = false;
                for(auto b : want) ok |= deepran == tab[q][b];
                REQ(ok, "C15:deep-wrong-function", "%s of class %d: %d ran, expected class %d's %d", name.c_str(), k, deepran, *want.begin(), tab[q][*want.begin()]);
                vh::count("natives of deep and wide classes");
            }
            env->PopLocalFrame(nullptr);
        }
        vh::distinct(r.s);
    });
    // what handles denote where there are hooked methods, natives, both or neither
    vh::run_cases("handles", 300000, T ? 4000 : 250, [&](vh::Rng& r, long) { handles(r); });
    vh::run_cases("crowds", 400000, T ? 1600 : 80, [&](vh::Rng& r, long) { crowd::run("C15", r, crowd::NATIVES); });
    return vh::finish();
}
