// C27: hooks are published under exactly the descriptor of their C++ signature.
#include "crowd.h"
#include "values.h"
using namespace sig;
void c27_fill0(std::vector<Fn>&);
void c27_fill1(std::vector<Fn>&);

namespace {
    // Named by the class itself, registered or not
    struct Own : Object {
        static std::string getClassName() { return "own/Name$X"; }
        jint v = 0;
    };
    struct Bar : Foo {
        jint get() const { return payload; }
        void set(jint p) { payload = p; }
        std::shared_ptr<Bar> self(Bar*) { return nullptr; }
        jint envself(ENV*, Bar*, jint p) { return p; }
        void other(Foo*) {}
        jint mixed(ENV*, std::string::size_type);
    };
    int hits;
    ENV* hitenv;
    void* hitself;
    void free_fn(jint) { hits++; }
    struct Renamed : Object {};
    jint renamed_instance(Object*, std::shared_ptr<Renamed>) { return 61; }
    jint renamed_static(std::shared_ptr<Renamed>) { return 62; }
    jlong free_fn2(JNIEnv* e, jclass c, jlong l) { hits++; hitenv = ENV::FromJNIEnv(e); hitself = c; return l; }
}
#define FIELDS(X) X(TZ, z) X(TB, b) X(TC, c) X(TS, s) X(TI, i) X(TJ, j) X(TF, f) X(TD, d) X(TBool, bo) X(TObject, o) X(TString, str) X(TFoo, foo) \
    X(TAI, ai) X(TAJ, aj) X(TAS, as) X(TAAI, aai) X(TAF, af) X(TClass, cl) X(TThrowable, th)
struct Data : Object {
#define X(K, n) Ty<K>::type n {};
    FIELDS(X)
#undef X
#define X(K, n) static Ty<K>::type s##n;
    FIELDS(X)
#undef X
};
#define X(K, n) Ty<K>::type Data::s##n {};
FIELDS(X)
#undef X

int main(int argc, char** argv) {
    vh::init(argc, argv, "C27");
    bool T = vh::S().thorough;
    std::vector<Fn> fns;
    c27_fill0(fns);
    c27_fill1(fns);
    const std::vector<std::string> foos = { "c27/Foo", "I", "V", "LL/ZJ", "Outer$Inner", "a/b/c/d$e$f" };
    auto mutate = [](vh::Rng& r, std::string d) {
        static const char alpha[] = "ZBCSIJFD[L;V()/ax$";
        int n = 1 + r.below(2);
        while(n--) {
            auto p = r.below(d.size());
            switch(r.below(4)) {
            case 0: d.erase(p, 1); break;
            case 1: d.insert(p, 1, alpha[r.below(sizeof alpha - 1)]); break;
            case 2: d[p] = alpha[r.below(sizeof alpha - 1)]; break;
            default: if(p + 1 < d.size()) std::swap(d[p], d[p + 1]);
            }
            if(d.empty()) d = "I";
        }
        return d;
    };
    vh::run_cases("drawn signatures", 0, T ? 600 : 80, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, true);
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        Stretch stretch(r);
        auto fooname = stretch(foos[i % foos.size()]);
        auto foo = e->GetClass<Foo>(fooname.c_str());
        auto host = r.chance(1, 2) ? foo : e->GetClass("c27/Host");
        auto j = klass(e, host);
        // published: (kind, name) -> descriptors
        std::map<std::pair<int, std::string>, std::set<std::string>> pub, maybe;
        std::map<std::tuple<int, std::string, std::string>, std::pair<size_t, jmethodID>> who;
        auto find = [&](int kind, const std::string& n, const std::string& d) {
            return kind == STATIC ? env->GetStaticMethodID(j, n.c_str(), d.c_str()) : env->GetMethodID(j, n.c_str(), d.c_str());
        };
        const std::vector<std::string> names = { stretch("a"), stretch("b"), stretch("aa") };
        int regs = 8 + r.below(40);
        for(int s = 0; s < regs; ++s) {
            auto x = r.below(fns.size());
            auto& f = fns[x];
            int kind = r.below(2) ? STATIC : INSTANCE;
            auto n = r.pick(names);
            auto d = f.descriptor(fooname);
            vh::op("hook %d %s %s", kind, n.c_str(), d.c_str());
            auto before = find(kind, n, d);
            (kind == STATIC ? f.statics : f.instances)(e, host.get(), n);
            auto after = find(kind, n, d);
            REQ(after, "C27:not-published", "%s hook %s not found as %s", kind == STATIC ? "static" : "instance", n.c_str(), d.c_str());
            REQ(!before || before == after, "C27:replaced-identifier", "%s%s", n.c_str(), d.c_str());
            if(before) vh::count("replacements");
            pub[{ kind, n }].insert(d);
            who[{ kind, n, d }] = { x, after };
            // functions which take their class or object may also be reached with it as a parameter
            if(kind == STATIC ? f.self : !f.member) {
                auto alt = std::string(kind == STATIC ? "(Ljava/lang/Class;" : "(Ljava/lang/Object;") + d.substr(1);
                maybe[{ kind, n }].insert(alt);
                // such a publication replaces what was there
                who.erase(std::make_tuple(kind, n, alt));
            }
            vh::count("publications");
            vh::distinct(vh::hash(d) + kind);
        }
        // everything else is unknown
        for(auto& p : pub) {
            for(auto& d : p.second) for(int m = 0; m < 6; ++m) {
                auto q = mutate(r, d);
                if(p.second.count(q) || maybe[p.first].count(q)) continue;
                REQ(!find(p.first.first, p.first.second, q), "C27:published-too-much", "%s is also found as %s, registered: %s", p.first.second.c_str(), q.c_str(), d.c_str());
                vh::count("near-misses");
            }
            for(auto& d : p.second) {
                int o = p.first.first == STATIC ? INSTANCE : STATIC;
                if(!pub[{ o, p.first.second }].count(d) && !maybe[{ o, p.first.second }].count(d))
                    REQ(!find(o, p.first.second, d), "C27:wrong-kind", "%s%s", p.first.second.c_str(), d.c_str());
                REQ(!env->GetFieldID(j, p.first.second.c_str(), d.c_str()) && !env->GetStaticFieldID(j, p.first.second.c_str(), d.c_str()), "C27:method-as-field", "%s", d.c_str());
            }
        }
        // each overload runs the function last registered under it
        for(auto& w : who) {
            auto& f = fns[w.second.first];
            int kind = std::get<0>(w.first);
            env->PushLocalFrame(64);
            Refs refs(env);
            Pool pool(e, r, foo);
            auto self = std::make_shared<Foo>();
            auto js = local(e, self);
            if(host != foo) self->clazz = host; // an object of the host class
            REQ(find(kind, std::get<1>(w.first), std::get<2>(w.first)) == w.second.second, "C27:identifier-changed", "%s%s", std::get<1>(w.first).c_str(), std::get<2>(w.first).c_str());
            std::vector<jvalue> v(f.params.size() + 1);
            std::vector<uint64_t> want(f.params.size());
            for(size_t p = 0; p < f.params.size(); ++p) v[p] = pool.value(r, refs, f.params[p], true, want[p]);
            Call c;
            pool.plan(r, refs, f.ret, c);
            current() = &c;
            auto got = f.call(env, kind, r.below(4), js, j, w.second.second, v.data());
            current() = nullptr;
            REQ(!env->ExceptionCheck(), "C27:exception", "%s%s", std::get<1>(w.first).c_str(), std::get<2>(w.first).c_str());
            REQ(c.calls == 1 && c.fn == f.n, "C27:wrong-function", "%s%s ran function %d instead of %d", std::get<1>(w.first).c_str(), std::get<2>(w.first).c_str(), c.fn, f.n);
            REQ(c.got == want && c.env == e, "C27:arguments", "%s%s", std::get<1>(w.first).c_str(), std::get<2>(w.first).c_str());
            if(kind == STATIC && f.self) REQ(c.self == addr(host.get()), "C27:class", "static function saw another class");
            if(kind == INSTANCE) REQ(c.self == addr((Object*)self.get()), "C27:object", "instance function saw another object");
            auto bad = judge(e, f.ret, c, got);
            REQ(bad.empty(), "C27:result", "%s%s: %s", std::get<1>(w.first).c_str(), std::get<2>(w.first).c_str(), bad.c_str());
            vh::count("calls");
            refs.release();
            env->PopLocalFrame(nullptr);
        }
    });
    vh::run_cases("data members", 100000, T ? 60 : 12, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, true);
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        Stretch stretch(r);
        auto fooname = stretch(foos[i % foos.size()]);
        e->GetClass<Foo>(fooname.c_str());
        auto data = e->GetClass<Data>("c27/Data");
        auto j = klass(e, data);
        int how = r.below(3);
        std::map<std::string, std::string> want;
        auto any = [&](auto k, const char* n, auto m, auto sm) {
            constexpr int K = decltype(k)::value;
            using V = typename Ty<K>::type;
            auto d = data.get();
            if(how == 0) {
                d->HookInstanceProperty(e, n, decltype(m)(m));
                d->Hook(e, std::string("s") + n, decltype(sm)(sm));
            } else if(how == 1) {
                d->HookInstance(e, n, decltype(m)(m));
                d->HookGetterFunction(e, std::string("s") + n, [sm](ENV*, Class*) -> V { return *sm; });
                d->HookSetterFunction(e, std::string("s") + n, [sm](ENV*, Class*, V v) { *sm = v; });
            } else {
                d->HookInstanceGetterFunction(e, n, [m](ENV*, Data* o) -> V { return o->*m; });
                d->HookInstanceSetterFunction(e, n, [m](ENV*, Data* o, V v) { o->*m = v; });
                d->HookSetterFunction(e, std::string("s") + n, [sm](Class*, V v) { *sm = v; });
                d->HookGetterFunction(e, std::string("s") + n, [sm](Class*) -> V { return *sm; });
            }
            want[n] = desc(K, fooname);
        };
#define X(K, n) any(std::integral_constant<int, K>(), #n, &Data::n, &Data::s##n);
        FIELDS(X)
#undef X
        for(auto& w : want) {
            auto s = "s" + w.first;
            REQ(env->GetFieldID(j, w.first.c_str(), w.second.c_str()), "C27:field-not-published", "variant %d field %s as %s", how, w.first.c_str(), w.second.c_str());
            REQ(env->GetStaticFieldID(j, s.c_str(), w.second.c_str()), "C27:field-not-published", "variant %d static field %s as %s", how, s.c_str(), w.second.c_str());
            REQ(!env->GetStaticFieldID(j, w.first.c_str(), w.second.c_str()) && !env->GetFieldID(j, s.c_str(), w.second.c_str()), "C27:field-kind", "variant %d field %s", how, w.first.c_str());
            for(auto& o : want) if(o.second != w.second) {
                REQ(!env->GetFieldID(j, w.first.c_str(), o.second.c_str()) && !env->GetStaticFieldID(j, s.c_str(), o.second.c_str()), "C27:field-descriptor", "variant %d: field %s of type %s is found as %s", how, w.first.c_str(), w.second.c_str(), o.second.c_str());
            }
            for(auto d : { "()" + w.second, "(" + w.second + ")V" }) REQ(!env->GetMethodID(j, w.first.c_str(), d.c_str()) && !env->GetStaticMethodID(j, s.c_str(), d.c_str()), "C27:field-as-method", "variant %d: %s is found as method %s", how, w.first.c_str(), d.c_str());
            vh::count("fields");
        }
        vh::distinct(vh::hash(fooname) + how);
    });
    vh::run_cases("special functions", 200000, T ? 60 : 12, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, true);
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        auto foo = e->GetClass<Foo>("c27/Foo");
        auto bar = e->GetClass<Bar>("c27/Bar");
        bool own = r.chance(1, 2);
        std::string on = own ? "registered/As" : "own/Name$X";
        if(own) e->GetClass<Own>(on.c_str());
        auto jb = klass(e, bar), jf = klass(e, foo);
        auto has = [&](jclass c, bool st, const char* n, const std::string& d) {
            vh::count("special");
            return st ? env->GetStaticMethodID(c, n, d.c_str()) : env->GetMethodID(c, n, d.c_str());
        };
        hits = 0;
        // a class registered under another name than its own, and one never registered
        bar->Hook(e, "own", [](std::shared_ptr<Own>) -> std::shared_ptr<Own> { return nullptr; });
        REQ(has(jb, true, "own", "(L" + on + ";)L" + on + ";"), "C27:own-name", "not found under %s", on.c_str());
        // free functions, member functions, const member functions, std::function
        bar->Hook(e, "free", free_fn);
        bar->Hook(e, "free2", free_fn2);
        bar->HookInstance(e, "get", &Bar::get);
        bar->HookInstanceFunction(e, "set", &Bar::set);
        std::function<jint(std::shared_ptr<String>, jint)> sf = [](std::shared_ptr<String>, jint x) { return x + 1; };
        bar->Hook(e, "stdf", decltype(sf)(sf));
        bar->HookInstanceFunction(e, "isf", decltype(sf)(sf));
        REQ(has(jb, true, "free", "(I)V") && has(jb, true, "free2", "(J)J") && has(jb, false, "get", "()I") && has(jb, false, "set", "(I)V") && has(jb, true, "stdf", "(Ljava/lang/String;I)I") && has(jb, false, "isf", "(Ljava/lang/String;I)I"),
            "C27:special", "free function, member function or std::function not found");
        REQ(!has(jb, false, "free", "(I)V") && !has(jb, true, "get", "()I"), "C27:special", "wrong kind");
        auto b = std::make_shared<Bar>();
        auto jo = local(e, b);
        b->payload = 77;
        REQ(env->CallIntMethod(jo, has(jb, false, "get", "()I")) == 77, "C27:special", "const member function");
        env->CallVoidMethod(jo, has(jb, false, "set", "(I)V"), 5);
        REQ(b->payload == 5, "C27:special", "member function");
        env->CallStaticVoidMethod(jb, has(jb, true, "free", "(I)V"), 5);
        REQ(hits == 1, "C27:special", "free function");
        REQ(env->CallStaticLongMethod(jb, has(jb, true, "free2", "(J)J"), (jlong)-3) == -3 && hits == 2 && hitenv == e && deref(e, (jobject)hitself) == bar, "C27:special", "free function with environment and class");
        REQ(env->CallStaticIntMethod(jb, has(jb, true, "stdf", "(Ljava/lang/String;I)I"), nullptr, 41) == 42 && env->CallIntMethod(jo, has(jb, false, "isf", "(Ljava/lang/String;I)I"), nullptr, 9) == 10, "C27:special", "std::function");
        // a leading pointer to the class itself is the object, one to another class is a parameter
        Foo* seen = nullptr;
        bar->HookInstanceFunction(e, "lead", [&seen](Bar* b, jint) { seen = b; });
        bar->HookInstanceFunction(e, "param", [&seen](Foo* f, jint) { seen = f; });
        REQ(has(jb, false, "lead", "(I)V") && has(jb, false, "param", "(Lc27/Foo;I)V") && !has(jb, false, "param", "(I)V"), "C27:leading-object", "wrong descriptors");
        env->CallVoidMethod(jo, has(jb, false, "lead", "(I)V"), 1);
        REQ(seen == b.get(), "C27:leading-object", "object not passed");
        auto f = std::make_shared<Foo>();
        env->CallVoidMethod(jo, has(jb, false, "param", "(Lc27/Foo;I)V"), local(e, f), 1);
        REQ(seen == f.get(), "C27:leading-object", "parameter not passed");
        // environment and object, environment and class, in both spellings
        ENV* se = nullptr;
        void* so = nullptr;
        bar->HookInstanceFunction(e, "eo", [&](JNIEnv* x, jobject o, jint) { se = ENV::FromJNIEnv(x); so = deref(se, o).get(); });
        bar->HookInstanceFunction(e, "eo2", [&](ENV* x, Bar* o, jint) { se = x; so = (Object*)o; });
        bar->HookInstanceFunction(e, "o3", [&](Object* o, jint) { se = e; so = o; });
        for(auto n : { "eo", "eo2", "o3" }) {
            se = nullptr;
            so = nullptr;
            auto id = has(jb, false, n, "(I)V");
            REQ(id, "C27:environment-object", "%s not found", n);
            env->CallVoidMethod(jo, id, 1);
            REQ(se == e && so == (Object*)b.get(), "C27:environment-object", "%s: wrong environment or object", n);
        }
        bar->Hook(e, "ec", [&](JNIEnv* x, jclass o, jint) { se = ENV::FromJNIEnv(x); so = deref(se, (jobject)o).get(); });
        bar->Hook(e, "ec2", [&](ENV* x, Class* o, jint) { se = x; so = (Object*)o; });
        bar->Hook(e, "c3", [&](Class* o, jint) { se = e; so = (Object*)o; });
        for(auto n : { "ec", "ec2", "c3" }) {
            se = nullptr;
            so = nullptr;
            auto id = has(jb, true, n, "(I)V");
            REQ(id, "C27:environment-class", "%s not found", n);
            env->CallStaticVoidMethod(jb, id, 1);
            REQ(se == e && so == (Object*)bar.get(), "C27:environment-class", "%s: wrong environment or class", n);
        }
        // only a pointer to the class itself may be the object, and nothing else is left out
        {
            auto published = [&](const char* n, bool st) {
                std::set<std::string> d;
                for(auto&& m : bar->methods) if(m->name == n && m->_static == st) REQ(d.insert(m->signature).second, "C27:twice", "%s%s", n, m->signature.c_str());
                return d;
            };
            auto text = [](const std::set<std::string>& v) { std::string t; for(auto&& x : v) t += x + " "; return t; };
            using Set = std::set<std::string>;
            auto expect = [&](const char* n, bool st, Set must, Set may) {
                auto got = published(n, st);
                for(auto&& d : must) { REQ(got.erase(d), "C27:leading", "%s of %s is not published as %s, but as %s", n, bar->nativeprefix.c_str(), d.c_str(), text(got).c_str()); REQ(has(jb, st, n, d), "C27:leading", "%s%s is not found", n, d.c_str()); }
                for(auto&& d : may) got.erase(d);
                REQ(got.empty(), "C27:leading", "%s is also published as %s", n, text(got).c_str());
                REQ(published(n, !st).empty(), "C27:leading", "%s is also published as the other kind", n);
                vh::count("leading parameters");
            };
            std::string B = "Lc27/Bar;", F = "Lc27/Foo;", W = "L" + on + ";";
            bar->HookInstanceFunction(e, "i0", [](Bar*) {});
            bar->HookInstanceFunction(e, "i1", [](ENV*, Bar*, jint) {});
            bar->HookInstanceFunction(e, "i2", [](JNIEnv*, Bar*, Bar*) -> jint { return 0; });
            bar->HookInstanceFunction(e, "i3", [](Bar*, Bar*, jint) {});
            bar->HookInstanceFunction(e, "i4", [](Foo*) {});
            bar->HookInstanceFunction(e, "i5", [](ENV*, Foo*, jint) {});
            bar->HookInstanceFunction(e, "i6", [](JNIEnv*, Own*) -> jint { return 0; });
            bar->HookInstanceFunction(e, "i7", [](ENV*, String*, Bar*) {});
            bar->HookInstanceFunction(e, "i8", [](std::shared_ptr<Bar>, jint) {});
            bar->HookInstanceFunction(e, "i9", [](ENV*, Bar&, jint) {});
            bar->HookInstanceFunction(e, "ia", [](ENV*, Throwable*, jint) {});
            bar->HookInstanceFunction(e, "ib", [](jint, Bar*) {});
            bar->HookInstanceFunction(e, "ic", [](ENV*, Foo*, Bar*) {});
            expect("i0", false, { "()V" }, { "(" + B + ")V" });
            expect("i1", false, { "(I)V" }, { "(" + B + "I)V" });
            expect("i2", false, { "(" + B + ")I" }, { "(" + B + B + ")I" });
            expect("i3", false, { "(" + B + "I)V" }, { "(" + B + B + "I)V" });
            expect("i4", false, { "(" + F + ")V" }, {});
            expect("i5", false, { "(" + F + "I)V" }, {});
            expect("i6", false, { "(" + W + ")I" }, {});
            expect("i7", false, { "(Ljava/lang/String;" + B + ")V" }, {});
            expect("i8", false, { "(" + B + "I)V" }, {});
            expect("i9", false, { "(" + B + "I)V" }, {});
            expect("ia", false, { "(Ljava/lang/Throwable;I)V" }, {});
            expect("ib", false, { "(I" + B + ")V" }, {});
            expect("ic", false, { "(" + F + B + ")V" }, {});
            bar->Hook(e, "s0", [](Bar*) {});
            bar->Hook(e, "s1", [](ENV*, Bar*, jint) {});
            bar->Hook(e, "s2", [](JNIEnv*, Foo*) -> jint { return 0; });
            bar->Hook(e, "s3", [](jobject, jint) {});
            bar->Hook(e, "s4", [](ENV*, Object*, jint) {});
            bar->Hook(e, "s5", [](std::shared_ptr<Class>, jint) {});
            bar->Hook(e, "s6", [](jint, Class*) {});
            bar->Hook(e, "s7", [](ENV*, Class*, Class*) {});
            bar->Hook(e, "s8", [](JNIEnv*, jclass, jclass, jobject) {});
            expect("s0", true, { "(" + B + ")V" }, {});
            expect("s1", true, { "(" + B + "I)V" }, {});
            expect("s2", true, { "(" + F + ")I" }, {});
            expect("s3", true, { "(Ljava/lang/Object;I)V" }, {});
            expect("s4", true, { "(Ljava/lang/Object;I)V" }, {});
            expect("s5", true, { "(Ljava/lang/Class;I)V" }, {});
            expect("s6", true, { "(ILjava/lang/Class;)V" }, {});
            expect("s7", true, { "(Ljava/lang/Class;)V" }, { "(Ljava/lang/Class;Ljava/lang/Class;)V" });
            expect("s8", true, { "(Ljava/lang/Class;Ljava/lang/Object;)V" }, { "(Ljava/lang/Class;Ljava/lang/Class;Ljava/lang/Object;)V" });
            // member functions: the object is never a parameter, whatever follows is
            bar->HookInstanceFunction(e, "m0", &Bar::self);
            bar->HookInstanceFunction(e, "m1", &Bar::envself);
            bar->HookInstanceFunction(e, "m2", &Bar::other);
            expect("m0", false, { "(" + B + ")" + B }, {});
            expect("m1", false, { "(" + B + "I)I" }, {});
            expect("m2", false, { "(" + F + ")V" }, {});
        }
        // parameters by pointer and reference to system classes
        std::string got;
        bar->Hook(e, "sys", [&](String* a, String& b, String c, Throwable* t, std::shared_ptr<ByteBuffer>, std::shared_ptr<Method>, std::shared_ptr<jnivm::Field>, Class& k) { got = *a + b + c + k.getName(); });
        auto id = has(jb, true, "sys", "(Ljava/lang/String;Ljava/lang/String;Ljava/lang/String;Ljava/lang/Throwable;Ljava/nio/ByteBuffer;Ljava/lang/reflect/Method;Ljava/lang/reflect/Field;Ljava/lang/Class;)V");
        REQ(id, "C27:system-classes", "not found");
        env->CallStaticVoidMethod(jb, id, env->NewStringUTF("x"), env->NewStringUTF("y"), env->NewStringUTF("z"), nullptr, nullptr, nullptr, nullptr, jf);
        REQ(got == "xyzc27/Foo", "C27:system-classes", "saw %s", got.c_str());
        // one C++ function under two descriptors, since the class of its parameter got another name in between
        {
            e->GetClass<Renamed>("c27/Old");
            bar->HookInstanceFunction(e, "ren", renamed_instance);
            bar->Hook(e, "ren", renamed_static);
            e->GetClass<Renamed>("c27/New");
            bar->HookInstanceFunction(e, "ren", renamed_instance);
            bar->Hook(e, "ren", renamed_static);
            for(auto d : { "(Lc27/Old;)I", "(Lc27/New;)I" }) {
                auto i = has(jb, false, "ren", d), st = has(jb, true, "ren", d);
                REQ(i && st, "C27:overload", "ren%s is gone", d);
                REQ(env->CallIntMethod(jo, i, nullptr) == 61 && env->CallStaticIntMethod(jb, st, nullptr) == 62, "C27:overload", "ren%s", d);
            }
        }
        // constructors carry the class they make
        bar->Hook(e, "<init>", [](jint p, std::shared_ptr<Array<Array<Own>>>) { auto b = std::make_shared<Bar>(); b->payload = p; return b; });
        auto ci = has(jb, false, "<init>", "(I[[L" + on + ";)V");
        REQ(ci, "C27:constructor", "not found");
        REQ(!has(jb, false, "<init>", "(I[L" + on + ";)V") && !has(jf, false, "<init>", "(I[[L" + on + ";)V"), "C27:constructor", "found in another shape or class");
        auto made = env->NewObject(jb, ci, 31, nullptr);
        auto mb = std::dynamic_pointer_cast<Bar>(deref(e, made));
        REQ(mb && mb->payload == 31 && env->IsSameObject(env->GetObjectClass(made), jb), "C27:constructor", "wrong object");
        vh::distinct(own);
    });
    vh::run_cases("crowds", 400000, T ? 1200 : 60, [&](vh::Rng& r, long) { crowd::run("C27", r, crowd::FUNCTIONS | crowd::FIELDS); });
    return vh::finish();
}
