// C07: every argument and result of every call form, bit for bit.
#include "values.h"
using namespace sig;

#define FILL(i) void c07_fill##i(std::vector<Fn>&);
FILL(0) FILL(1) FILL(2) FILL(3)

void c07_long(vh::Rng& r);

int main(int argc, char** argv) {
    vh::init(argc, argv, "C07");
    bool T = vh::S().thorough;
    std::vector<Fn> fns;
    c07_fill0(fns);
    c07_fill1(fns);
    c07_fill2(fns);
    c07_fill3(fns);
    const char* formn[] = { "array", "va_list", "variadic", "variadic wrapper", "Method::invoke" };
    const char* kindn[] = { "static", "instance", "nonvirtual", "constructor" };
    const std::vector<std::string> foos = { "c7/Foo", "I", "V", "LL/ZJ", "Outer$Inner", "a/b/c/d$e$f", "JJJ", "DF/Z" };
    vh::run_cases("calls", 0, T ? 1500 : 150, [&](vh::Rng& r, long i) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto env0 = vm.GetJNIEnv();
        auto e0 = vm.GetEnv().get();
        Stretch stretch(r);
        auto fooname = stretch(foos[i % foos.size()]);
        auto foo = e0->GetClass<Foo>(fooname.c_str());
        // all functions under few names, told apart by their descriptors, unless two descriptors are equal
        std::set<std::string> usedS, usedI, usedC;
        std::vector<std::string> nameS, nameI;
        std::vector<bool> ctor;
        for(auto& f : fns) {
            auto d = f.descriptor(fooname);
            auto uniq = [&](std::set<std::string>& used, bool self, const char* selfdesc) {
                std::string n = stretch("m" + std::to_string(f.n % 3));
                // functions which see their class or object are published with and without it
                auto alt = "(" + std::string(selfdesc) + d.substr(1);
                if(used.count(n + d) || used.count(n + alt)) n = stretch("u" + std::to_string(f.n));
                used.insert(n + d);
                used.insert(n + alt);
                return n;
            };
            nameS.push_back(uniq(usedS, f.self, "Ljava/lang/Class;"));
            nameI.push_back(uniq(usedI, true, "Ljava/lang/Object;"));
            f.statics(e0, foo.get(), nameS.back());
            f.instances(e0, foo.get(), nameI.back());
            ctor.push_back(usedC.insert(f.args(fooname)).second);
            if(ctor.back()) f.ctors(e0, foo.get());
        }
        Worker other;
        JNIEnv* env1 = nullptr;
        other.run([&] { vm.GetJavaVM()->AttachCurrentThread(&env1, nullptr); });
        int calls = 300;
        for(int s = 0; s < calls; ++s) {
            bool th = r.chance(1, 10);
            auto job = [&](JNIEnv* env) {
                auto e = ENV::FromJNIEnv(env);
                Pool pool(e, r, foo);
                // one call, and maybe another one inside it
                std::function<void(int)> one = [&](int depth) {
                    auto x = r.below(fns.size());
                    auto& f = fns[x];
                    int kind = r.below(CALLKINDS);
                    if(kind == NONVIRTUAL && f.member) kind = INSTANCE;
                    if(kind == CTOR && !ctor[x]) kind = STATIC;
                    int form = r.below(kind == STATIC || kind == INSTANCE ? 5 : 4);
                    env->PushLocalFrame(64);
                    Refs refs(env);
                    auto self = std::make_shared<Foo>();
                    auto jself = refs.make(local(e, self), r.below(RKINDS));
                    auto jcls = (jclass)refs.make((jobject)klass(e, foo), r.below(RKINDS));
                    auto d = f.descriptor(fooname);
                    std::string what = fmt("%s call, %s form, of %s", kindn[kind], formn[form], d.c_str());
                    jmethodID id = kind == STATIC ? env->GetStaticMethodID(jcls, nameS[x].c_str(), d.c_str()) : kind == CTOR ? env->GetMethodID(jcls, "<init>", (f.args(fooname) + "V").c_str()) : env->GetMethodID(jcls, nameI[x].c_str(), d.c_str());
                    REQ(id, "C07:not-found", "%s", what.c_str());
                    std::vector<jvalue> v(f.params.size() + 1);
                    std::vector<uint64_t> want(f.params.size());
                    for(size_t p = 0; p < f.params.size(); ++p) v[p] = pool.value(r, refs, f.params[p], form, want[p]);
                    Call c;
                    pool.plan(r, refs, kind == CTOR ? TFoo : f.ret, c);
                    if(kind == CTOR && !c.retobj) c.retobj = self;
                    if(depth < 3 && r.chance(1, 6)) c.inside = [&](ENV*) {
                        auto outer = current();
                        try {
                            one(depth + 1);
                        } catch(const vh::Stop&) { // recorded; the library would swallow it
                        }
                        current() = outer;
                    };
                    current() = &c;
                    vh::op("%s depth %d", what.c_str(), depth);
                    auto got = form == 4 ? f.invoke(env, kind, jself, jcls, id, v.data()) : f.call(env, kind, form, jself, jcls, id, v.data());
                    current() = nullptr;
                    REQ(!env->ExceptionCheck(), "C07:exception", "%s", what.c_str());
                    REQ(c.calls == 1 && c.fn == f.n, "C07:wrong-target", "%s: function %d ran %d times", what.c_str(), c.fn, c.calls);
                    REQ(c.env == e, "C07:environment", "%s: the function saw another environment", what.c_str());
                    REQ(c.got.size() == want.size(), "C07:arguments", "%s: %zu arguments", what.c_str(), c.got.size());
                    for(size_t p = 0; p < want.size(); ++p)
                        REQ(c.got[p] == want[p], "C07:arguments", "%s: argument %zu of type %s is %llx instead of %llx", what.c_str(), p, desc(f.params[p], fooname).c_str(), (unsigned long long)c.got[p], (unsigned long long)want[p]);
                    if(kind == STATIC && f.self) REQ(c.self == addr(foo.get()), "C07:class", "%s", what.c_str());
                    if(kind == INSTANCE || kind == NONVIRTUAL) REQ(c.self == addr((Object*)self.get()), "C07:object", "%s", what.c_str());
                    auto bad = judge(e, kind == CTOR ? TFoo : f.ret, c, got);
                    REQ(bad.empty(), "C07:result", "%s: %s", what.c_str(), bad.c_str());
                    vh::count(std::string(kindn[kind]) + " " + formn[form]);
                    vh::count("arguments", want.size());
                    if(want.size() > 16) vh::count("calls with many arguments");
                    if(depth) vh::count("nested");
                    vh::distinct(vh::hash(what));
                    refs.release();
                    env->PopLocalFrame(nullptr);
                };
                one(0);
            };
            if(th) other.run([&] { job(env1); });
            else job(env0);
        }
        other.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
    });
    vh::run_cases("long calls", 300000, T ? 2000 : 150, [&](vh::Rng& r, long) { c07_long(r); vh::distinct(r.s); });
    return vh::finish();
}
