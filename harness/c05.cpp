// C05: hierarchy queries are the closure of the declared bases. The class graph is drawn at compile time from a
// constant per world; names, registration order and queries are random.
#include "graph.h"
#include "deep.h"
#include <fake-jni/fake-jni.h>
#include <fake-jni/jvm.h>
using namespace jh;
using namespace jnivm;
using namespace graph;

// The same through fake-jni descriptors: class of an object is found by a virtual function
namespace c05f {
    struct A : FakeJni::JObject { DEFINE_CLASS_NAME("c05f/A") };
    struct B : Extends<A> { DEFINE_CLASS_NAME("c05f/B", A) };
    struct I1 : Extends<> { DEFINE_CLASS_NAME("c05f/I1", FakeJni::JObject) };
    struct I2 : Extends<I1> { DEFINE_CLASS_NAME("c05f/I2", I1) };
    struct C : Extends<B> { DEFINE_CLASS_NAME("c05f/C", B) };
    struct D : Extends<I2, I1> { DEFINE_CLASS_NAME("c05f/D", I2, I1) };
    struct E : Extends<D> { DEFINE_CLASS_NAME("c05f/E", D) };
    BEGIN_NATIVE_DESCRIPTOR(A) END_NATIVE_DESCRIPTOR
    BEGIN_NATIVE_DESCRIPTOR(B) END_NATIVE_DESCRIPTOR
    BEGIN_NATIVE_DESCRIPTOR(I1) END_NATIVE_DESCRIPTOR
    BEGIN_NATIVE_DESCRIPTOR(I2) END_NATIVE_DESCRIPTOR
    BEGIN_NATIVE_DESCRIPTOR(C) END_NATIVE_DESCRIPTOR
    BEGIN_NATIVE_DESCRIPTOR(D) END_NATIVE_DESCRIPTOR
    BEGIN_NATIVE_DESCRIPTOR(E) END_NATIVE_DESCRIPTOR
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C05");
    bool T = vh::S().thorough;
    std::vector<std::vector<Ent>> worlds = { world<0>(), world<1>(), world<2>(), world<3>(), world<4>(), world<5>() };
    vh::run_cases("random hierarchies", 0, T ? 1500 : 300, [&](vh::Rng& r, long i) {
        auto w = worlds[i % NW];
        jnivm::VM vm(false, r.chance(1, 2));
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        std::vector<std::string> nm = { "c5/K", "K", "x/y/z/T", "Outer$In" };
        auto prefix = r.pick(nm);
        Stretch stretch(r);
        std::vector<int> order(NC);
        for(int k = 0; k < NC; ++k) order[k] = k;
        for(int k = NC - 1; k > 0; --k) std::swap(order[k], order[r.below(k + 1)]);
        std::vector<std::shared_ptr<Class>> c(NC);
        // reflexive transitive closure
        bool up[NC][NC] = {};
        for(int n = 0; n < NC; ++n) {
            up[n][n] = true;
            for(auto b : w[n].bases) for(int j = 0; j < NC; ++j) up[n][j] |= up[b][j];
        }
        for(auto k : order) w[k].name = stretch(prefix + std::to_string(k));
        // questions about a few pairs of classes, asked again and again while the hierarchy becomes known
        struct Pair { int n, m; jclass jn, jm; jobject o; std::shared_ptr<Object> keep; };
        std::vector<Pair> watched;
        bool known[NC] = {};
        if(r.chance(1, 2)) for(int x = 1 + r.below(3); x-- > 0;) {
            int n = r.below(NC), m = r.below(NC);
            if(r.chance(1, 2)) while(!up[n][m]) { n = r.below(NC); m = r.below(NC); }
            for(auto k : { n, m }) e->GetClass(w[k].name.c_str());
            watched.push_back({ n, m, (jclass)env->NewGlobalRef((jobject)env->FindClass(w[n].name.c_str())), (jclass)env->NewGlobalRef((jobject)env->FindClass(w[m].name.c_str())), nullptr, nullptr });
        }
        auto ask = [&] {
            if(watched.empty()) return;
            auto& p = watched[r.below(r.chance(1, 3) ? watched.size() : 1)];
            bool whole = known[p.n];
            for(int j = 0; j < NC; ++j) if(up[p.n][j] && !known[j]) whole = false;
            if(!known[p.n] || whole) { // classes below unregistered ones are of no use yet
                bool want = p.n == p.m || (known[p.n] && up[p.n][p.m]);
                for(int x = 1 + r.below(2); x-- > 0;) REQ((bool)env->IsAssignableFrom(p.jn, p.jm) == want, "C05:growing-IsAssignableFrom", "class %d to %d, %sregistered, should be %d", p.n, p.m, whole ? "" : "not wholly ", want);
                if(p.o) REQ((bool)env->IsInstanceOf(p.o, p.jm) == want, "C05:growing-IsInstanceOf", "object of class %d, class %d, should be %d", p.n, p.m, want);
                vh::count("questions while growing");
            }
            if(!p.o && whole) {
                p.keep = w[p.n].make();
                env->PushLocalFrame(2);
                p.o = env->NewGlobalRef(local(e, p.keep));
                env->PopLocalFrame(nullptr);
            }
        };
        for(auto k : order) {
            ask();
            c[k] = w[k].reg(e, w[k].name.c_str());
            known[k] = true;
            ask();
        }
        for(auto& p : watched) { env->DeleteGlobalRef((jobject)p.jn); env->DeleteGlobalRef((jobject)p.jm); env->DeleteGlobalRef(p.o); }
        auto object = e->GetClass("java/lang/Object");
        auto unrelated = e->GetClass("c5/Unrelated");
        Refs refs(env);
        std::string shape;
        for(int n = 0; n < NC; ++n) {
            for(auto b : w[n].bases) shape += fmt("%d>%d ", n, b);
            auto jn = klass(e, c[n]);
            jn = (jclass)refs.make((jobject)jn, r.below(RKINDS));
            for(int j = 0; j < NC; ++j) {
                auto jj = (jclass)refs.make((jobject)klass(e, c[j]), r.below(RKINDS));
                REQ((bool)env->IsAssignableFrom(jn, jj) == up[n][j], "C05:IsAssignableFrom", "world %ld: class %d to %d should be %d", i % NW, n, j, up[n][j]);
                vh::count("assignability");
            }
            REQ(!env->IsAssignableFrom(jn, klass(e, unrelated)), "C05:IsAssignableFrom", "class %d to an unrelated class", n);
            REQ(!env->IsAssignableFrom(klass(e, unrelated), jn), "C05:IsAssignableFrom", "unrelated class to %d", n);
            // every registered class derives from Object here
            REQ(env->IsAssignableFrom(jn, klass(e, object)), "C05:IsAssignableFrom", "class %d to Object", n);
            REQ(!env->IsAssignableFrom(klass(e, object), jn), "C05:IsAssignableFrom", "Object to class %d", n);
            auto sup = JNITypes<std::shared_ptr<Class>>::JNICast(e, env->GetSuperclass(jn));
            auto want = w[n].bases.empty() ? object : c[w[n].bases[0]];
            REQ(sup == want, "C05:GetSuperclass", "world %ld class %d: %s instead of %s", i % NW, n, sup ? sup->getName().c_str() : "null", want->getName().c_str());
            vh::count("superclasses");
            // objects of the class, created and passed in several ways
            std::vector<int> ways = { -1, -2 };
            for(auto b : w[n].bases) ways.push_back(b);
            ways.push_back(-3); // default constructor known to the class
            for(auto way : ways) {
                std::shared_ptr<Object> keep;
                jobject o;
                if(way == -3) {
                    if(!c[n]->Instantiate) continue;
                    keep = c[n]->Instantiate(e);
                    o = local(e, keep);
                } else o = w[n].pass(e, way, keep);
                if(r.chance(1, 3)) local(e, keep); // again as a plain object
                o = refs.make(o, r.below(RKINDS));
                auto oc = JNITypes<std::shared_ptr<Class>>::JNICast(e, env->GetObjectClass(o));
                REQ(oc == c[n], "C05:GetObjectClass", "world %ld: object of class %d passed as %d reports %s", i % NW, n, way, oc ? oc->getName().c_str() : "null");
                for(int j = 0; j < NC; ++j) {
                    REQ((bool)env->IsInstanceOf(o, klass(e, c[j])) == up[n][j], "C05:IsInstanceOf", "object of class %d passed as %d, class %d: should be %d", n, way, j, up[n][j]);
                    vh::count("instance-checks");
                }
                REQ(env->IsInstanceOf(o, klass(e, object)) && !env->IsInstanceOf(o, klass(e, unrelated)), "C05:IsInstanceOf", "Object or unrelated class");
            }
        }
        refs.release();
        vh::distinct(vh::hash(shape) ^ order[0] * 131 ^ order[1]);
        if(i < NW) vh::sample("bases: " + shape);
    });
    auto deep = deeps(std::make_integer_sequence<int, DEEP>());
    auto wide = bases(std::make_integer_sequence<int, WIDE>());
    auto pw = passes(std::make_integer_sequence<int, WIDE>());
    vh::run_cases("deep and wide", 200000, T ? 80 : 16, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        Stretch stretch(r);
        std::vector<std::shared_ptr<Class>> d(DEEP), b(WIDE);
        std::vector<int> order;
        for(int n = 0; n < DEEP + WIDE; ++n) order.push_back(n);
        for(int n = order.size() - 1; n > 0; --n) std::swap(order[n], order[r.below(n + 1)]);
        for(auto n : order) {
            if(n < DEEP) d[n] = deep[n].first(e, stretch("D" + std::to_string(n)));
            else b[n - DEEP] = wide[n - DEEP].first(e, stretch("B" + std::to_string(n - DEEP)));
        }
        auto w = e->GetClass<Wide5>("Wide"), u = e->GetClass<Below5>("Below");
        auto object = e->GetClass("java/lang/Object");
        for(int k = 0; k < 600; ++k) {
            int n = r.below(DEEP), m = r.chance(1, 2) ? n / (1 + r.below(8)) : r.below(DEEP);
            if(r.chance(1, 6)) n = DEEP - 1;
            env->PushLocalFrame(8);
            REQ((bool)env->IsAssignableFrom(klass(e, d[n]), klass(e, d[m])) == (n >= m), "C05:deep-IsAssignableFrom", "level %d to %d", n, m);
            auto o = local(e, deep[n].second());
            REQ((bool)env->IsInstanceOf(o, klass(e, d[m])) == (n >= m), "C05:deep-IsInstanceOf", "level %d, class of %d", n, m);
            REQ(deref(e, (jobject)env->GetObjectClass(o)) == d[n], "C05:deep-GetObjectClass", "level %d", n);
            REQ(deref(e, (jobject)env->GetSuperclass(klass(e, d[n]))) == (n ? d[n - 1] : object), "C05:deep-GetSuperclass", "level %d", n);
            int x = r.below(WIDE), y = r.below(WIDE);
            REQ(env->IsAssignableFrom(klass(e, w), klass(e, b[x])) && env->IsAssignableFrom(klass(e, u), klass(e, b[x])), "C05:wide-IsAssignableFrom", "to base %d of %d", x, WIDE);
            REQ(!env->IsAssignableFrom(klass(e, b[x]), klass(e, w)) && !env->IsAssignableFrom(klass(e, w), klass(e, u)) && env->IsAssignableFrom(klass(e, b[x]), klass(e, b[y])) == (x == y) &&
                !env->IsAssignableFrom(klass(e, w), klass(e, d[n])), "C05:wide-IsAssignableFrom", "base %d, base %d, level %d", x, y, n);
            auto p = std::make_shared<Below5>();
            auto q = pw[x](e, p); // as its xth base
            REQ(env->IsInstanceOf(q, klass(e, b[y])) && env->IsInstanceOf(q, klass(e, w)) && env->IsInstanceOf(q, klass(e, u)) && env->IsInstanceOf(q, klass(e, object)) && !env->IsInstanceOf(q, klass(e, d[m])), "C05:wide-IsInstanceOf", "passed as base %d, asked for %d", x, y);
            REQ(deref(e, (jobject)env->GetObjectClass(q)) == u, "C05:wide-GetObjectClass", "passed as base %d", x);
            REQ(deref(e, (jobject)env->GetSuperclass(klass(e, w))) == b[0] && deref(e, (jobject)env->GetSuperclass(klass(e, u))) == w, "C05:wide-GetSuperclass", "first base");
            env->PopLocalFrame(nullptr);
            vh::count("deep and wide queries");
        }
        vh::distinct(r.s);
    });
    vh::run_cases("fake-jni classes", 100000, T ? 40 : 8, [&](vh::Rng& r, long) {
        FakeJni::Jvm vm;
        FakeJni::LocalFrame f(vm);
        auto env = &f.getJniEnv();
        auto e = ENV::FromJNIEnv(env);
        using namespace c05f;
        // bases have to be registered before use, everything else in any order
        std::vector<std::function<void()>> regs = { [&] { vm.registerClass<A>(); }, [&] { vm.registerClass<B>(); }, [&] { vm.registerClass<I1>(); }, [&] { vm.registerClass<I2>(); },
            [&] { vm.registerClass<C>(); }, [&] { vm.registerClass<D>(); }, [&] { vm.registerClass<E>(); } };
        for(int k = 6; k > 0; --k) std::swap(regs[k], regs[r.below(k + 1)]);
        for(auto& g : regs) g();
        const char* n[] = { "A", "B", "I1", "I2", "C", "D", "E" };
        std::map<std::string, std::vector<std::string>> b = { { "A", {} }, { "B", { "A" } }, { "I1", {} }, { "I2", { "I1" } }, { "C", { "B" } }, { "D", { "I2", "I1" } }, { "E", { "D" } } };
        std::function<bool(std::string, std::string)> up = [&](std::string x, std::string y) {
            if(x == y) return true;
            for(auto& z : b[x]) if(up(z, y)) return true;
            return false;
        };
        auto cl = [&](std::string s) { return env->FindClass(("c05f/" + s).c_str()); };
        auto pd = std::make_shared<E>();
        auto pc = std::make_shared<C>();
        std::vector<std::pair<std::string, jobject>> objs = { { "E", local(e, std::shared_ptr<I1>(pd)) }, { "E", local(e, pd) }, { "E", local(e, std::shared_ptr<Object>(pd)) }, { "C", local(e, std::shared_ptr<A>(pc)) },
            { "C", local(e, std::shared_ptr<B>(pc)) }, { "I2", local(e, std::shared_ptr<I1>(std::make_shared<I2>())) }, { "A", local(e, std::shared_ptr<Object>(std::make_shared<A>())) } };
        for(auto x : n) {
            for(auto y : n) {
                REQ((bool)env->IsAssignableFrom(cl(x), cl(y)) == up(x, y), "C05:fake-jni-IsAssignableFrom", "%s to %s", x, y);
                vh::count("assignability");
            }
            if(!b[x].empty()) REQ(env->IsSameObject((jobject)env->GetSuperclass(cl(x)), (jobject)cl(b[x][0])), "C05:fake-jni-GetSuperclass", "%s", x);
            for(auto& o : objs) REQ((bool)env->IsInstanceOf(o.second, cl(x)) == up(o.first, x), "C05:fake-jni-IsInstanceOf", "object of %s, class %s", o.first.c_str(), x);
        }
        for(auto& o : objs) REQ(env->IsSameObject((jobject)env->GetObjectClass(o.second), (jobject)cl(o.first)), "C05:fake-jni-GetObjectClass", "object of %s", o.first.c_str());
        vh::distinct(r.s);
    });
    return vh::finish();
}
