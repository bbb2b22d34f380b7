// C13: object arrays. Objects and arrays form an acyclic graph; after every step each element is compared with the
// model through every view, and exactly the reachable objects are alive.
#include "jh.h"
using namespace jh;
using namespace jnivm;

namespace {
    struct A0 : Extends<Object> { Track t; };
    struct A1 : Extends<A0> { int one = 1; };
    struct A2 : Extends<A1> { int two = 2; };
    struct A3 : Extends<A2> { int three = 3; };
    struct U : Extends<Object> { int pad[3]; Track t; };
    struct V : Extends<U> { int more = 4; };

    struct Node {
        bool array = false;
        int depth = 0;          // A0..A3 -> 0..3, U -> 10, V -> 11
        int id = 0;             // of the ledger
        std::weak_ptr<Object> w;
        Object* p = nullptr;
        bool root = true;
        jobject ref = nullptr;  // global, while root
        // arrays
        int elem = -1;          // element class depth, -1: anything
        std::vector<int> e;     // node numbers, -1: null
        std::string cls;
    };
    bool fits(const Node& n, int depth) {
        if(depth < 0) return true;
        if(n.array) return false;
        return n.depth / 10 == depth / 10 && n.depth >= depth;
    }
    int ident(Object* o) {
        if(auto a = dynamic_cast<A0*>(o)) return a->t.id;
        if(auto u = dynamic_cast<U*>(o)) return u->t.id;
        return -1;
    }
    // Work to do by native code which got a view
    struct Plan {
        std::function<void(std::shared_ptr<Array<A0>>)> a0;
        std::function<void(std::shared_ptr<Array<A1>>)> a1;
        std::function<void(std::shared_ptr<Array<A2>>)> a2;
        std::function<void(std::shared_ptr<Array<A3>>)> a3;
        std::function<void(std::shared_ptr<Array<U>>)> u;
        std::function<void(std::shared_ptr<Array<V>>)> v;
        std::function<void(std::shared_ptr<Array<Object>>)> o;
    };
    thread_local Plan plan;

    struct P0 : Extends<Object> {
        static int living;
        int v = 0;
        explicit P0(int v = 0) : v(v) { ++living; }
        P0(const P0& o) : v(o.v) { ++living; }
        ~P0() { --living; v = -1; }
    };
    int P0::living = 0;
    struct P1 : Extends<P0> {
        explicit P1(int v = 0) : P0(v) {}
    };
    struct Cell {
        P0* p;
        int v;
        bool derived;
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C13");
    bool T = vh::S().thorough;
    vh::run_cases("array graphs", 0, T ? 10000 : 700, [&](vh::Rng& r, long i) {
        new_ledger();
        {
        jnivm::VM vm(false, r.chance(1, 2));
        auto e0 = vm.GetEnv().get();
        auto env0 = e0->GetJNIEnv();
        Worker w;
        ENV* we = nullptr;
        w.run([&] { JNIEnv* x; vm.GetJavaVM()->AttachCurrentThread(&x, nullptr); we = ENV::FromJNIEnv(x); });
        e0->GetClass<A0>("c13/A0"); e0->GetClass<A1>("c13/A1"); e0->GetClass<A2>("c13/sub/A2"); e0->GetClass<A3>("A3");
        e0->GetClass<U>("c13/U"); e0->GetClass<V>("c13/U$V");
        auto k = e0->GetClass("c13/K");
        k->Hook(e0, "v", [](std::shared_ptr<Array<A0>> a) { auto f = std::move(plan.a0); f(a); });
        k->Hook(e0, "v", [](std::shared_ptr<Array<A1>> a) { auto f = std::move(plan.a1); f(a); });
        k->Hook(e0, "v", [](std::shared_ptr<Array<A2>> a) { auto f = std::move(plan.a2); f(a); });
        k->Hook(e0, "v", [](std::shared_ptr<Array<A3>> a) { auto f = std::move(plan.a3); f(a); });
        k->Hook(e0, "v", [](std::shared_ptr<Array<U>> a) { auto f = std::move(plan.u); f(a); });
        k->Hook(e0, "v", [](std::shared_ptr<Array<V>> a) { auto f = std::move(plan.v); f(a); });
        k->Hook(e0, "v", [](std::shared_ptr<Array<Object>> a) { auto f = std::move(plan.o); f(a); });
        struct EC { const char* name; int depth; };
        static const EC elems[] = { { "c13/A0", 0 }, { "c13/A1", 1 }, { "c13/sub/A2", 2 }, { "A3", 3 }, { "c13/U", 10 }, { "c13/U$V", 11 },
            { "c13/Fabricated", -1 }, { "a/b/c/D$E", -1 }, { "[I", -1 }, { "[Lc13/A1;", -1 }, { "[[Lc13/U;", -1 }, { "java/lang/Object", -1 }, { "[LX;", -1 } };
        for(auto n : { "c13/Fabricated", "a/b/c/D$E", "[I", "[Lc13/A1;", "[[Lc13/U;", "java/lang/Object", "[LX;" }) { env0->PushLocalFrame(2); e0->GetClass(n); env0->PopLocalFrame(nullptr); }
        std::vector<Node> nodes;
        auto reachable = [&] {
            std::vector<char> m(nodes.size());
            for(int n = nodes.size() - 1; n >= 0; --n) {
                if(nodes[n].root) m[n] = 1;
                // arrays only refer to nodes made before them
                if(m[n]) for(auto x : nodes[n].e) if(x >= 0) m[x] = 1;
            }
            return m;
        };
        auto describe = [&](const Node& n) { return n.array ? fmt("array %s[%zu]", n.cls.c_str(), n.e.size()) : fmt("object of depth %d", n.depth); };
        auto on = [&](std::function<void(ENV*)> f) {
            auto g = [&](ENV* e) {
                e->GetJNIEnv()->PushLocalFrame(16);
                f(e);
                REQ(!e->GetJNIEnv()->ExceptionCheck(), "C13:stray-exception", "left pending");
                e->GetJNIEnv()->PopLocalFrame(nullptr);
            };
            if(r.chance(1, 4)) w.run([&] { g(we); });
            else g(e0);
        };
        // compares one array with the model
        auto compare = [&](ENV* e, Node& n, jobject o, const char* after) {
            auto env = e->GetJNIEnv();
            auto arr = (jobjectArray)o;
            auto d = describe(n);
            REQ(env->GetArrayLength(arr) == (jsize)n.e.size(), "C13:length", "%s after %s: length %d", d.c_str(), after, env->GetArrayLength(arr));
            auto c = env->GetObjectClass(o);
            auto cc = std::dynamic_pointer_cast<Class>(deref(e, (jobject)c));
            REQ(n.cls.empty() || cc && cc->nativeprefix == n.cls, "C13:class", "%s: its class is %s", d.c_str(), cc ? cc->nativeprefix.c_str() : "null");
            REQ(n.cls.empty() || env->IsSameObject((jobject)c, (jobject)env->FindClass(n.cls.c_str())), "C13:class", "%s: not the class found by name", d.c_str());
            auto ov = std::dynamic_pointer_cast<Array<Object>>(deref(e, o));
            REQ((bool)ov, "C13:object-view", "%s: no view as objects", d.c_str());
            for(size_t i = 0; i < n.e.size(); ++i) {
                auto want = n.e[i] < 0 ? nullptr : nodes[n.e[i]].p;
                auto x = env->GetObjectArrayElement(arr, i);
                auto got = deref(e, x).get();
                REQ(got == want, "C13:element", "%s after %s: element %zu is %s", d.c_str(), after, i, !got ? "null" : !want ? "not null" : "another object");
                std::shared_ptr<Object> g2 = (*ov)[i];
                REQ(g2.get() == want, "C13:object-view", "%s after %s: element %zu seen as object", d.c_str(), after, i);
                auto& cv = std::as_const(*ov);
                std::shared_ptr<Object> g3 = cv[i];
                REQ(g3.get() == want && (Object*)cv[i] == want && (bool)cv[i] == (want != nullptr) && (Object*)(*ov)[i] == want && (bool)(*ov)[i] == (want != nullptr), "C13:object-view", "%s after %s: element %zu seen as constant object", d.c_str(), after, i);
                if(want) REQ(&*cv[i] == want && cv[i].operator->() == want && &*(*ov)[i] == want, "C13:object-view", "%s after %s: element %zu dereferenced", d.c_str(), after, i);
                if(want && !nodes[n.e[i]].array) REQ(ident(got) == nodes[n.e[i]].id, "C13:element", "%s: element %zu is another object", d.c_str(), i);
                if(n.elem >= 0) {
                    // every base view
                    auto od = deref(e, o);
#define VIEW(Ty, dep) if(n.elem / 10 == dep / 10 && n.elem >= dep) { \
                        auto v = std::dynamic_pointer_cast<Array<Ty>>(od); \
                        REQ((bool)v, "C13:view", "%s: no view as array of " #Ty, d.c_str()); \
                        const Array<Ty>& cv = *v; \
                        std::shared_ptr<Ty> s = (*v)[i]; \
                        Ty* p = cv[i]; \
                        REQ(static_cast<Object*>(s.get()) == want && p == s.get() && (bool)(*v)[i] == (want != nullptr), "C13:view", "%s after %s: element %zu as " #Ty, d.c_str(), after, i); \
                        if(want) REQ((*v)[i]->t.id == nodes[n.e[i]].id && (*cv[i]).t.magic == 0x600df00d, "C13:view", "%s after %s: element %zu as " #Ty, d.c_str(), after, i); \
                        vh::count("typed reads"); }
                    VIEW(A0, 0) VIEW(A1, 1) VIEW(A2, 2) VIEW(A3, 3) VIEW(U, 10) VIEW(V, 11)
#undef VIEW
                }
                env->DeleteLocalRef(x);
                vh::count("elements compared");
            }
        };
        auto verify = [&](const char* after) {
            auto m = reachable();
            for(size_t n = 0; n < nodes.size(); ++n) {
                auto& x = nodes[n];
                bool alive = x.array ? !x.w.expired() : ledger()->alive(x.id);
                REQ(alive || !m[n], "C13:died-early", "after %s: node %zu (%s) still stored somewhere was destroyed", after, n, describe(x).c_str());
                REQ(!alive || m[n], "C13:kept-alive", "after %s: node %zu (%s) no longer stored anywhere is still alive", after, n, describe(x).c_str());
            }
            env0->PushLocalFrame(16);
            for(size_t n = 0; n < nodes.size(); ++n) if(nodes[n].array && m[n]) {
                auto s = nodes[n].w.lock();
                auto o = nodes[n].root ? nodes[n].ref : local(e0, s);
                compare(e0, nodes[n], o, after);
            }
            env0->PopLocalFrame(nullptr);
            vh::count("verifications");
        };
        auto candidates = [&](bool any, int below) { // reachable nodes, roots if !any
            auto m = reachable();
            std::vector<int> v;
            for(int n = 0; n < (int)nodes.size() && n < below; ++n) if(m[n] && (any || nodes[n].root)) v.push_back(n);
            return v;
        };
        uint64_t h = 0;
        int steps = 30 + r.below(60);
        for(int s = 0; s < steps; ++s) {
            int op = r.below(12);
            std::string what = "?";
            if(op <= 1 || nodes.size() < 3) { // a new object
                Node n;
                static const int depths[] = { 0, 1, 2, 3, 10, 11 };
                n.depth = depths[r.below(6)];
                on([&](ENV* e) {
                    std::shared_ptr<Object> p;
                    switch(n.depth) {
                    case 0: p = std::make_shared<A0>(); break;
                    case 1: p = std::make_shared<A1>(); break;
                    case 2: p = std::make_shared<A2>(); break;
                    case 3: p = std::make_shared<A3>(); break;
                    case 10: p = std::make_shared<U>(); break;
                    default: p = std::make_shared<V>();
                    }
                    n.id = ident(p.get());
                    n.w = p;
                    n.p = p.get();
                    n.ref = e->GetJNIEnv()->NewGlobalRef(local(e, p));
                });
                vh::op("node %zu: %s", nodes.size(), describe(n).c_str());
                nodes.push_back(n);
                what = "new object";
            } else if(op <= 3) { // a new array
                Node n;
                n.array = true;
                auto& ec = elems[r.below(sizeof elems / sizeof *elems)];
                n.elem = ec.depth;
                jsize len = r.chance(1, 5) ? r.below(2) : r.chance(1, 10) ? r.below(200) : r.below(8);
                auto c = candidates(true, nodes.size());
                int init = c.empty() || r.chance(1, 3) ? -1 : r.pick(c);
                bool native = ec.depth >= 0 && r.chance(1, 5);
                if(native) init = -1;
                bool ok = init < 0 || fits(nodes[init], n.elem) || !len;
                std::string name = ec.name;
                n.cls = name[0] == '[' ? "[" + name : "[L" + name + ";";
                vh::op("node %zu: %s array %s of %d, initial %d", nodes.size(), native ? "native" : "new", n.cls.c_str(), len, init);
                on([&](ENV* e) {
                    auto env = e->GetJNIEnv();
                    Refs refs(env);
                    jobject o;
                    if(native) {
                        std::shared_ptr<Object> a;
                        switch(n.elem) {
                        case 0: a = std::make_shared<Array<A0>>(len); break;
                        case 1: a = std::make_shared<Array<A1>>(len); break;
                        case 2: a = std::make_shared<Array<A2>>(len); break;
                        case 3: a = std::make_shared<Array<A3>>(len); break;
                        case 10: a = std::make_shared<Array<U>>(len); break;
                        default: a = std::make_shared<Array<V>>(len);
                        }
                        o = local(e, a);
                        n.cls = "";
                        vh::count("native arrays");
                    } else {
                        auto in = init < 0 ? nullptr : refs.make(local(e, nodes[init].w.lock()), r.below(RKINDS));
                        auto jc = refs.make((jobject)env->FindClass(name.c_str()), r.below(RKINDS));
                        o = env->NewObjectArray(len, (jclass)jc, in);
                    }
                    if(ok) {
                        REQ(o && !env->ExceptionCheck(), "C13:new", "%s of %d", n.cls.c_str(), len);
                        n.w = deref(e, o);
                        n.p = deref(e, o).get();
                        n.ref = env->NewGlobalRef(o);
                    } else {
                        REQ(env->ExceptionCheck(), "C13:new-bad-initial", "array %s with an initial element of another class", n.cls.c_str());
                        env->ExceptionClear();
                    }
                    refs.release();
                });
                if(ok) {
                    n.e.assign(len, init);
                    nodes.push_back(n);
                    vh::count("arrays");
                } else vh::count("bad initial elements");
                what = "new array";
            } else if(op <= 9) { // store or read
                std::vector<int> arrs;
                auto m = reachable();
                for(int n = 0; n < (int)nodes.size(); ++n) if(nodes[n].array && m[n]) arrs.push_back(n);
                if(arrs.empty()) continue;
                int a = r.pick(arrs);
                auto& n = nodes[a];
                jsize len = n.e.size();
                auto c = candidates(true, a);
                int v = c.empty() || r.chance(1, 5) ? -1 : r.pick(c);
                if(n.elem >= 0 && v >= 0 && !fits(nodes[v], n.elem) && r.chance(2, 3)) { // prefer what fits
                    std::vector<int> f;
                    for(auto x : c) if(fits(nodes[x], n.elem)) f.push_back(x);
                    if(!f.empty()) v = r.pick(f);
                }
                bool ok = v < 0 || fits(nodes[v], n.elem);
                bool bad = op == 9 && r.chance(1, 2);
                static const jsize ext[] = { INT32_MAX, INT32_MIN, -1, -2, INT32_MAX - 1 };
                jsize at = bad || !len ? (r.chance(1, 2) ? len + (jsize)r.below(2) : ext[r.below(5)]) : r.below(len);
                bad = at < 0 || at >= len;
                bool view = op >= 7 && !bad;
                what = fmt("%s %s[%d] = node %d", view ? "view store" : "store", n.cls.c_str(), at, v);
                vh::op("array node %d: %s", a, what.c_str());
                on([&](ENV* e) {
                    auto env = e->GetJNIEnv();
                    Refs refs(env);
                    auto arr = (jobjectArray)refs.make(local(e, n.w.lock()), r.below(RKINDS));
                    if(!view) {
                        auto x = v < 0 ? nullptr : refs.make(local(e, nodes[v].w.lock()), r.below(RKINDS));
                        if(r.chance(1, 6) && bad) {
                            REQ(!env->GetObjectArrayElement(arr, at), "C13:out-of-range", "element %d of %d read", at, len);
                        } else env->SetObjectArrayElement(arr, at, x);
                        REQ((bool)env->ExceptionCheck() == (bad || !ok), "C13:store-exception", "%s (length %d): %s exception", what.c_str(), len, bad || !ok ? "no" : "an");
                        env->ExceptionClear();
                        if(!bad && ok) n.e[at] = v;
                        vh::count(bad ? "out of range" : ok ? "stores" : "rejected stores");
                    } else {
                        // through a view of the element class or one of its bases, by native code
                        int depth = n.elem < 0 ? -1 : (n.elem / 10 * 10) + (int)r.below(n.elem % 10 + 1);
                        if(r.chance(1, 6)) depth = -1;
                        bool ran = false;
                        auto sp = v < 0 ? nullptr : nodes[v].w.lock();
                        int how = r.below(4);
                        bool applicable = v < 0 || fits(nodes[v], depth); // else it does not compile
                        if(!applicable) return refs.release();
                        auto store = [&](auto view, auto val) {
                            ran = true;
                            bool thrown = false;
                            try {
                                switch(val ? how : how & 1) {
                                case 0: (*view)[at] = val; break;
                                case 1: (*view)[at] = val.get(); break;
                                case 2: (*view)[at] = *val; break;
                                default: view->Set(at, val);
                                }
                            } catch(const std::exception&) {
                                thrown = true;
                            }
                            SOFT(thrown == !ok, "C13:view-store", "%s through depth %d: %s", what.c_str(), depth, thrown ? "rejected" : "accepted");
                        };
                        std::string sig;
                        switch(depth) {
                        case 0: plan.a0 = [&](std::shared_ptr<Array<A0>> a) { store(a, std::dynamic_pointer_cast<A0>(sp)); }; sig = "([Lc13/A0;)V"; break;
                        case 1: plan.a1 = [&](std::shared_ptr<Array<A1>> a) { store(a, std::dynamic_pointer_cast<A1>(sp)); }; sig = "([Lc13/A1;)V"; break;
                        case 2: plan.a2 = [&](std::shared_ptr<Array<A2>> a) { store(a, std::dynamic_pointer_cast<A2>(sp)); }; sig = "([Lc13/sub/A2;)V"; break;
                        case 3: plan.a3 = [&](std::shared_ptr<Array<A3>> a) { store(a, std::dynamic_pointer_cast<A3>(sp)); }; sig = "([LA3;)V"; break;
                        case 10: plan.u = [&](std::shared_ptr<Array<U>> a) { store(a, std::dynamic_pointer_cast<U>(sp)); }; sig = "([Lc13/U;)V"; break;
                        case 11: plan.v = [&](std::shared_ptr<Array<V>> a) { store(a, std::dynamic_pointer_cast<V>(sp)); }; sig = "([Lc13/U$V;)V"; break;
                        default: plan.o = [&](std::shared_ptr<Array<Object>> a) { store(a, sp); }; sig = "([Ljava/lang/Object;)V"; break;
                        }
                        auto jk = klass(e, k);
                        auto id = env->GetStaticMethodID(jk, "v", sig.c_str());
                        env->CallStaticVoidMethod(jk, id, arr);
                        REQ(ran && !env->ExceptionCheck(), "C13:view", "%s: native code got no view as %s", what.c_str(), sig.c_str());
                        if(ok) n.e[at] = v;
                        vh::count(ok ? "view stores" : "rejected view stores");
                        // Object& copies are not possible, the reference has to be shared
                    }
                    refs.release();
                });
            } else if(op == 10) { // drop a root
                auto c = candidates(false, nodes.size());
                if(c.empty()) continue;
                auto& n = nodes[r.pick(c)];
                vh::op("drop %s", describe(n).c_str());
                on([&](ENV* e) { e->GetJNIEnv()->DeleteGlobalRef(n.ref); });
                n.ref = nullptr;
                n.root = false;
                what = "dropping a reference";
                vh::count("drops");
            } else { // an element becomes a root again
                std::vector<int> c;
                auto m = reachable();
                for(int n = 0; n < (int)nodes.size(); ++n) if(m[n] && !nodes[n].root) c.push_back(n);
                if(c.empty()) continue;
                int x = r.pick(c);
                on([&](ENV* e) {
                    auto env = e->GetJNIEnv();
                    for(auto& n : nodes) if(n.array && !n.w.expired()) for(size_t i = 0; i < n.e.size(); ++i) if(n.e[i] == x) {
                        nodes[x].ref = env->NewGlobalRef(env->GetObjectArrayElement((jobjectArray)local(e, n.w.lock()), i));
                        nodes[x].root = true;
                        return;
                    }
                });
                what = "taking an element";
                vh::count("taken");
            }
            h = vh::mix(h, vh::hash(what));
            verify(what.c_str());
        }
        for(auto& n : nodes) if(n.root) { env0->DeleteGlobalRef(n.ref); n.root = false; }
        verify("dropping all references");
        w.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
        vh::distinct(h);
        }
        check_ledger("C13:lifetime");
    });
    // Elements stored by native code from shared pointers, plain pointers and references to objects of any owner: an owned
    // object is shared, one that nobody owns (on the stack) is copied
    vh::run_cases("native stores", 100000, T ? 4000 : 300, [&](vh::Rng& r, long) {
        REQ(P0::living == 0, "C13:native-lifetime", "objects of an earlier case");
        {
        int na = 1 + r.below(3), n1 = r.below(2);
        std::vector<std::shared_ptr<Array<P0>>> a;
        std::vector<std::shared_ptr<Array<P1>>> typed(na);
        std::vector<std::vector<Cell>> model;
        for(int k = 0; k < na; ++k) {
            int len = 1 + r.below(6);
            if(n1 && k == 0) a.push_back(typed[k] = std::make_shared<Array<P1>>(len));
            else a.push_back(std::make_shared<Array<P0>>(len));
            model.push_back(std::vector<Cell>(len, Cell { nullptr, 0, false }));
        }
        int serial = 0;
        int steps = 20 + r.below(60);
        uint64_t h = 0;
        for(int s = 0; s < steps; ++s) {
            int k = r.below(na), i = r.below(model[k].size()), how = r.below(8), from = r.below(3);
            auto& arr = *a[k];
            Cell want { nullptr, 0, false };
            bool copied = false, rejected = false, thrown = false;
            h = vh::mix(h, k + how * 10 + from * 100);
            vh::op("array %d[%d] how %d from %d", k, i, how, from);
            int k2 = r.below(na), j = r.below(model[k2].size());
            bool der = typed[k] || r.chance(1, 3); // what a P1 array takes
            try {
                switch(how) {
                case 0: case 1: case 2: case 3: { // a new object whose only owner is here
                    std::shared_ptr<P0> p = der ? std::static_pointer_cast<P0>(std::make_shared<P1>(++serial)) : std::make_shared<P0>(++serial);
                    want = { p.get(), serial, der };
                    if(how == 0) arr[i] = p;
                    else if(how == 1) arr[i] = p.get();
                    else if(how == 2) arr[i] = *p;
                    else arr.Set(i, p);
                    vh::count("stores from the only owner");
                    break;
                }
                case 4: case 5: case 6: { // of another element, perhaps the same
                    want = model[k2][j];
                    rejected = typed[k] && want.p && !want.derived;
                    auto& other = *a[k2];
                    if(how == 4) arr[i] = (P0*)other[j];
                    else if(how == 5 && want.p) arr[i] = *other[j];
                    else arr[i] = (std::shared_ptr<P0>)other[j];
                    vh::count("stores of elements");
                    break;
                }
                default: { // an object nobody owns
                    if(typed[k]) {
                        P1 local(++serial);
                        if(r.chance(1, 2)) (*typed[k])[i] = &local;
                        else (*typed[k])[i] = local;
                        copied = true;
                        want = { nullptr, serial, true };
                    } else {
                        P0 local(++serial);
                        if(r.chance(1, 2)) arr[i] = &local;
                        else arr[i] = local;
                        copied = true;
                        want = { nullptr, serial, false };
                        REQ((P0*)arr[i] != &local, "C13:native-store", "an object on the stack was stored itself");
                    }
                    vh::count("stores of copies");
                }
                }
            } catch(const std::runtime_error&) {
                thrown = true;
            }
            REQ(thrown == rejected, "C13:native-store", "%s", thrown ? "rejected" : "not rejected");
            if(!rejected) {
                if(copied) want.p = (P0*)arr[i];
                model[k][i] = want;
            }
            std::set<P0*> alive;
            for(int x = 0; x < na; ++x) for(size_t y = 0; y < model[x].size(); ++y) {
                auto& m = model[x][y];
                const Array<P0>& c = *a[x];
                std::shared_ptr<P0> sp = c[y];
                REQ((P0*)c[y] == m.p && (P0*)(*a[x])[y] == m.p && sp.get() == m.p, "C13:native-store", "element %zu of array %d is %s", y, x, !(P0*)c[y] ? "null" : m.p ? "another object" : "not null");
                if(m.p) {
                    REQ(c[y]->v == m.v && (*(*a[x])[y]).v == m.v && (bool)dynamic_cast<P1*>(sp.get()) == m.derived, "C13:native-store", "element %zu of array %d has value %d, not %d", y, x, c[y]->v, m.v);
                    alive.insert(m.p);
                }
                vh::count("native elements compared");
            }
            REQ(P0::living == (int)alive.size(), "C13:native-lifetime", "%d objects alive, %zu stored", P0::living, alive.size());
        }
        vh::distinct(h);
        }
        REQ(P0::living == 0, "C13:native-lifetime", "%d objects outlive all arrays", P0::living);
    });
    // Big arrays
    vh::run_cases("big arrays", 200000, T ? 40 : 10, [&](vh::Rng& r, long i) {
        jnivm::VM vm;
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        static const jsize lens[] = { 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 200001, 1 << 20 };
        jsize n = lens[i % 10];
        auto c = env->FindClass("c13/Big");
        std::vector<jobject> objs;
        for(int k = 0; k < 7; ++k) objs.push_back(local(e, std::make_shared<Object>()));
        auto arr = env->NewObjectArray(n, r.chance(1, 2) ? c : klass(e, e->GetClass("java/lang/Object")), objs[0]);
        REQ(arr && env->GetArrayLength(arr) == n, "C13:big", "length %d of %d", arr ? env->GetArrayLength(arr) : -1, n);
        auto ov = std::dynamic_pointer_cast<Array<Object>>(deref(e, arr));
        std::vector<Object*> op;
        for(auto o : objs) op.push_back(deref(e, o).get());
        std::map<jsize, int> model;
        env->PushLocalFrame(16);
        for(int k = 0; k < 300; ++k) {
            jsize at = r.chance(1, 2) ? n - 1 - r.below(10) : r.chance(1, 4) ? r.below(10) : r.below(n);
            int v = (int)r.below(8) - 1;
            env->SetObjectArrayElement(arr, at, v < 0 ? nullptr : objs[v]);
            model[at] = v;
            REQ(!env->ExceptionCheck(), "C13:big", "store at %d of %d rejected", at, n);
            if(ov && r.chance(1, 3)) {
                at = r.chance(1, 2) ? n - 1 - r.below(10) : r.below(n);
                v = (int)r.below(8) - 1;
                if(v < 0) (*ov)[at] = std::shared_ptr<Object>(); else (*ov)[at] = deref(e, objs[v]);
                model[at] = v;
                vh::count("big stores from C++");
            }
        }
        for(jsize k = 0, step = n > 70000 ? 17 : 1; k < n; k += step) {
            auto f = model.find(k);
            int v = f == model.end() ? 0 : f->second;
            auto x = env->GetObjectArrayElement(arr, k);
            REQ(env->IsSameObject(x, v < 0 ? nullptr : objs[v]), "C13:big", "element %d of %d", k, n);
            if(ov) {
                auto want = v < 0 ? nullptr : op[v];
                auto& cv = std::as_const(*ov);
                std::shared_ptr<Object> s = cv[k], m = (*ov)[k];
                REQ(s.get() == want && m.get() == want && (Object*)cv[k] == want && (Object*)(*ov)[k] == want && (bool)cv[k] == (bool)(*ov)[k] && (bool)cv[k] == (want != nullptr) && (!want || &*cv[k] == want && (*ov)[k].operator->() == want), "C13:big", "element %d of %d seen from C++", k, n);
            }
            if(x) env->DeleteLocalRef(x);
            vh::count("big elements");
        }
        for(auto& m : model) {
            auto x = env->GetObjectArrayElement(arr, m.first);
            REQ(env->IsSameObject(x, m.second < 0 ? nullptr : objs[m.second]), "C13:big", "element %d of %d", m.first, n);
        }
        for(auto at : { n, n + 1, -1, n + 65536 }) {
            REQ(!env->GetObjectArrayElement(arr, at) && env->ExceptionCheck(), "C13:big", "element %d of %d read", at, n);
            env->ExceptionClear();
        }
        env->PopLocalFrame(nullptr);
        vh::distinct(vh::mix(n, r.s));
        // The same for arrays of native elements, through every view of them
        auto na = std::make_shared<Array<P1>>(n);
        auto base = std::dynamic_pointer_cast<Array<P0>>(std::shared_ptr<Array<P1>>(na));
        auto obj = std::dynamic_pointer_cast<Array<Object>>(std::shared_ptr<Array<P1>>(na));
        REQ(base && obj && na->getSize() == n && base->getSize() == n && obj->getSize() == n, "C13:big", "native array of %d", n);
        std::map<jsize, std::shared_ptr<P1>> nm;
        for(int k = 0; k < 200; ++k) {
            jsize at = r.chance(1, 2) ? n - 1 - r.below(10) : r.chance(1, 4) ? r.below(10) : r.below(n);
            auto p = r.chance(1, 6) ? nullptr : std::make_shared<P1>(1000 + k);
            switch(r.below(3)) {
            case 0: (*na)[at] = p; break;
            case 1: (*base)[at] = std::shared_ptr<P0>(p); break;
            default: (*obj)[at] = std::shared_ptr<Object>(p); break;
            }
            nm[at] = p;
        }
        auto look = [&](jsize k) {
            auto f = nm.find(k);
            P1* want = f == nm.end() ? nullptr : f->second.get();
            std::shared_ptr<P1> s1 = (*na)[k], c1 = std::as_const(*na)[k];
            std::shared_ptr<P0> s0 = (*base)[k], c0 = std::as_const(*base)[k];
            std::shared_ptr<Object> so = (*obj)[k], co = std::as_const(*obj)[k];
            REQ(s1.get() == want && c1.get() == want && s0.get() == want && c0.get() == want && so.get() == want && co.get() == want, "C13:big", "native element %d of %d", k, n);
            vh::count("big native elements");
        };
        for(jsize k = 0, step = n > 70000 ? 23 : 3; k < n; k += step) look(k);
        for(auto& m : nm) look(m.first);
    });
    // Arrays of many classes whose names resemble each other
    vh::run_cases("many element classes", 300000, T ? 1500 : 100, [&](vh::Rng& r, long) {
        jnivm::VM vm(false, r.chance(1, 2));
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        auto names = lookalikes(r, 3 + r.below(40), true);
        std::vector<std::shared_ptr<Class>> c;
        for(auto& n : names) c.push_back(e->GetClass(n.c_str()));
        std::map<std::string, Class*> classes;
        Worker w;
        ENV* we = nullptr;
        w.run([&] { JNIEnv* x; vm.GetJavaVM()->AttachCurrentThread(&x, nullptr); we = ENV::FromJNIEnv(x); });
        for(int n = 0; n < 120; ++n) {
            auto f = [&](ENV* e) {
                auto env = e->GetJNIEnv();
                env->PushLocalFrame(16);
                int k = r.chance(1, 2) ? r.below(std::min<int>(4, names.size())) : r.below(names.size());
                jsize len = r.below(4);
                auto cl = klass(e, c[k]);
                std::string want = "[L" + names[k] + ";";
                int dims = 1 + (r.chance(1, 3) ? r.below(3) : 0);
                jobjectArray a = nullptr;
                for(int d = 0; d < dims; ++d) {
                    if(d) want = "[" + want;
                    a = env->NewObjectArray(len, cl, nullptr);
                    REQ(a && env->GetArrayLength(a) == len, "C13:many", "array %s", want.c_str());
                    cl = env->GetObjectClass(a);
                    auto p = std::dynamic_pointer_cast<Class>(deref(e, cl));
                    REQ(p && p->getName() == want, "C13:many", "array %s is of class %s", want.c_str(), p ? p->getName().c_str() : "null");
                    REQ(env->IsSameObject(env->FindClass(want.c_str()), cl), "C13:many", "class of array %s is not the one found by name", want.c_str());
                    auto& q = classes[want];
                    REQ(!q || q == p.get(), "C13:many", "array %s has another class than before", want.c_str());
                    q = p.get();
                    vh::count("arrays of many classes");
                    for(auto& x : classes) REQ((x.second == p.get()) == (x.first == want), "C13:many", "arrays %s and %s share a class", want.c_str(), x.first.c_str());
                    for(jsize x = 0; x < len; ++x) REQ(!env->GetObjectArrayElement(a, x), "C13:many", "element of a new array");
                }
                REQ(!env->ExceptionCheck(), "C13:many", "exception");
                env->PopLocalFrame(nullptr);
            };
            if(r.chance(1, 5)) w.run([&] { f(we); }); else f(e);
        }
        vh::distinct(r.s);
        w.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
    });
    return vh::finish();
}
