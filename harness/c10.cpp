// C10: C++ exceptions become the pending exception of the calling thread, and of no other.
#include "jh.h"
#include "calls.h"
using namespace jh;
using namespace jnivm;

namespace {
    struct Token { Track t; };
    // Exceptions of several shapes, all carrying a token
    struct Custom {
        std::shared_ptr<Token> tok;
        int n;
    };
    struct Derived : std::runtime_error {
        std::shared_ptr<Token> tok;
        Derived(const std::string& m, std::shared_ptr<Token> t) : std::runtime_error(m), tok(std::move(t)) {}
    };
    enum { XNone, XRuntime, XCustom, XInt, XDerived, XLogic, XKINDS };
    struct Plan {
        int kind = XNone;
        int n = 0;
        std::shared_ptr<Token> tok;
        std::function<void(ENV*)> inside;
    };
    thread_local Plan plan;
    void act(ENV* e) {
        auto p = plan;
        if(p.inside) {
            auto f = p.inside;
            plan.inside = nullptr;
            f(e);
        }
        switch(p.kind) {
        case XRuntime: throw std::runtime_error("r" + std::to_string(p.n));
        case XCustom: throw Custom { p.tok, p.n };
        case XInt: throw p.n;
        case XDerived: throw Derived("d" + std::to_string(p.n), p.tok);
        case XLogic: throw std::out_of_range("l" + std::to_string(p.n));
        }
    }
    thread_local double statics;
    struct Thing : Object {
        jint f = 0;
        double all = 0;
        jint mem(ENV* e, jint) { act(e); return 1; }
    };
    struct MyThrowable : Extends<Throwable> {
        Track t;
    };
    // What is pending on a thread
    struct Pending {
        bool any = false;
        int kind = XNone; // shape of the C++ exception, XNone: a throwable without one
        int n = 0;
        std::shared_ptr<Token> tok;
        std::string msg;             // of ThrowNew
        bool thrownew = false;
        std::shared_ptr<Class> cls;
        std::shared_ptr<Object> obj; // identity, once known
    };
    // Runs f, which has to rethrow exactly the pending exception
    template<class F> std::string rethrown(const Pending& p, F f) {
        try {
            f();
        } catch(const Custom& c) {
            return p.kind == XCustom && c.n == p.n && c.tok == p.tok ? "" : "another custom exception";
        } catch(int n) {
            return p.kind == XInt && n == p.n ? "" : "another int";
        } catch(const Derived& d) {
            return p.kind == XDerived && d.tok == p.tok && d.what() == "d" + std::to_string(p.n) ? "" : "another derived exception";
        } catch(const std::out_of_range& d) {
            return p.kind == XLogic && d.what() == "l" + std::to_string(p.n) ? "" : "another out_of_range";
        } catch(const std::runtime_error& d) {
            if(p.thrownew) return d.what() == p.msg ? "" : std::string("message ") + d.what();
            if(p.kind == XNone) return ""; // a throwable without native exception: any runtime_error
            return p.kind == XRuntime && d.what() == "r" + std::to_string(p.n) ? "" : std::string("another runtime_error: ") + d.what();
        } catch(...) {
            return "an exception of unknown type";
        }
        return "nothing was thrown";
    }
    jint vform(JNIEnv* e, jobject o, jmethodID m, ...) {
        va_list l;
        va_start(l, m);
        auto r = e->functions->CallIntMethodV(e, o, m, l);
        va_end(l);
        return r;
    }
}

enum { COUNT0 = __COUNTER__ + 1 };
int main(int argc, char** argv) {
    vh::init(argc, argv, "C10");
    bool T = vh::S().thorough;
    vh::run_cases("exception histories", 0, T ? 5000 : 400, [&](vh::Rng& r, long i) {
        new_ledger();
        {
            jnivm::VM vm(false, false);
            auto e0 = vm.GetEnv().get();
            auto thing = e0->GetClass<Thing>("c10/Thing");
            auto mythrowable = e0->GetClass<MyThrowable>("c10/MyThrowable");
            auto plain = e0->GetClass("c10/PlainException");
            // every result type, static and instance
#define M(Ty, n, v) thing->Hook(e0, "s" n, [](ENV* e, jint) -> Ty { act(e); return v; }); thing->HookInstanceFunction(e0, "i" n, [](ENV* e, jint) -> Ty { act(e); return v; });
            M(jboolean, "Z", 1) M(jbyte, "B", 1) M(jchar, "C", 1) M(jshort, "S", 1) M(jint, "I", 1) M(jlong, "J", 1) M(jfloat, "F", 1) M(jdouble, "D", 1)
            M(std::shared_ptr<String>, "L", std::make_shared<String>("x")) M(std::shared_ptr<Array<jint>>, "A", std::make_shared<Array<jint>>(3))
#undef M
            thing->Hook(e0, "sV", [](ENV* e, jint) { act(e); });
            thing->HookInstanceFunction(e0, "iV", [](ENV* e, jint) { act(e); });
            thing->HookInstanceFunction(e0, "mem", &Thing::mem);
            thing->Hook(e0, "<init>", [](ENV* e, jint) { act(e); return std::make_shared<Thing>(); });
            thing->HookInstanceGetterFunction(e0, "f", [](ENV* e, Thing* o) -> jint { act(e); return o->f; });
            thing->HookInstanceSetterFunction(e0, "f", [](ENV* e, Thing* o, jint v) { act(e); o->f = v; });
#define X(N, T, m, d) thing->HookInstanceGetterFunction(e0, "i" #m, [](ENV* e, Thing* o) -> T { act(e); return (T)o->all; }); \
            thing->HookInstanceSetterFunction(e0, "i" #m, [](ENV* e, Thing* o, T v) { act(e); o->all = (double)v; }); \
            thing->HookGetterFunction(e0, "s" #m, [](ENV* e, Class*) -> T { act(e); return (T)statics; }); \
            thing->HookSetterFunction(e0, "s" #m, [](ENV* e, Class*, T v) { act(e); statics = (double)v; });
            PRIMS(X)
#undef X
            thing->HookInstanceGetterFunction(e0, "iobj", [](ENV* e, Thing* o) -> std::shared_ptr<String> { act(e); return std::make_shared<String>("x"); });
            thing->HookInstanceSetterFunction(e0, "iobj", [](ENV* e, Thing* o, std::shared_ptr<String>) { act(e); o->all = 77; });
            thing->HookGetterFunction(e0, "sf", [](ENV* e, Class*) -> std::shared_ptr<String> { act(e); return nullptr; });
            thing->HookSetterFunction(e0, "sf", [](ENV* e, Class*, std::shared_ptr<String>) { act(e); });
            struct Th {
                JNIEnv* env;
                Pending p;
            };
            Th th[3];
            Worker w1, w2;
            th[0].env = e0->GetJNIEnv();
            w1.run([&] { vm.GetJavaVM()->AttachCurrentThread(&th[1].env, nullptr); });
            w2.run([&] { vm.GetJavaVM()->AttachCurrentThread(&th[2].env, nullptr); });
            auto on = [&](int t, std::function<void()> f) {
                if(t == 0) f();
                else (t == 1 ? w1 : w2).run(f);
            };
            std::vector<std::shared_ptr<Throwable>> throwables;
            for(int k = 0; k < 4; ++k) throwables.push_back(k % 2 ? std::make_shared<MyThrowable>() : std::make_shared<Throwable>());
            int serial = 0;
            uint64_t h = 0;
            // the pending state of every thread is as expected
            auto verify = [&](const char* after) {
                for(int t = 0; t < 3; ++t) on(t, [&] {
                    auto env = th[t].env;
                    auto e = ENV::FromJNIEnv(env);
                    auto& p = th[t].p;
                    env->PushLocalFrame(4);
                    REQ((bool)env->ExceptionCheck() == p.any, "C10:pending", "after %s: thread %d has %s pending exception", after, t, p.any ? "no" : "a");
                    auto o = deref(e, (jobject)env->ExceptionOccurred());
                    REQ((bool)o == p.any, "C10:occurred", "after %s: thread %d ExceptionOccurred", after, t);
                    if(p.any) {
                        REQ(env->IsInstanceOf(local(e, o), env->FindClass("java/lang/Throwable")) || p.cls, "C10:not-throwable", "after %s", after);
                        if(p.obj) REQ(o == p.obj, "C10:wrong-throwable", "after %s: thread %d has another throwable pending", after, t);
                        else {
                            for(int u = 0; u < 3; ++u) REQ(u == t || !th[u].p.any || th[u].p.obj != o, "C10:shared-throwable", "after %s: threads %d and %d share a throwable", after, t, u);
                            p.obj = o;
                        }
                        if(p.cls) {
                            auto c = deref(e, (jobject)env->GetObjectClass(local(e, o)));
                            REQ(c == p.cls, "C10:throwable-class", "after %s: throwable of class %s", after, std::dynamic_pointer_cast<Class>(c)->getName().c_str());
                        }
                    }
                    vh::count("pending checks");
                    env->PopLocalFrame(nullptr);
                });
            };
            int steps = 40 + r.below(60);
            for(int s = 0; s < steps; ++s) {
                int t = r.below(3);
                int op = r.below(12);
                std::string what;
                on(t, [&] {
                    auto env = th[t].env;
                    auto e = ENV::FromJNIEnv(env);
                    auto& p = th[t].p;
                    env->PushLocalFrame(8);
                    Refs refs(env);
                    auto jt = klass(e, thing);
                    auto self = local(e, std::make_shared<Thing>());
                    auto newplan = [&](bool mustthrow) {
                        plan = Plan();
                        plan.kind = mustthrow || r.chance(1, 2) ? 1 + r.below(XKINDS - 1) : XNone;
                        plan.n = ++serial;
                        if(plan.kind == XCustom || plan.kind == XDerived) plan.tok = std::make_shared<Token>();
                    };
                    auto thrown = [&] {
                        if(plan.kind == XNone) return;
                        p = Pending();
                        p.any = true;
                        p.kind = plan.kind;
                        p.n = plan.n;
                        p.tok = plan.tok;
                    };
                    if(op <= 5) {
                        newplan(false);
                        bool boom = plan.kind != XNone;
                        // sometimes the function itself handles or leaves an exception of a nested call
                        bool nested = r.chance(1, 5), clears = r.chance(1, 2);
                        if(nested) {
                            auto outer = plan;
                            outer.inside = [&, clears](ENV* x) {
                                auto mine = plan;
                                plan = Plan();
                                plan.kind = 1 + r.below(XKINDS - 1);
                                plan.n = ++serial;
                                if(plan.kind == XCustom || plan.kind == XDerived) plan.tok = std::make_shared<Token>();
                                x->GetJNIEnv()->CallStaticIntMethod(jt, x->GetJNIEnv()->GetStaticMethodID(jt, "sI", "(I)I"), 1);
                                SOFT(x->GetJNIEnv()->ExceptionCheck(), "C10:nested", "exception of a nested call is not pending");
                                thrown();
                                if(clears) {
                                    x->GetJNIEnv()->ExceptionClear();
                                    p = Pending();
                                }
                                plan = mine;
                            };
                            plan = outer;
                        }
                        auto kindbefore = plan.kind;
                        int v = r.below(11), st = r.below(3), form = r.below(3);
                        static const char* sg = "ZBCSIJFDLAV";
                        static const char* rets[] = { "Z", "B", "C", "S", "I", "J", "F", "D", "Ljava/lang/String;", "[I", "V" };
                        std::string n = std::string(st == 0 ? "s" : "i") + sg[v], d = std::string("(I)") + rets[v];
                        auto id = st == 0 ? env->GetStaticMethodID(jt, n.c_str(), d.c_str()) : env->GetMethodID(jt, n.c_str(), d.c_str());
                        what = fmt("%s%s %s form %d throwing %d nested %d", n.c_str(), d.c_str(), st == 2 ? "non-virtual" : "", form, plan.kind, nested);
                        vh::op("thread %d %s", t, what.c_str());
                        jvalue a[1];
                        a[0].i = 3;
                        double got = 0;
                        jobject jself = refs.make(self, r.below(RKINDS));
                        switch(v) {
#define C(V, Name) case V: got = calls::call##Name(env, st, form, jself, jt, id, a, (jint)3); break;
                            C(0, Boolean) C(1, Byte) C(2, Char) C(3, Short) C(4, Int) C(5, Long) C(6, Float) C(7, Double)
#undef C
                        case 8: case 9: {
                            auto o = calls::callObject(env, st, form, jself, jt, id, a, (jint)3);
                            if(boom && o && v == 8) REQ(env->GetStringLength((jstring)o) == 0, "C10:default-value", "%s returned a string of length %d", what.c_str(), env->GetStringLength((jstring)o));
                            if(boom && o && v == 9) REQ(env->GetArrayLength((jarray)o) == 0, "C10:default-value", "%s returned an array", what.c_str());
                            if(!boom) REQ(o && (v == 8 ? env->GetStringLength((jstring)o) == 1 : env->GetArrayLength((jarray)o) == 3), "C10:result", "%s", what.c_str());
                            got = boom ? 0 : 1;
                            break;
                        }
                        default:
                            calls::callVoid(env, st, form, jself, jt, id, a, (jint)3);
                            got = boom ? 0 : 1;
                        }
                        REQ(got == (boom ? 0 : 1), "C10:default-value", "%s returned %f", what.c_str(), got);
                        SOFT(plan.kind == kindbefore, "C10:harness", "plan");
                        thrown();
                        vh::count(boom ? "throwing calls" : "quiet calls");
                        if(nested) vh::count("nested");
                    } else if(op == 6) {
                        newplan(false);
                        bool boom = plan.kind != XNone;
                        int v = r.below(13);
                        what = fmt("accessor %d throwing %d", v, plan.kind);
                        vh::op("thread %d %s", t, what.c_str());
                        auto f = env->GetFieldID(jt, "f", "I"), sf = env->GetStaticFieldID(jt, "sf", "Ljava/lang/String;");
                        switch(v) {
                        case 0: REQ(env->GetIntField(self, f) == 0, "C10:default-value", "%s", what.c_str()); break;
                        case 1: {
                            env->SetIntField(self, f, 9);
                            auto x = std::dynamic_pointer_cast<Thing>(deref(e, self))->f;
                            REQ(x == (boom ? 0 : 9), "C10:setter", "%s", what.c_str());
                            break;
                        }
                        case 2: {
                            auto o = env->GetStaticObjectField(jt, sf);
                            REQ(!o || boom && env->GetStringLength((jstring)o) == 0, "C10:default-value", "%s", what.c_str());
                            break;
                        }
                        case 3: env->SetStaticObjectField(jt, sf, nullptr); break;
                        case 4: REQ(vform(env, self, env->GetMethodID(jt, "mem", "(I)I"), 1) == (boom ? 0 : 1), "C10:default-value", "member function, %s", what.c_str()); break;
                        case 5: {
                            auto id = env->GetMethodID(jt, "<init>", "(I)V");
                            jvalue a[1];
                            a[0].i = 1;
                            auto o = r.chance(1, 2) ? env->NewObject(jt, id, 1) : env->NewObjectA(jt, id, a);
                            REQ(boom || o, "C10:constructor", "%s", what.c_str());
                            break;
                        }
                        case 6: {
                            auto o = env->GetObjectField(self, env->GetFieldID(jt, "iobj", "Ljava/lang/String;"));
                            REQ(boom ? !o || env->GetStringLength((jstring)o) == 0 : o && env->GetStringLength((jstring)o) == 1, "C10:default-value", "%s", what.c_str());
                            break;
                        }
                        case 7:
                            env->SetObjectField(self, env->GetFieldID(jt, "iobj", "Ljava/lang/String;"), nullptr);
                            REQ(std::dynamic_pointer_cast<Thing>(deref(e, self))->all == (boom ? 0 : 77), "C10:setter", "%s", what.c_str());
                            break;
                        default: {
                            bool stat = r.chance(1, 2), set = r.chance(1, 2);
                            auto& cell = stat ? statics : std::dynamic_pointer_cast<Thing>(deref(e, self))->all;
                            cell = set ? 0 : 1;
                            double got = -1;
                            switch(r.below(8)) {
#define X(N, T, m, d) case __COUNTER__ - COUNT0: { auto id = stat ? env->GetStaticFieldID(jt, "s" #m, d) : env->GetFieldID(jt, "i" #m, d); \
                                what += stat ? set ? " SetStatic" #N : " GetStatic" #N : set ? " Set" #N : " Get" #N; \
                                if(set) { if(stat) env->SetStatic##N##Field(jt, id, (T)1); else env->Set##N##Field(self, id, (T)1); got = cell; } \
                                else got = stat ? env->GetStatic##N##Field(jt, id) : env->Get##N##Field(self, id); } break;
                            PRIMS(X)
#undef X
                            }
                            REQ(got == (boom ? 0 : 1), "C10:default-value", "%s: %g", what.c_str(), got);
                            vh::count("typed accessors");
                        }
                        }
                        thrown();
                        vh::count(boom ? "throwing accessors" : "quiet accessors");
                    } else if(op == 7) {
                        auto& x = r.pick(throwables);
                        what = "Throw";
                        vh::op("thread %d Throw", t);
                        REQ(env->Throw((jthrowable)refs.make(local(e, x), r.below(RKINDS))) == 0, "C10:Throw", "failed");
                        p = Pending();
                        p.any = true;
                        p.obj = x;
                        vh::count("throws");
                    } else if(op == 8) {
                        auto& c = r.chance(1, 2) ? mythrowable : plain;
                        auto m = "m" + std::to_string(++serial);
                        switch(r.below(8)) {
                        case 0: m = ""; break;
                        case 1: m += std::string(r.below(3000), 'x'); break;
                        case 2: m = "100% %s %n\n\xc3\xa9" + m; break;
                        }
                        what = "ThrowNew";
                        vh::op("thread %d ThrowNew %s %s", t, c->getName().c_str(), m.substr(0, 20).c_str());
                        REQ(env->ThrowNew((jclass)refs.make((jobject)klass(e, c), r.below(RKINDS)), m.empty() && r.chance(1, 2) ? nullptr : m.c_str()) == 0, "C10:ThrowNew", "failed");
                        p = Pending();
                        p.any = true;
                        p.thrownew = true;
                        p.msg = m;
                        p.cls = c;
                        vh::count("throw-news");
                    } else if(op == 9) {
                        what = "clear";
                        vh::op("thread %d clear", t);
                        env->ExceptionClear();
                        p = Pending();
                        vh::count("clears");
                    } else if(op == 10) {
                        what = "describe";
                        vh::op("thread %d describe", t);
                        env->ExceptionDescribe();
                    } else {
                        // from C++: the original exception comes back
                        newplan(false);
                        int v = r.below(3);
                        what = fmt("invoke %d throwing %d", v, plan.kind);
                        vh::op("thread %d %s", t, what.c_str());
                        jint res = -1;
                        std::string bad;
                        auto sI = (Method*)env->GetStaticMethodID(jt, "sI", "(I)I");
                        auto iI = (Method*)env->GetMethodID(jt, "iI", "(I)I");
                        auto run = [&] {
                            switch(v) {
                            case 0: res = sI->invoke(*env, thing.get(), (jint)3).i; break;
                            case 1: res = iI->invoke(*env, deref(e, self).get(), (jint)3).i; break;
                            default: res = iI->invoke(*env, deref(e, refs.make(self, r.below(RKINDS))).get(), (jint)3).i;
                            }
                        };
                        Pending want = p;
                        auto kind = plan.kind;
                        if(kind) {
                            want = Pending();
                            want.any = true;
                            want.kind = kind;
                            want.n = plan.n;
                            want.tok = plan.tok;
                        }
                        if(want.any) {
                            bad = rethrown(want, run);
                            REQ(bad.empty(), "C10:invoke-rethrow", "%s: %s", what.c_str(), bad.c_str());
                            want.obj = kind ? nullptr : p.obj;
                            p = want;
                            vh::count("rethrown");
                        } else {
                            try {
                                run();
                            } catch(...) {
                                vh::fail("C10:invoke-throws", what + ": an exception although none is pending");
                            }
                            REQ(res == 1, "C10:invoke-result", "%s: %d", what.c_str(), res);
                            vh::count("invoked");
                        }
                    }
                    plan = Plan();
                    refs.release();
                    env->PopLocalFrame(nullptr);
                });
                verify(what.c_str());
                h = vh::mix(h, t * 16 + op);
                if(r.chance(1, 30)) {
                    int d = 1 + r.below(2);
                    on(d, [&] {
                        vm.GetJavaVM()->DetachCurrentThread();
                        vm.GetJavaVM()->AttachCurrentThread(&th[d].env, nullptr);
                        th[d].p = Pending();
                    });
                    verify("detach");
                    vh::count("detaches");
                }
            }
            // pending exceptions hold their C++ exception, cleared ones do not
            for(int t = 0; t < 3; ++t) on(t, [&] { th[t].env->ExceptionClear(); th[t].p = Pending(); });
            w1.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
            w2.run([&] { vm.GetJavaVM()->DetachCurrentThread(); });
            throwables.clear();
            size_t n = ledger()->living();
            REQ(n == 0, "C10:kept-exception", "%zu exception payloads alive after clearing", n);
            vh::distinct(h);
        }
        check_ledger("C10:lifetime");
    });
    return vh::finish();
}
