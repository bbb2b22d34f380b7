// C30: what a program observes does not depend on the build options. Seeded programs over the whole function table write down
// everything they observe; check.py compares what builds with different options wrote.
#include "jh.h"
#include "calls.h"
#include <baron/baron.h>
using namespace jh;
using namespace jnivm;
using vh::say;
using vh::fmt;

namespace {
    struct A : Extends<Object> {
        Track t;
        jint number = 0;
        jlong wide = 0;
        std::shared_ptr<String> text;
        std::shared_ptr<Object> held;
    };
    struct B : Extends<A> {};
    struct C : Extends<B> {};
    struct NoDefault : Extends<Object> {
        int x;
        explicit NoDefault(int x) : x(x) {}
    };
    struct MyFake : FakeJni::Jvm {
        MyFake() : FakeJni::Jvm() {}
        VM* vm() { return this; }
    };
    struct MyBaron : Baron::Jvm {
        using Baron::Jvm::Jvm;
        VM* vm() { return this; }
    };
    const char* types = "ZBCSIJFDVL";
    struct Run {
        vh::Rng& r;
        VM* vm = nullptr;
        std::unique_ptr<VM> plain;
        std::unique_ptr<MyFake> fake;
        std::unique_ptr<MyBaron> baron;
        ENV* e = nullptr;
        JNIEnv* env = nullptr;
        ENV* e0 = nullptr;
        ENV* e1 = nullptr;
        Worker w;
        std::vector<std::string> cnames, names, msigs, fsigs;
        std::vector<std::shared_ptr<Class>> classes;
        std::map<void*, int> ids;
        std::vector<std::pair<jmethodID, int>> methods; // 0: instance, 1: static, 2: constructor
        std::vector<std::pair<jfieldID, int>> fields;
        std::vector<jobject> refs; // global
        std::vector<jobject> weaks;
        std::vector<std::shared_ptr<Object>> objs;
        int frames = 0, tags = 0;

        explicit Run(vh::Rng& r) : r(r) {}
        std::string id(void* p) {
            if(!p) return "null";
            auto it = ids.insert({ p, (int)ids.size() }).first;
            return "#" + std::to_string(it->second);
        }
        std::string show(const std::shared_ptr<Object>& o, int depth = 0) {
            if(!o) return "null";
            auto cl = o->getClassInternal(e);
            std::string s = cl ? cl->getName() : "no class";
            if(auto c = std::dynamic_pointer_cast<Class>(o)) return s + " " + c->getName();
            if(auto t = std::dynamic_pointer_cast<String>(o)) return s + " '" + t->asStdString() + "'";
            if(auto t = std::dynamic_pointer_cast<Throwable>(o)) {
                if(!t->except) return s + " thrown";
                try { std::rethrow_exception(t->except); } catch(const std::exception& x) { return s + " " + x.what(); } catch(...) { return s + " something"; }
            }
            if(auto m = std::dynamic_pointer_cast<Method>(o)) return s + " " + m->name + m->signature;
            if(auto f = std::dynamic_pointer_cast<Field>(o)) return s + " " + f->name + f->type;
            if(auto a = std::dynamic_pointer_cast<A>(o)) return s + fmt(" number %d wide %lld ", a->number, (long long)a->wide) + (depth < 2 ? show(a->text, depth + 1) + " " + show(a->held, depth + 1) : "");
            if(auto a = std::dynamic_pointer_cast<Array<Object>>(o)) {
                s += fmt(" of %d", (int)a->getSize());
                for(int i = 0; depth < 2 && i < a->getSize() && i < 4; ++i) s += " " + show((*a)[i], depth + 1);
                return s;
            }
            if(auto a = std::dynamic_pointer_cast<Array<void>>(o)) return s + fmt(" of %d", (int)a->getSize());
            return s;
        }
        std::string show(jobject o) { return show(deref(e, o)); }
        // the whole visible state, after every operation
        void state() {
            std::string s;
            for(auto en : { e0, e1 }) if(en) {
                size_t n = 0, f = 0;
                for(auto& l : en->localframe) { n += l.size(); ++f; }
                s += fmt("%zu/%zu %s ", n, f, en->current_exception ? "pending" : "-");
            }
            size_t m = 0, fs = 0, na = 0;
            for(auto& c : classes) { m += c->methods.size(); fs += c->fields.size(); na += c->natives.size(); }
            say("  = %s%zu globals, %zu methods %zu fields %zu natives, %zu alive", s.c_str(), vm->globals.size(), m, fs, na, ledger()->living());
        }
        jobject anyref() {
            switch(r.below(8)) {
            case 0: return nullptr;
            case 1: case 2: if(refs.size()) return r.pick(refs);
            case 3: if(weaks.size()) return r.pick(weaks);
            case 4: return (jobject)klass(e, r.pick(classes));
            default: return local(e, r.pick(objs));
            }
        }
        jobject live() {
            for(int k = 0; k < 8; ++k) {
                auto o = anyref();
                if(o && deref(e, o)) return o;
            }
            return local(e, objs[0]);
        }
        jobject object() {
            if(refs.size() && r.chance(1, 4)) {
                auto g = r.pick(refs);
                if(std::dynamic_pointer_cast<A>(deref(e, g))) return g;
            }
            return local(e, objs[r.below(6)]);
        }
        jclass clazz() { return klass(e, r.pick(classes)); }
        void made(const std::shared_ptr<Class>& c) {
            for(auto& k : classes) if(k == c) return;
            classes.push_back(c);
        }
        template<class T> auto body() {
            int tag = ++tags, how = r.below(8);
            return [tag, how](ENV* e) -> T {
                if(how == 0) throw std::runtime_error("thrown by " + std::to_string(tag));
                if(how == 1) throw tag;
                if constexpr(std::is_same<T, std::shared_ptr<Object>>::value) return how == 2 ? nullptr : std::static_pointer_cast<Object>(std::make_shared<String>("result " + std::to_string(tag)));
                else if constexpr(!std::is_same<T, void>::value) return (T)(tag * 37 + how);
            };
        }
        template<class T> void hook(Class* c, bool st, const std::string& n, int args) {
            auto b = body<T>();
            switch(args + (st ? 10 : 0)) {
            case 0: c->HookInstanceFunction(e, n, [b](ENV* e, Object*) -> T { return b(e); }); break;
            case 1: c->HookInstanceFunction(e, n, [b](ENV* e, Object*, jint x) -> T { say("  ran with %d", x); return b(e); }); break;
            case 2: c->HookInstanceFunction(e, n, [b, this](ENV* e, Object* o, std::shared_ptr<Object> s, jlong x) -> T { say("  ran on %s with %s %lld", show(o ? o->shared_from_this() : nullptr).c_str(), show(s).c_str(), (long long)x); return b(e); }); break;
            case 10: c->Hook(e, n, [b](ENV* e, Class*) -> T { return b(e); }); break;
            case 11: c->Hook(e, n, [b](ENV* e, Class*, jint x) -> T { say("  ran with %d", x); return b(e); }); break;
            case 12: c->Hook(e, n, [b, this](ENV* e, Class* c, std::shared_ptr<Object> s, jlong x) -> T { say("  ran on %s with %s %lld", c ? c->getName().c_str() : "null", show(s).c_str(), (long long)x); return b(e); }); break;
            }
        }
        void hook() {
            auto c = r.pick(classes).get();
            bool st = r.chance(1, 2);
            auto n = r.pick(names);
            int args = r.below(3), t = r.below(10);
            say("hook %s %s %s/%d %c", c->getName().c_str(), n.c_str(), st ? "static" : "instance", args, types[t]);
            switch(types[t]) {
            case 'Z': hook<jboolean>(c, st, n, args); break;
            case 'B': hook<jbyte>(c, st, n, args); break;
            case 'C': hook<jchar>(c, st, n, args); break;
            case 'S': hook<jshort>(c, st, n, args); break;
            case 'I': hook<jint>(c, st, n, args); break;
            case 'J': hook<jlong>(c, st, n, args); break;
            case 'F': hook<jfloat>(c, st, n, args); break;
            case 'D': hook<jdouble>(c, st, n, args); break;
            case 'V': hook<void>(c, st, n, args); break;
            default: hook<std::shared_ptr<Object>>(c, st, n, args);
            }
        }
        void call() {
            if(methods.empty()) return;
            auto m = r.pick(methods);
            int how = m.second == 1 ? calls::STATIC : r.chance(1, 3) ? calls::NONVIRTUAL : calls::VIRTUAL;
            int form = r.below(3);
            auto o = object();
            auto c = how == calls::NONVIRTUAL && r.chance(1, 2) ? env->GetObjectClass(o) : clazz();
            auto id = r.chance(1, 20) ? nullptr : m.first;
            auto sig = id ? ((Method*)id)->signature : "()I";
            if(m.second == 2) {
                say("new %s", sig.c_str());
                jvalue v[3] = {};
                auto x = env->NewObjectA(clazz(), id, v);
                say("  %s", show(x).c_str());
                return;
            }
            if(how != calls::STATIC && r.chance(1, 20) && (!id || !((Method*)id)->nativehandle)) o = nullptr;
            jvalue v[3] = {};
            say("call %s in form %d of %s", calls_name(how), form, sig.c_str());
            auto s = r.chance(1, 4) ? nullptr : local(e, std::make_shared<String>("argument"));
            jlong x = (jlong)r.next();
            int args = sig[1] == ')' ? 0 : sig[1] == 'I' ? 1 : 2;
            if(args == 1) v[0].i = (jint)x;
            if(args == 2) { v[0].l = s; v[1].j = x; }
            auto go = [&](auto... a) {
                switch(sig[sig.find(')') + 1]) {
                case 'Z': say("  %d", calls::callBoolean(env, how, form, o, c, id, v, a...)); break;
                case 'B': say("  %d", calls::callByte(env, how, form, o, c, id, v, a...)); break;
                case 'C': say("  %d", calls::callChar(env, how, form, o, c, id, v, a...)); break;
                case 'S': say("  %d", calls::callShort(env, how, form, o, c, id, v, a...)); break;
                case 'I': say("  %d", calls::callInt(env, how, form, o, c, id, v, a...)); break;
                case 'J': say("  %lld", (long long)calls::callLong(env, how, form, o, c, id, v, a...)); break;
                case 'F': say("  %g", calls::callFloat(env, how, form, o, c, id, v, a...)); break;
                case 'D': say("  %g", calls::callDouble(env, how, form, o, c, id, v, a...)); break;
                case 'V': calls::callVoid(env, how, form, o, c, id, v, a...); break;
                default: say("  %s", show(calls::callObject(env, how, form, o, c, id, v, a...)).c_str());
                }
            };
            if(args == 0) go();
            else if(args == 1) go((jint)x);
            else go(s, x);
            vh::count("calls");
        }
        static const char* calls_name(int h) { return h == calls::STATIC ? "static" : h == calls::VIRTUAL ? "virtual" : "non-virtual"; }
        void access() {
            if(fields.empty()) return;
            auto f = r.pick(fields);
            auto id = r.chance(1, 20) ? nullptr : f.first;
            auto o = object();
            auto c = clazz();
            if(r.chance(1, 20) && (!id || !((Field*)id)->getnativehandle && !((Field*)id)->setnativehandle)) o = nullptr;
            bool set = r.chance(1, 2);
            auto t = id ? ((Field*)id)->type[0] : 'I';
            auto x = r.next();
            say("%s %s field %s", set ? "set" : "get", f.second ? "static" : "instance", id ? ((Field*)id)->type.c_str() : "null");
#define ACC(T, Ty, N, F, V) case T: if(set) f.second ? env->SetStatic##N##Field(c, id, V) : env->Set##N##Field(o, id, V); else say("  " F, f.second ? env->GetStatic##N##Field(c, id) : env->Get##N##Field(o, id)); break;
            switch(t) {
            ACC('Z', jboolean, Boolean, "%d", (jboolean)(x & 1)) ACC('B', jbyte, Byte, "%d", (jbyte)x) ACC('C', jchar, Char, "%d", (jchar)x) ACC('S', jshort, Short, "%d", (jshort)x)
            ACC('I', jint, Int, "%d", (jint)x) ACC('J', jlong, Long, "%lld", (jlong)x) ACC('F', jfloat, Float, "%g", (jfloat)(int)x) ACC('D', jdouble, Double, "%g", (jdouble)(int)x)
            default: {
                // text fields take strings, the others any object
                auto text = id && ((Field*)id)->type == "Ljava/lang/String;";
                auto v = x & 1 ? nullptr : text ? local(e, std::make_shared<String>("written")) : local(e, objs[6 + x % 3]);
                if(set) f.second ? env->SetStaticObjectField(c, id, v) : env->SetObjectField(o, id, v);
                else say("  %s", show(f.second ? env->GetStaticObjectField(c, id) : env->GetObjectField(o, id)).c_str());
            }
            }
#undef ACC
            vh::count("accesses");
        }
        static jint native(JNIEnv* env, jobject, jint x) {
            say("  native %d", x);
            return x * 3;
        }
        static jint native2(JNIEnv* env, jobject, jint x) {
            say("  second native %d", x);
            if(x % 4 == 0) env->ThrowNew(env->FindClass("java/lang/Throwable"), "by the native");
            return x * 5;
        }
        void natives() {
            auto c = r.pick(classes);
            auto jc = klass(e, c);
            if(r.chance(1, 5)) {
                // identifiers of natives are never handed out
                say("unregister natives of %s", c->getName().c_str());
                env->UnregisterNatives(jc);
                return;
            }
            JNINativeMethod nm[2];
            auto a = r.pick(names), b = r.pick(names);
            nm[0] = { (char*)a.c_str(), (char*)"(I)I", (void*)(r.chance(1, 2) ? native : native2) };
            nm[1] = { (char*)b.c_str(), (char*)"(I)I", (void*)(r.chance(1, 2) ? native : native2) };
            say("register natives %s %s of %s", a.c_str(), b.c_str(), c->getName().c_str());
            say("  %d", env->RegisterNatives(jc, nm, 1 + r.below(2)));
        }
        void invoke() {
            if(plain || env->ExceptionCheck()) return;
            auto c = r.pick(classes);
            auto n = r.pick(names);
            say("invoke %s of %s", n.c_str(), c->getName().c_str());
            auto m = c->getMethod("(I)I", n.c_str());
            auto x = (jint)r.below(100);
            try {
                jvalue v {};
                if(r.chance(1, 2)) v = m->invoke(*(JNIEnv*)env, c.get(), x);
                else v = m->invoke(*(JNIEnv*)env, deref(e, object()).get(), x);
                say("  %d", v.i);
            } catch(const std::exception& x) {
                say("  raised %s", x.what());
            } catch(int x) {
                say("  raised %d", x);
            }
            vh::count("invocations");
        }
        void strings() {
            int n = r.below(6);
            std::vector<jchar> u;
            for(int i = 0; i < n; ++i) u.push_back(r.chance(1, 2) ? 'a' + r.below(26) : r.chance(1, 4) ? '%' : r.below(0x10000));
            say("string of %d units", n);
            auto s = env->NewString(u.data(), n);
            say("  %d %d", env->GetStringLength(s), env->GetStringUTFLength(s));
            auto p = env->GetStringUTFChars(s, nullptr);
            for(auto q = p; *q; ++q) say("  %02x", (unsigned char)*q);
            env->ReleaseStringUTFChars(s, p);
            jchar buf[16] = {};
            jint at = (jint)r.below(9) - 1, len = (jint)r.below(9) - 1;
            env->GetStringRegion(s, at, len, buf);
            say("  region %d %d: %d %d %d, %d", at, len, buf[0], buf[1], buf[2], env->ExceptionCheck());
            char cb[64] = {};
            env->ExceptionClear();
            env->GetStringUTFRegion(s, at, len, cb);
            say("  %02x %02x %02x, %d", (unsigned char)cb[0], (unsigned char)cb[1], (unsigned char)cb[2], env->ExceptionCheck());
            env->ExceptionClear();
            vh::count("strings");
        }
        void arrays() {
            int n = r.below(6);
            if(r.chance(1, 2)) {
                auto a = env->NewIntArray(n);
                jint in[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }, out[8] = {};
                jint at = (jint)r.below(9) - 1, len = (jint)r.below(9) - 1;
                env->SetIntArrayRegion(a, at, len, in);
                say("ints %d: region %d %d: %s %d", n, at, len, show((jobject)a).c_str(), env->ExceptionCheck());
                env->ExceptionClear();
                env->GetIntArrayRegion(a, 0, n, out);
                jboolean copy = 9;
                auto p = env->GetIntArrayElements(a, &copy);
                for(int i = 0; i < n; ++i) say("  %d %d", out[i], p[i]);
                env->ReleaseIntArrayElements(a, p, r.below(3));
                if(r.chance(1, 4)) { refs.push_back(env->NewGlobalRef((jobject)a)); }
            } else {
                auto c = clazz();
                auto a = env->NewObjectArray(n, c, n && r.chance(1, 2) ? live() : nullptr);
                say("objects %d: %s, %d", n, show((jobject)a).c_str(), env->ExceptionCheck());
                env->ExceptionClear();
                for(int k = 0; a && k < 3; ++k) {
                    jint at = (jint)r.below(8) - 1;
                    if(r.chance(1, 2)) env->SetObjectArrayElement(a, at, anyref());
                    else say("  %s", show(env->GetObjectArrayElement(a, at)).c_str());
                    say("  %d: %d", at, env->ExceptionCheck());
                    env->ExceptionClear();
                }
                if(a) say("  %s", show((jobject)a).c_str());
            }
            vh::count("arrays");
        }
        void exceptions() {
            switch(r.below(5)) {
            case 0: say("throw new"); env->ThrowNew(env->FindClass("java/lang/Throwable"), "message %s"); break;
            case 1: say("throw"); env->Throw((jthrowable)local(e, std::make_shared<Throwable>())); break;
            case 2: say("describe"); env->ExceptionDescribe(); break;
            default: env->ExceptionClear(); say("clear");
            }
            say("  %s", show((jobject)env->ExceptionOccurred()).c_str());
        }
        void references() {
            switch(r.below(9)) {
            case 0: { auto o = anyref(); auto g = env->NewGlobalRef(o); say("global of %s: %d", show(o).c_str(), env->GetObjectRefType(g)); if(g) refs.push_back(g); break; }
            case 1: { auto o = anyref(); auto g = env->NewWeakGlobalRef(o); say("weak of %s: %d", show(o).c_str(), env->GetObjectRefType((jobject)g)); if(g) weaks.push_back((jobject)g); break; }
            case 2: if(refs.size()) { int k = r.below(refs.size()); say("delete global %s", show(refs[k]).c_str()); env->DeleteGlobalRef(refs[k]); refs.erase(refs.begin() + k); } break;
            case 3: if(weaks.size()) { int k = r.below(weaks.size()); say("delete weak %s", show(weaks[k]).c_str()); env->DeleteWeakGlobalRef((jweak)weaks[k]); weaks.erase(weaks.begin() + k); } break;
            case 4: { auto o = env->NewLocalRef(anyref()); say("local %s: %d", show(o).c_str(), env->GetObjectRefType(o)); if(r.chance(1, 2)) env->DeleteLocalRef(o); break; }
            case 5: { auto a = anyref(), b = anyref(); say("same %s %s: %d", show(a).c_str(), show(b).c_str(), env->IsSameObject(a, b)); break; }
            case 6: say("push"); env->PushLocalFrame(r.below(20)); ++frames; break;
            case 7: if(frames) { auto o = anyref(); say("pop with %s", show(o).c_str()); say("  %s", show(env->PopLocalFrame(o)).c_str()); --frames; } break;
            case 8: { auto n = (int)r.below(10); auto o = n < 9 ? objs[n] : nullptr; if(n == 9) { n = 6 + r.below(3); objs[n] = fresh(n); say("new object %d", n); } else say("monitor"), env->MonitorEnter(local(e, o)), env->MonitorExit(local(e, o)); }
            }
        }
        std::shared_ptr<Object> fresh(int k) {
            auto set = [&](auto o) -> std::shared_ptr<Object> { o->number = k; return o; };
            switch(k % 3) {
            case 0: return set(std::make_shared<A>());
            case 1: return set(std::make_shared<B>());
            default: return set(std::make_shared<C>());
            }
        }
        void hierarchy() {
            auto a = clazz(), b = clazz();
            auto o = live();
            say("assignable %s %s: %d", show((jobject)a).c_str(), show((jobject)b).c_str(), env->IsAssignableFrom(a, b));
            say("instance %s of %s: %d", show(o).c_str(), show((jobject)b).c_str(), env->IsInstanceOf(o, b));
            say("class %s, superclass %s", show((jobject)env->GetObjectClass(o)).c_str(), show((jobject)env->GetSuperclass(a)).c_str());
        }
        void lookups() {
            auto n = r.pick(names);
            auto c = clazz();
            if(r.chance(1, 20)) c = nullptr;
            auto cn = show((jobject)c);
            if(r.chance(1, 2)) {
                auto s = r.pick(msigs);
                int st = r.below(2);
                if(r.chance(1, 12)) { n = "<init>"; s = "()V"; st = 0; }
                auto id = st ? env->GetStaticMethodID(c, n.c_str(), s.c_str()) : env->GetMethodID(c, n.c_str(), s.c_str());
                say("method %s%s of %s: %s", n.c_str(), s.c_str(), cn.c_str(), c ? this->id(id).c_str() : id ? "some" : "null");
                if(!c) return; // belongs to the frame
                if(id) {
                    if(n == "<init>") { if(std::find(methods.begin(), methods.end(), std::make_pair(id, 2)) == methods.end()) methods.push_back({ id, 2 }); }
                    else methods.push_back({ id, st });
                    if(r.chance(1, 4) && c) {
                        auto o = env->ToReflectedMethod(c, id, r.below(2));
                        say("  reflected %s %d", show(o).c_str(), o && env->FromReflectedMethod(o) == id);
                    }
                }
            } else {
                auto s = r.pick(fsigs);
                int st = r.below(2);
                if(c) {
                    auto id = st ? env->GetStaticFieldID(c, n.c_str(), s.c_str()) : env->GetFieldID(c, n.c_str(), s.c_str());
                    say("field %s %s of %s: %s", n.c_str(), s.c_str(), cn.c_str(), this->id(id).c_str());
                    if(id) {
                        fields.push_back({ id, st });
                        auto o = env->ToReflectedField(c, id, r.below(2));
                        say("  reflected %s %d", show(o).c_str(), o && env->FromReflectedField(o) == id);
                    }
                }
            }
            vh::count("lookups");
        }
        void classlookup() {
            auto n = r.pick(cnames);
            auto c = env->FindClass(n.c_str());
            say("class %s: %s", n.c_str(), c ? show((jobject)c).c_str() : "null");
            auto p = std::dynamic_pointer_cast<Class>(deref(e, (jobject)c));
            if(p && n[0] != '[') made(p);
        }
        void member() {
            auto n = r.pick(names);
            switch(r.below(6)) {
            case 0: say("publish number as %s", n.c_str()); vmclass()->HookInstanceProperty(e, n, &A::number); break;
            case 1: say("publish wide as %s", n.c_str()); vmclass()->HookInstanceProperty(e, n, &A::wide); break;
            case 2: say("publish text as %s", n.c_str()); vmclass()->HookInstanceProperty(e, n, &A::text); break;
            case 3: say("publish held as %s", n.c_str()); vmclass()->HookInstanceProperty(e, n, &A::held); break;
            case 4: {
                int t = ++tags;
                say("publish getter %d as %s", t, n.c_str());
                r.pick(classes)->HookGetterFunction(e, n, [t](ENV*, Class*) -> jint { if(t % 5 == 0) throw std::runtime_error("getter"); return t; });
                break;
            }
            default: {
                say("publish setter as %s", n.c_str());
                r.pick(classes)->HookSetterFunction(e, n, [](ENV*, Class* c, jint x) { say("  set to %d", x); if(x % 5 == 0) throw std::runtime_error("setter"); });
            }
            }
        }
        Class* vmclass() { return classes[r.below(3)].get(); }
        void rules() {
            if(!baron) return;
            auto n = r.pick(names), c = r.pick(cnames);
            say("deny %s %s", n.c_str(), c.c_str());
            switch(r.below(3)) {
            case 0: baron->denyClass(c.c_str()); break;
            case 1: baron->denyMethod(n.c_str(), "", r.chance(1, 2) ? c.c_str() : ""); break;
            default: baron->denyField(n.c_str(), "", r.chance(1, 2) ? c.c_str() : "");
            }
        }
        void run(int steps) {
            int kind = r.below(4);
            if(kind < 2) {
                plain.reset(new VM(false, kind == 1));
                vm = plain.get();
            } else if(kind == 2) {
                fake.reset(new MyFake());
                vm = fake->vm();
            } else {
                baron.reset(new MyBaron());
                vm = baron->vm();
            }
            static const char* kinds[] = { "fabricating", "null", "FakeJni", "Baron" };
            say("machine %s", kinds[kind]);
            vh::count(std::string("machines: ") + kinds[kind]);
            e0 = e = vm->GetEnv().get();
            env = e->GetJNIEnv();
            w.run([&] { JNIEnv* x; vm->GetJavaVM()->AttachCurrentThread(&x, nullptr); e1 = ENV::FromJNIEnv(x); });
            names = { "f", "ff", "%s%n", "get%d", "x", "name with space" };
            cnames = { "c30/A", "c30/B", "c30/sub/C", "c30/NoDefault", "c30/%s%n", "Plain", "c30/Unknown", "java/lang/String", "java/lang/Object", "[I", "[Lc30/A;", "[[Lc30/B;", "not/there" };
            classes = { e->GetClass<A>("c30/A"), e->GetClass<B>("c30/B"), e->GetClass<C>("c30/sub/C"), e->GetClass<NoDefault>("c30/NoDefault"), e->GetClass("c30/%s%n"), e->GetClass("Plain") };
            for(auto t : { "Z", "B", "C", "S", "I", "J", "F", "D", "V", "Ljava/lang/Object;", "Lc30/A;", "Lc30/NoDefault;", "LPlain;", "[I", "[Lc30/A;", "[[J" }) {
                for(auto a : { "()", "(I)", "(Ljava/lang/Object;J)" }) msigs.push_back(a + std::string(t));
                if(*t != 'V') fsigs.push_back(t);
            }
            fsigs.push_back("Ljava/lang/String;");
            for(int k = 0; k < 3; ++k) { fsigs.push_back("I"); msigs.push_back("(I)I"); msigs.push_back("(I)Ljava/lang/Object;"); fsigs.push_back("J"); }
            for(int k = 0; k < 9; ++k) objs.push_back(fresh(k));
            for(int k = 0; k < steps; ++k) {
                bool second = !frames && r.chance(1, 6);
                auto one = [&] {
                    switch(r.below(24)) {
                    case 0: case 1: case 2: hook(); break;
                    case 3: case 4: case 5: case 6: lookups(); break;
                    case 7: case 8: case 9: case 10: case 11: call(); break;
                    case 12: case 13: access(); break;
                    case 14: natives(); break;
                    case 15: invoke(); break;
                    case 16: strings(); break;
                    case 17: arrays(); break;
                    case 18: exceptions(); break;
                    case 19: case 20: references(); break;
                    case 21: hierarchy(); break;
                    case 22: classlookup(); break;
                    default: r.chance(1, 3) ? rules() : member();
                    }
                    state();
                };
                vh::op("step %d", k);
                if(second) {
                    e = e1;
                    env = e->GetJNIEnv();
                    say("on another thread");
                    w.run(one);
                    e = e0;
                    env = e->GetJNIEnv();
                } else one();
                vh::count("steps");
            }
            while(frames) { env->PopLocalFrame(nullptr); --frames; }
            for(auto g : refs) env->DeleteGlobalRef(g);
            for(auto g : weaks) env->DeleteWeakGlobalRef((jweak)g);
            w.run([&] { vm->GetJavaVM()->DetachCurrentThread(); });
            e1 = nullptr;
            env->ExceptionClear();
            state();
            objs.clear();
            classes.clear();
            plain.reset();
            fake.reset();
            baron.reset();
            say("end: %zu alive", ledger()->living());
            REQ(ledger()->living() == 0, "C30:leak", "%zu objects outlive the machine", ledger()->living());
        }
    };
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C30");
    bool T = vh::S().thorough;
    vh::run_cases("programs", 0, T ? 40000 : 3200, [&](vh::Rng& r, long i) {
        new_ledger();
        vh::transcript().clear();
        {
            Run run(r);
            run.run(150 + r.below(250));
        }
        vh::distinct(vh::hash(vh::transcript()));
        vh::end_transcript();
    });
    return vh::finish();
}
