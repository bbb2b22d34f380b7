// C03: local, global and weak references to one object are interchangeable.
// Oracle: the outcome (results, visible state, pending exception) of every operation given only local references.
#include "jh.h"
#include "prim.h"
using namespace jh;
using namespace jnivm;

struct Base3 : Extends<Object> {
    jint tag = 0;
    jint who() { return 1000 + tag; }
};
struct Arg3 : Extends<Base3> {
    std::string seen;
    jboolean fz = 1; jbyte fb = 2; jchar fc = 3; jshort fs = 4; jint fi = 5; jlong fj = 6; jfloat ff = 7; jdouble fd = 8;
    std::shared_ptr<Object> fo;
    std::shared_ptr<String> fstr;
};
struct Other3 : Extends<Object> {};

// A fresh machine with one object of every sort, all built the same way for the same seed
struct Fix {
    jnivm::VM vm;
    JNIEnv* env;
    ENV* e;
    std::map<Object*, std::string> names;
    std::vector<std::shared_ptr<Object>> keep;
    std::map<std::string, jobject> obj; // local references by name
    std::string log; // what hooked functions saw
    uint64_t salt;

    template<class T> T* put(const std::string& n, std::shared_ptr<T> p) {
        obj[n] = local(e, p);
        names[(Object*)p.get()] = n;
        keep.push_back(p);
        return p.get();
    }
    void putref(const std::string& n, jobject r) {
        auto p = deref(e, r);
        names[p.get()] = n;
        keep.push_back(p);
        obj[n] = r;
    }
    std::string name(jobject o) {
        if(!o) return "null";
        auto p = deref(e, o);
        if(!p) return "dead";
        auto f = names.find(p.get());
        if(f != names.end()) return f->second;
        auto c = p->getClassInternal(e);
        std::string r = "new:" + (c ? c->getName() : std::string("?"));
        if(auto s = dynamic_cast<String*>(p.get())) r += "=" + *s;
        return r;
    }
    std::string name(const std::shared_ptr<Object>& p) { return p ? name((jobject)p.get()) : "null"; }

    explicit Fix(uint64_t seed) : salt(seed) {
        env = vm.GetJNIEnv();
        e = vm.GetEnv().get();
        auto cb = e->GetClass<Base3>("c03/Base");
        auto ca = e->GetClass<Arg3>("c03/Arg");
        auto co = e->GetClass<Other3>("c03/Other");
        put("class:Base", cb);
        put("class:Arg", ca);
        put("class:Other", co);
        put("class:Object", e->GetClass("java/lang/Object"));
        put("class:Throwable", e->GetClass("java/lang/Throwable"));
        auto a = put("arg", std::make_shared<Arg3>());
        put("arg2", std::make_shared<Arg3>());
        put("base", std::make_shared<Base3>());
        put("other", std::make_shared<Other3>());
        a->fi = (jint)(seed >> 7);
        a->tag = (jint)(seed & 0xff);
        put("string", std::make_shared<String>("text\xc3\xa9" + std::to_string(seed % 97)));
        put("string2", std::make_shared<String>("other"));
        auto t = std::make_shared<Throwable>();
        t->except = std::make_exception_ptr(std::runtime_error("msg"));
        put("throwable", t);
#define X(N, T, m, d) putref("array:" d, env->New##N##Array(4)); { T v[4] = { (T)(seed), (T)(seed >> 3), (T)1, (T)0 }; env->Set##N##ArrayRegion((T##Array)obj["array:" d], 0, 4, v); }
        PRIMS(X)
#undef X
        putref("objarray", env->NewObjectArray(3, (jclass)obj["class:Arg"], obj["arg"]));
        static char mem[64];
        putref("buffer", env->NewDirectByteBuffer(mem, 64));
        putref("method", env->ToReflectedMethod((jclass)obj["class:Arg"], env->GetMethodID((jclass)obj["class:Arg"], "unknown", "()V"), false));
        putref("field", env->ToReflectedField((jclass)obj["class:Arg"], env->GetFieldID((jclass)obj["class:Arg"], "unknownField", "I"), false));

        cb->HookInstanceFunction(e, "who", [this](ENV*, Object* o) { log += "who(" + name((jobject)o) + ")"; return (jint)77; });
        cb->HookInstanceFunction(e, "virt", [this](ENV*, Object* o) { log += "Base.virt(" + name((jobject)o) + ")"; return (jint)1; });
        ca->HookInstanceFunction(e, "virt", [this](ENV*, Object* o) { log += "Arg.virt(" + name((jobject)o) + ")"; return (jint)2; });
        cb->Hook(e, "member", &Base3::who);
        ca->HookInstanceFunction(e, "takes", [this](ENV*, Object* o, std::shared_ptr<Arg3> x, std::shared_ptr<Object> y, jint n, std::shared_ptr<String> s) -> std::shared_ptr<Object> {
            log += "takes(" + name((jobject)o) + "," + name(x) + "," + name(y) + "," + std::to_string(n) + "," + name(s) + ")";
            return y;
        });
        ca->Hook(e, "stakes", [this](ENV*, Class* c, std::shared_ptr<Arg3> x, jobject raw, std::shared_ptr<Class> k) -> std::shared_ptr<Object> {
            log += "stakes(" + name((jobject)(Object*)c) + "," + name(x) + "," + name(raw) + "," + name(k) + ")";
            return x;
        });
        ca->Hook(e, "takesptr", [this](ENV*, Class* c, Arg3* x, std::shared_ptr<impl::Array<jint>> arr) {
            log += "takesptr(" + name((jobject)(Object*)c) + "," + (x ? std::to_string(x->fi) : "null") + "," + (arr ? std::to_string((*arr)[0]) : "null") + ")";
            return (jlong)5;
        });
        ca->Hook(e, "<init>", [this](ENV*, Class* c, std::shared_ptr<Arg3> x) {
            log += "init(" + name((jobject)(Object*)c) + "," + name(x) + ")";
            auto r = std::make_shared<Arg3>();
            r->fi = 4242;
            return r;
        });
        ca->HookInstanceGetterFunction(e, "got", [this](ENV*, Object* o) { log += "got(" + name((jobject)o) + ")"; return (jint)3; });
        ca->HookInstanceSetterFunction(e, "got", [this](ENV*, Object* o, jint v) { log += "set(" + name((jobject)o) + "," + std::to_string(v) + ")"; });
        ca->HookGetterFunction(e, "sgot", [this](ENV*, Class* o) { log += "sgot(" + name((jobject)(Object*)o) + ")"; return (jint)4; });
        ca->HookSetterFunction(e, "sgot", [this](ENV*, Class* o, std::shared_ptr<Object> v) { log += "sset(" + name((jobject)(Object*)o) + "," + name(v) + ")"; });
#define X(N, T, m, d) ca->Hook(e, "f" #m, &Arg3::f##m);
        PRIMS(X)
#undef X
        ca->Hook(e, "fo", &Arg3::fo);
        ca->Hook(e, "fstr", &Arg3::fstr);
    }
    ~Fix() { env->ExceptionClear(); }
    // Everything observable about the machine which the operations could have changed
    std::string state() {
        std::string s = log + "|";
        for(auto n : { "arg", "arg2" }) {
            auto a = dynamic_cast<Arg3*>(raw(obj[n]));
            s += fmt("%d %d %d %d %d %lld %a %a ", a->fz, a->fb, a->fc, a->fs, a->fi, (long long)a->fj, a->ff, a->fd) + name(a->fo) + " " + name(a->fstr) + "|";
        }
        for(int i = 0; i < 3; ++i) s += name(env->GetObjectArrayElement((jobjectArray)obj["objarray"], i)) + ",";
#define X(N, T, m, d) { T v[4]; env->Get##N##ArrayRegion((T##Array)obj["array:" d], 0, 4, v); for(auto x : v) s += fmt("%a ", (double)x); }
        PRIMS(X)
#undef X
        auto t = env->ExceptionOccurred();
        s += "|exc=" + (t ? name((jobject)t) : std::string("none"));
        env->ExceptionClear();
        return s;
    }
};

using A = std::vector<jobject>;
struct Op {
    std::string name;
    std::vector<std::string> args; // names of the objects passed
    std::function<std::string(Fix&, const A&)> run;
};
static std::string num(long long v) { return std::to_string(v); }
static jclass K(jobject o) { return (jclass)o; }

static std::vector<Op> make_ops() {
    std::vector<Op> o;
    auto add = [&](std::string n, std::vector<std::string> a, std::function<std::string(Fix&, const A&)> f) { o.push_back({ n, a, f }); };
    std::vector<std::string> sorts = { "arg", "class:Arg", "string", "throwable", "array:I", "objarray", "buffer", "method", "field" };
    for(auto& s : sorts) {
        add("NewGlobalRef " + s, { s }, [](Fix& f, const A& a) { auto r = f.env->NewGlobalRef(a[0]); auto n = f.name(r) + num(f.env->GetObjectRefType(r)); f.env->DeleteGlobalRef(r); return n; });
        add("NewWeakGlobalRef " + s, { s }, [](Fix& f, const A& a) { auto r = f.env->NewWeakGlobalRef(a[0]); auto n = f.name((jobject)r) + num(f.env->GetObjectRefType((jobject)r)); f.env->DeleteWeakGlobalRef(r); return n; });
        add("NewLocalRef " + s, { s }, [](Fix& f, const A& a) { auto r = f.env->NewLocalRef(a[0]); auto n = f.name(r) + num(f.env->GetObjectRefType(r)); f.env->DeleteLocalRef(r); return n; });
        add("PopLocalFrame " + s, { s }, [](Fix& f, const A& a) { f.env->PushLocalFrame(3); auto r = f.env->PopLocalFrame(a[0]); return f.name(r) + num(f.env->GetObjectRefType(r)); });
        add("GetObjectClass " + s, { s }, [](Fix& f, const A& a) { return f.name((jobject)f.env->GetObjectClass(a[0])); });
        add("IsSameObject " + s, { s, s }, [](Fix& f, const A& a) { return num(f.env->IsSameObject(a[0], a[1])); });
        add("IsSameObject other " + s, { s, "arg2" }, [](Fix& f, const A& a) { return num(f.env->IsSameObject(a[0], a[1])) + num(f.env->IsSameObject(a[0], nullptr)) + num(f.env->IsSameObject(nullptr, a[1])); });
        add("IsInstanceOf " + s, { s, "class:Base" }, [](Fix& f, const A& a) { return num(f.env->IsInstanceOf(a[0], K(a[1]))); });
        add("Monitor " + s, { s, s }, [](Fix& f, const A& a) { auto r = num(f.env->MonitorEnter(a[0])) + num(f.env->MonitorEnter(a[1])); r += num(f.env->MonitorExit(a[0])) + num(f.env->MonitorExit(a[1])); return r; });
        add("FromReflected " + s, { s }, [](Fix& f, const A& a) {
            auto m = f.env->FromReflectedMethod(a[0]); auto fi = f.env->FromReflectedField(a[0]);
            return num(m == (jmethodID)dynamic_cast<Method*>(raw(f.obj["method"]))) + num(m == 0) + num(fi == (jfieldID)dynamic_cast<Field*>(raw(f.obj["field"]))) + num(fi == 0); });
        add("array store " + s, { "objarray", s }, [](Fix& f, const A& a) { f.env->SetObjectArrayElement((jobjectArray)a[0], 1, a[1]); return std::string(); });
        add("fo field " + s, { "class:Arg", "arg", s }, [](Fix& f, const A& a) {
            auto id = f.env->GetFieldID(K(a[0]), "fo", "Ljava/lang/Object;"); f.env->SetObjectField(a[1], id, a[2]);
            return f.name(f.env->GetObjectField(a[1], id)); });
        add("takes any " + s, { "class:Arg", "arg", s }, [](Fix& f, const A& a) {
            auto id = f.env->GetMethodID(K(a[0]), "takes", "(Lc03/Arg;Ljava/lang/Object;ILjava/lang/String;)Ljava/lang/Object;");
            return f.name(f.env->CallObjectMethod(a[1], id, (jobject)0, a[2], (jint)9, (jobject)0)); });
    }
    add("GetSuperclass", { "class:Arg" }, [](Fix& f, const A& a) { return f.name((jobject)f.env->GetSuperclass(K(a[0]))); });
    for(auto& s : { "class:Base", "class:Arg", "class:Other", "class:Object" })
        add(std::string("IsAssignableFrom ") + s, { "class:Arg", s }, [](Fix& f, const A& a) { return num(f.env->IsAssignableFrom(K(a[0]), K(a[1]))) + num(f.env->IsAssignableFrom(K(a[1]), K(a[0]))); });
    auto idname = [](jmethodID m) { return m ? ((Method*)m)->name + ((Method*)m)->signature : std::string("null"); };
    add("lookups", { "class:Arg" }, [idname](Fix& f, const A& a) {
        auto l = K(f.obj["class:Arg"]), c = K(a[0]);
        auto e = f.env;
        return num(e->GetMethodID(c, "virt", "()I") == e->GetMethodID(l, "virt", "()I")) + num(e->GetMethodID(c, "nope", "()I") == e->GetMethodID(l, "nope", "()I")) + num(e->GetMethodID(c, "virt", "()I") != nullptr) +
            num(e->GetStaticMethodID(c, "takesptr", "(Lc03/Arg;[I)J") == e->GetStaticMethodID(l, "takesptr", "(Lc03/Arg;[I)J")) + num(e->GetStaticMethodID(c, "takesptr", "(Lc03/Arg;[I)J") != nullptr) +
            num(e->GetFieldID(c, "fi", "I") == e->GetFieldID(l, "fi", "I")) + num(e->GetFieldID(c, "newf", "I") == e->GetFieldID(l, "newf", "I")) + num(e->GetStaticFieldID(c, "sgot", "I") == e->GetStaticFieldID(l, "sgot", "I")) +
            num(e->GetMethodID(c, "<init>", "(Lc03/Arg;)V") == e->GetMethodID(l, "<init>", "(Lc03/Arg;)V"));
    });
    for(auto w : { "who", "virt", "member" }) {
        std::string n = w;
        for(auto& s : { "arg", "base" })
            add("Call " + n + " " + s, { "class:Base", s }, [n](Fix& f, const A& a) { auto id = f.env->GetMethodID(K(a[0]), n.c_str(), "()I"); jvalue v; v.i = 0; return num(f.env->CallIntMethod(a[1], id)) + num(f.env->CallIntMethodA(a[1], id, &v)); });
        if(n != "member")
            add("CallNonvirtual " + n, { "class:Base", "arg" }, [n](Fix& f, const A& a) { auto id = f.env->GetMethodID(K(a[0]), n.c_str(), "()I"); jvalue v; v.i = 0; return num(f.env->CallNonvirtualIntMethod(a[1], K(a[0]), id)) + num(f.env->CallNonvirtualIntMethodA(a[1], K(a[0]), id, &v)); });
    }
    add("takes", { "arg", "arg2", "other", "string" }, [](Fix& f, const A& a) {
        auto id = f.env->GetMethodID(K(f.obj["class:Arg"]), "takes", "(Lc03/Arg;Ljava/lang/Object;ILjava/lang/String;)Ljava/lang/Object;");
        return f.name(f.env->CallObjectMethod(a[0], id, a[1], a[2], (jint)9, a[3])); });
    add("takes A", { "arg", "arg2", "other", "string" }, [](Fix& f, const A& a) {
        auto id = f.env->GetMethodID(K(f.obj["class:Arg"]), "takes", "(Lc03/Arg;Ljava/lang/Object;ILjava/lang/String;)Ljava/lang/Object;");
        jvalue v[4]; v[0].l = a[1]; v[1].l = a[2]; v[2].i = 10; v[3].l = a[3];
        return f.name(f.env->CallNonvirtualObjectMethodA(a[0], K(f.obj["class:Arg"]), id, v)); });
    add("stakes", { "class:Arg", "arg2", "other", "class:Base" }, [](Fix& f, const A& a) {
        auto id = f.env->GetStaticMethodID(K(a[0]), "stakes", "(Lc03/Arg;Ljava/lang/Object;Ljava/lang/Class;)Ljava/lang/Object;");
        return f.name(f.env->CallStaticObjectMethod(K(a[0]), id, a[1], a[2], a[3])); });
    add("takesptr", { "class:Arg", "arg2", "array:I" }, [](Fix& f, const A& a) {
        auto id = f.env->GetStaticMethodID(K(a[0]), "takesptr", "(Lc03/Arg;[I)J");
        return num(f.env->CallStaticLongMethod(K(a[0]), id, a[1], a[2])); });
    add("NewObject", { "class:Arg", "arg2" }, [](Fix& f, const A& a) {
        auto id = f.env->GetMethodID(K(a[0]), "<init>", "(Lc03/Arg;)V");
        auto r = f.env->NewObject(K(a[0]), id, a[1]);
        auto p = dynamic_cast<Arg3*>(raw(r));
        return f.name(r) + (p ? num(p->fi) : "none"); });
    add("wrong class argument", { "arg", "base" }, [](Fix& f, const A& a) {
        auto id = f.env->GetMethodID(K(f.obj["class:Arg"]), "takes", "(Lc03/Arg;Ljava/lang/Object;ILjava/lang/String;)Ljava/lang/Object;");
        auto r = f.env->CallObjectMethod(a[0], id, a[1], (jobject)0, (jint)9, (jobject)0);
        auto s = f.name(r) + num(f.env->ExceptionCheck());
        f.env->ExceptionClear();
        return s; });
#define X(N, T, m, d) \
    add("field " #N, { "class:Arg", "arg" }, [](Fix& f, const A& a) { auto id = f.env->GetFieldID(K(a[0]), "f" #m, d); auto r = fmt("%a ", (double)f.env->Get##N##Field(a[1], id)); \
        f.env->Set##N##Field(a[1], id, (T)(f.salt >> 5)); return r + fmt("%a", (double)f.env->Get##N##Field(a[1], id)); }); \
    add("static " #N " default", { "class:Arg" }, [](Fix& f, const A& a) { auto id = f.env->GetStaticFieldID(K(a[0]), "un" #m, d); f.env->SetStatic##N##Field(K(a[0]), id, (T)1); auto me = f.env->GetStaticMethodID(K(a[0]), "un" #m, "()" d); \
        return fmt("%a %a", (double)f.env->GetStatic##N##Field(K(a[0]), id), (double)f.env->CallStatic##N##Method(K(a[0]), me)); }); \
    add("method " #N " default", { "class:Arg", "arg" }, [](Fix& f, const A& a) { auto me = f.env->GetMethodID(K(a[0]), "un" #m, "()" d); \
        return fmt("%a %a", (double)f.env->Call##N##Method(a[1], me), (double)f.env->CallNonvirtual##N##Method(a[1], K(a[0]), me)); }); \
    add("array " #N, { "array:" d }, [](Fix& f, const A& a) { auto ar = (T##Array)a[0]; jboolean cp = 1; T* p = f.env->Get##N##ArrayElements(ar, &cp); auto r = fmt("%d %a ", (int)f.env->GetArrayLength(ar), (double)p[1]); \
        p[2] = (T)9; T v[2] = { (T)7, (T)8 }; f.env->Set##N##ArrayRegion(ar, 0, 2, v); T w[4]; f.env->Get##N##ArrayRegion(ar, 0, 4, w); for(auto x : w) r += fmt("%a ", (double)x); \
        r += num(f.env->GetPrimitiveArrayCritical(ar, &cp) == p); f.env->ReleasePrimitiveArrayCritical(ar, p, 0); f.env->Release##N##ArrayElements(ar, p, 0); \
        f.env->Get##N##ArrayRegion(ar, 2, 5, w); r += num(f.env->ExceptionCheck()); f.env->ExceptionClear(); return r; });
    PRIMS(X)
#undef X
    add("field got", { "class:Arg", "arg" }, [](Fix& f, const A& a) { auto id = f.env->GetFieldID(K(a[0]), "got", "I"); f.env->SetIntField(a[1], id, 5); return num(f.env->GetIntField(a[1], id)); });
    add("field sgot", { "class:Arg", "arg" }, [](Fix& f, const A& a) { auto id = f.env->GetStaticFieldID(K(a[0]), "sgot", "Ljava/lang/Object;"); f.env->SetStaticObjectField(K(a[0]), id, a[1]); return num(f.env->GetStaticIntField(K(a[0]), f.env->GetStaticFieldID(K(a[0]), "sgot", "I"))); });
    add("field fstr", { "class:Arg", "arg", "string" }, [](Fix& f, const A& a) { auto id = f.env->GetFieldID(K(a[0]), "fstr", "Ljava/lang/String;"); f.env->SetObjectField(a[1], id, a[2]); return f.name(f.env->GetObjectField(a[1], id)); });
    add("string", { "string" }, [](Fix& f, const A& a) {
        auto s = (jstring)a[0];
        int n = f.env->GetStringLength(s), u = f.env->GetStringUTFLength(s);
        std::string r = num(n) + " " + num(u) + " " + f.env->GetStringUTFChars(s, nullptr);
        auto c = f.env->GetStringChars(s, nullptr);
        for(int i = 0; i < n; ++i) r += fmt(" %x", c[i]);
        f.env->ReleaseStringChars(s, c);
        std::vector<jchar> b(n);
        f.env->GetStringRegion(s, 1, n - 1, b.data());
        r += fmt(" %x", b[0]);
        char ub[64];
        f.env->GetStringUTFRegion(s, 2, n - 2, ub);
        r += ub;
        f.env->GetStringRegion(s, 1, n, b.data());
        r += num(f.env->ExceptionCheck());
        f.env->ExceptionClear();
        return r; });
    add("NewObjectArray", { "class:Arg", "arg" }, [](Fix& f, const A& a) {
        auto r = f.env->NewObjectArray(3, K(a[0]), a[1]);
        return f.name((jobject)r) + num(f.env->GetArrayLength(r)) + f.name(f.env->GetObjectArrayElement(r, 0)) + f.name(f.env->GetObjectArrayElement(r, 2)); });
    add("object array", { "objarray", "arg2" }, [](Fix& f, const A& a) {
        auto r = (jobjectArray)a[0];
        f.env->SetObjectArrayElement(r, 1, a[1]);
        f.env->SetObjectArrayElement(r, 2, nullptr);
        return num(f.env->GetArrayLength(r)) + f.name(f.env->GetObjectArrayElement(r, 0)) + f.name(f.env->GetObjectArrayElement(r, 1)) + f.name(f.env->GetObjectArrayElement(r, 2)); });
    add("Throw", { "throwable" }, [](Fix& f, const A& a) { return num(f.env->Throw((jthrowable)a[0])) + num(f.env->ExceptionCheck()) + f.name((jobject)f.env->ExceptionOccurred()); });
    add("ThrowNew", { "class:Throwable" }, [](Fix& f, const A& a) { auto r = num(f.env->ThrowNew(K(a[0]), "hello")); auto t = f.env->ExceptionOccurred(); r += f.name((jobject)f.env->GetObjectClass((jobject)t)); f.env->ExceptionClear(); return r; });
    add("RegisterNatives", { "class:Arg" }, [](Fix& f, const A& a) {
        JNINativeMethod m[] = { { (char*)"nat", (char*)"()V", (void*)+[](JNIEnv*, jclass) {} } };
        f.env->RegisterNatives(K(a[0]), m, 1);
        auto c = dynamic_cast<Class*>(raw(f.obj["class:Arg"]));
        auto r = num(c->natives.size());
        f.env->UnregisterNatives(K(a[0]));
        return r + num(c->natives.size()); });
    add("buffer", { "buffer" }, [](Fix& f, const A& a) { return fmt("%p %lld", f.env->GetDirectBufferAddress(a[0]), (long long)f.env->GetDirectBufferCapacity(a[0])); });
    add("ToReflected", { "class:Arg" }, [](Fix& f, const A& a) {
        auto l = K(f.obj["class:Arg"]);
        auto m = f.env->GetMethodID(l, "virt", "()I");
        auto fi = f.env->GetFieldID(l, "fi", "I");
        auto r = f.env->ToReflectedMethod(K(a[0]), m, false);
        auto q = f.env->ToReflectedField(K(a[0]), fi, false);
        return num(f.env->FromReflectedMethod(r) == m) + num(f.env->FromReflectedField(q) == fi) + num(f.env->ToReflectedMethod(K(a[0]), m, true) == 0) + f.name(r) + f.name(q); });
    return o;
}

int main(int argc, char** argv) {
    vh::init(argc, argv, "C03");
    bool T = vh::S().thorough;
    auto ops = make_ops();
    int rounds = T ? 6 : 1;
    vh::run_cases("operations x kinds", 0, (long)ops.size() * rounds, [&](vh::Rng& r, long i) {
        auto& op = ops[i % ops.size()];
        uint64_t salt = r.next();
        vh::op("%s", op.name.c_str());
        std::string want;
        {
            Fix f(salt);
            A a;
            for(auto& n : op.args) a.push_back(f.obj[n]);
            want = op.run(f, a);
            want += "#" + f.state();
        }
        // every kind at every position, and combinations
        std::vector<std::vector<int>> combos;
        size_t n = op.args.size();
        if(n == 1) for(int k = 0; k < RKINDS; ++k) combos.push_back({ k });
        else if(n == 2) for(int k = 0; k < RKINDS; ++k) for(int j = 0; j < RKINDS; ++j) combos.push_back({ k, j });
        else {
            for(size_t p = 0; p < n; ++p) for(int k = 1; k < RKINDS; ++k) {
                std::vector<int> c(n, 0);
                c[p] = k;
                combos.push_back(c);
            }
            for(int q = 0; q < (T ? 300 : 30); ++q) {
                std::vector<int> c(n);
                for(auto& x : c) x = r.below(RKINDS);
                combos.push_back(c);
            }
        }
        for(auto& c : combos) {
            std::string d;
            for(auto k : c) d += std::string(" ") + kind_name(k);
            vh::op("kinds%s", d.c_str());
            Fix f(salt);
            Refs refs(f.env);
            A a;
            for(size_t p = 0; p < n; ++p) a.push_back(refs.make(f.obj[op.args[p]], c[p]));
            auto got = op.run(f, a);
            got += "#" + f.state();
            refs.release();
            std::string key = "C03:" + op.name;
            for(auto& ch : key) if(ch == ' ') ch = '-';
            REQ(got == want, key, "%s with%s references: %s, with local ones: %s", op.name.c_str(), d.c_str(), got.c_str(), want.c_str());
            vh::count("comparisons");
            vh::distinct(vh::hash(op.name + d));
        }
    });
    // Identity and kinds: random populations of objects and references, all pairs compared
    vh::run_cases("identity and kind", 100000, T ? 400 : 60, [&](vh::Rng& r, long) {
        jnivm::VM vm;
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        e->GetClass<Base3>("c03/Base");
        struct R { jobject ref; int obj; int kind; };
        std::vector<std::shared_ptr<Object>> objs;
        std::vector<R> rs;
        Refs refs(env);
        int n = 1 + r.below(5);
        for(int i = 0; i < n; ++i) {
            std::shared_ptr<Object> p;
            switch(r.below(4)) {
            case 0: p = std::make_shared<Base3>(); break;
            case 1: p = std::make_shared<String>("same text"); break;
            case 2: p = std::make_shared<impl::Array<jint>>(2); break;
            default: p = e->GetClass(fmt("c03/K%d", i).c_str()); break;
            }
            objs.push_back(p);
        }
        rs.push_back({ nullptr, -1, -1 });
        int m = 4 + r.below(20);
        env->PushLocalFrame(0);
        for(int i = 0; i < m; ++i) {
            int o = r.below(n), k = r.below(RKINDS);
            rs.push_back({ refs.make(local(e, objs[o]), k), o, k });
        }
        auto compare = [&](const char* when) {
            for(auto& a : rs) {
                for(auto& b : rs) {
                    bool want = a.obj == b.obj;
                    REQ((bool)env->IsSameObject(a.ref, b.ref) == want, "C03:IsSameObject", "%s: %s of %d and %s of %d", when, a.kind < 0 ? "null" : kind_name(a.kind), a.obj, b.kind < 0 ? "null" : kind_name(b.kind), b.obj);
                    vh::count("pairs");
                }
                static const jobjectRefType want[] = { JNILocalRefType, JNIGlobalRefType, JNIWeakGlobalRefType, JNIGlobalRefType, JNIGlobalRefType, JNIWeakGlobalRefType, JNIWeakGlobalRefType };
                REQ(env->GetObjectRefType(a.ref) == (a.kind < 0 ? JNIInvalidRefType : want[a.kind]), "C03:GetObjectRefType", "%s: %s", when, a.kind < 0 ? "null" : kind_name(a.kind));
            }
        };
        compare("alive");
        // Kill some: drop the test's pointer, the local references and the globals of those objects
        std::vector<bool> kill(n);
        for(int i = 0; i < n; ++i) kill[i] = r.chance(1, 2);
        std::vector<R> left;
        // intermediate globals hold the objects too, so release those of killed objects
        auto isweak = [](int k) { return k == RWeak || k == RWeakOfGlobal || k == RWeakOfWeak; };
        std::vector<jobject> gl;
        for(auto g : refs.globals) {
            auto p = deref(e, g);
            bool k = false;
            for(int i = 0; i < n; ++i) k |= kill[i] && objs[i] == p;
            if(k) env->DeleteGlobalRef(g);
            else gl.push_back(g);
        }
        refs.globals = gl;
        for(auto& x : rs) if(x.obj < 0 || (!kill[x.obj] ? x.kind != RLocal : isweak(x.kind))) left.push_back(x);
        std::vector<std::weak_ptr<Object>> w;
        for(int i = 0; i < n; ++i) {
            w.push_back(objs[i]);
            if(kill[i]) objs[i] = nullptr;
        }
        env->PopLocalFrame(nullptr);
        for(auto& x : left) if(x.obj >= 0 && kill[x.obj] && w[x.obj].expired()) {
            x.obj = -1; // denotes null now, but keeps its kind
            vh::count("dead-weak");
            REQ(env->NewGlobalRef(x.ref) == nullptr && env->NewLocalRef(x.ref) == nullptr && env->NewWeakGlobalRef(x.ref) == nullptr, "C03:dead-weak-reference", "new reference of a dead weak reference is not null");
            auto arr = env->NewObjectArray(1, klass(e, e->GetClass("java/lang/Object")), nullptr);
            env->SetObjectArrayElement(arr, 0, x.ref);
            REQ(env->GetObjectArrayElement(arr, 0) == nullptr, "C03:dead-weak-reference", "array element");
        }
        rs = left;
        compare("after deaths");
        vh::distinct(vh::mix(n, r.s));
        refs.release();
    });
    // References made from references: each new one from any earlier one, any of which may be deleted since
    vh::run_cases("references from references", 200000, T ? 1000 : 120, [&](vh::Rng& r, long) {
        jnivm::VM vm;
        auto env = vm.GetJNIEnv();
        auto e = vm.GetEnv().get();
        struct R { jobject ref; int obj; int kind; };
        int n = 1 + r.below(3);
        std::vector<std::shared_ptr<Object>> objs;
        std::vector<R> rs;
        env->PushLocalFrame(r.below(4));
        for(int i = 0; i < n; ++i) {
            objs.push_back(r.chance(1, 3) ? std::static_pointer_cast<Object>(e->GetClass(fmt("c03/K%d", i).c_str())) : std::make_shared<Base3>());
            rs.push_back({ local(e, objs[i]), i, 0 });
        }
        auto drop = [&](const R& x) {
            if(x.kind == 0) env->DeleteLocalRef(x.ref);
            else if(x.kind == 1) env->DeleteGlobalRef(x.ref);
            else env->DeleteWeakGlobalRef((jweak)x.ref);
        };
        // A local or a strong global may be the object's own address: those are told apart by kind, not by address
        int steps = 10 + r.below(40);
        for(int s = 0; s < steps; ++s) {
            if(rs.size() > 2 && r.chance(2, 5)) {
                size_t i = r.below(rs.size());
                if(rs[i].kind != 0) { // locals go with the frame
                    vh::op("delete #%zu (kind %d of %d)", i, rs[i].kind, rs[i].obj);
                    drop(rs[i]);
                    rs.erase(rs.begin() + i);
                    vh::count("deleted");
                }
            } else {
                auto from = rs[r.below(rs.size())];
                int k = 1 + r.below(3);
                jobject x = k == 3 ? env->NewLocalRef(from.ref) : k == 1 ? env->NewGlobalRef(from.ref) : (jobject)env->NewWeakGlobalRef(from.ref);
                if(k == 3) k = 0;
                vh::op("kind %d from kind %d of %d", k, from.kind, from.obj);
                REQ(x, "C03:reference-from-reference", "null made from a living reference of kind %d", from.kind);
                rs.push_back({ x, from.obj, k });
                vh::distinct(vh::mix(vh::mix(from.kind, k), rs.size()));
            }
            auto& a = rs[r.below(rs.size())];
            for(auto& b : rs) {
                REQ((bool)env->IsSameObject(a.ref, b.ref) == (a.obj == b.obj), "C03:IsSameObject", "kind %d of %d and kind %d of %d", a.kind, a.obj, b.kind, b.obj);
                static const jobjectRefType want[] = { JNILocalRefType, JNIGlobalRefType, JNIWeakGlobalRefType };
                REQ(env->GetObjectRefType(b.ref) == want[b.kind], "C03:GetObjectRefType", "kind %d", b.kind);
                REQ(deref(e, b.ref) == objs[b.obj], "C03:identity", "kind %d denotes another object", b.kind);
                vh::count("chain pairs");
            }
        }
        for(auto& x : rs) if(x.kind) drop(x);
        env->PopLocalFrame(nullptr);
    });
    return vh::finish();
}
