// Signatures drawn at compile time: parameter and result types of function N are a hash of N, so each one can be hooked,
// looked up under the descriptor an independent table predicts, and called through every call form.
#pragma once
#include "jh.h"
#ifndef GRAPH_SALT
#define GRAPH_SALT 1
#endif
namespace sig {
using namespace jh;
using namespace jnivm;

struct Foo : Object {
    jint payload = 0;
    // a member function of any signature: function N
    template<class Ret, int N, class... A> Ret member(ENV* e, A... a);
};
using AI = Array<jint>;
using AJ = Array<jlong>;
using AS = Array<String>;
using AAI = Array<Array<jint>>;
using AF = Array<Foo>;

enum { TZ, TB, TC, TS, TI, TJ, TF, TD, TBool, TJobject, TObject, TString, TFoo, TFooPtr, TFooRef, TFooVal, TAI, TAJ, TAS, TAAI, TAF, TClass, TJclass, TThrowable, NTYPES, TV };
template<int K> struct Ty;
#define TY(K, T) template<> struct Ty<K> { using type = T; };
TY(TZ, jboolean) TY(TB, jbyte) TY(TC, jchar) TY(TS, jshort) TY(TI, jint) TY(TJ, jlong) TY(TF, jfloat) TY(TD, jdouble) TY(TBool, bool)
TY(TJobject, jobject) TY(TObject, std::shared_ptr<Object>) TY(TString, std::shared_ptr<String>) TY(TFoo, std::shared_ptr<Foo>)
TY(TFooPtr, Foo*) TY(TFooRef, Foo&) TY(TFooVal, Foo) TY(TAI, std::shared_ptr<AI>) TY(TAJ, std::shared_ptr<AJ>) TY(TAS, std::shared_ptr<AS>)
TY(TAAI, std::shared_ptr<AAI>) TY(TAF, std::shared_ptr<AF>) TY(TClass, std::shared_ptr<Class>) TY(TJclass, jclass) TY(TThrowable, std::shared_ptr<Throwable>)
template<> struct Ty<TV> { using type = void; };
#undef TY

// The descriptor each type denotes; foo is the name Foo is registered under
inline std::string desc(int k, const std::string& foo) {
    switch(k) {
    case TZ: case TBool: return "Z";
    case TB: return "B";
    case TC: return "C";
    case TS: return "S";
    case TI: return "I";
    case TJ: return "J";
    case TF: return "F";
    case TD: return "D";
    case TV: return "V";
    case TJobject: case TObject: return "Ljava/lang/Object;";
    case TString: return "Ljava/lang/String;";
    case TFoo: case TFooPtr: case TFooRef: case TFooVal: return "L" + foo + ";";
    case TAI: return "[I";
    case TAJ: return "[J";
    case TAS: return "[Ljava/lang/String;";
    case TAAI: return "[[I";
    case TAF: return "[L" + foo + ";";
    case TClass: case TJclass: return "Ljava/lang/Class;";
    case TThrowable: return "Ljava/lang/Throwable;";
    }
    return "?";
}
constexpr bool is_ref(int k) { return k >= TJobject && k < NTYPES; }

constexpr uint64_t mixs(uint64_t a) {
    a += 0x9e3779b97f4a7c15ULL;
    a = (a ^ (a >> 30)) * 0xbf58476d1ce4e5b9ULL;
    a = (a ^ (a >> 27)) * 0x94d049bb133111ebULL;
    return a ^ (a >> 31);
}
constexpr uint64_t hs(int n, int i) { return mixs(GRAPH_SALT * 7919ULL + n * 1000003ULL + i * 31ULL) >> 7; }
// Every type occurs in every position over the functions; longer lists spill to the stack in variadic calls
constexpr int arity(int n) { return n % 16 == 15 ? 17 + hs(n, 100) % 60 : n % 8 == 7 ? 9 + hs(n, 100) % 8 : hs(n, 100) % 7; }
constexpr int ptype(int n, int i) {
    return hs(n, i) % 5 < 3 ? (hs(n, i) / 5) % 9 : (hs(n, i) / 5) % NTYPES;
}
constexpr int rtype(int n) {
    // results: no raw pointers or references
    constexpr int ok[] = { TZ, TB, TC, TS, TI, TJ, TF, TD, TBool, TJobject, TObject, TString, TFoo, TFooVal, TAI, TAJ, TAS, TAAI, TAF, TClass, TThrowable, TV, TV };
    return ok[(n + hs(n, 200) % 3) % (sizeof ok / sizeof *ok)];
}
template<int N, int I> using P = typename Ty<ptype(N, I)>::type;
template<int N> using R = typename Ty<rtype(N)>::type;

// Representation of a value of any type as bits: references are the address of the object they denote
struct Call {
    std::vector<uint64_t> got; // what the hook saw
    uint64_t self = 0;
    ENV* env = nullptr;
    int calls = 0;
    int fn = -1;
    // planned result
    uint64_t ret = 0;
    std::shared_ptr<Object> retobj;
    std::function<void(ENV*)> inside; // runs in the hook before anything is recorded
    ENV* jenv = nullptr;
};
inline Call*& current() {
    static thread_local Call* c = nullptr;
    return c;
}
template<class T> uint64_t bits(const T& v) {
    uint64_t b = 0;
    memcpy(&b, &v, sizeof v);
    return b;
}
template<class T> uint64_t bits(ENV*, const std::shared_ptr<T>& p) { return (uint64_t)(uintptr_t)std::shared_ptr<Object>(p).get(); }
inline uint64_t bits(ENV*, Foo& f) { return (uint64_t)(uintptr_t)(Object*)&f; }
inline uint64_t bits(ENV*, Foo* f) { return (uint64_t)(uintptr_t)(Object*)f; }
inline uint64_t bits(ENV* e, jobject o) { return (uint64_t)(uintptr_t)deref(e, o).get(); }
inline uint64_t bits(ENV* e, jclass o) { return (uint64_t)(uintptr_t)deref(e, (jobject)o).get(); }
template<class T> std::enable_if_t<std::is_arithmetic<T>::value, uint64_t> bits(ENV*, T v) {
    if(std::is_same<T, bool>::value) return v ? 1 : 0;
    return bits(v);
}
// A copy is known by its payload
template<int K> uint64_t seen(ENV* e, typename Ty<K>::type& v) {
    if constexpr(K == TFooVal) return 0xf000000000000000ULL | (uint32_t)v.payload;
    else return bits(e, v);
}

template<int K> typename Ty<K>::type result(ENV* e, Call& c) {
    using T = typename Ty<K>::type;
    if constexpr(K == TV) return;
    else if constexpr(K == TBool) return c.ret != 0;
    else if constexpr(K < TBool) {
        T v;
        memcpy(&v, &c.ret, sizeof v);
        return v;
    } else if constexpr(K == TJobject) return c.retobj ? local(e, c.retobj) : nullptr;
    else if constexpr(K == TFooVal) {
        Foo f;
        f.payload = (jint)c.ret;
        return f;
    } else return std::dynamic_pointer_cast<typename T::element_type>(c.retobj);
}
template<int N, int... I> R<N> body(ENV* e, uint64_t self, P<N, I>... p) {
    auto c = current();
    if(c->inside) {
        auto f = std::move(c->inside);
        c->inside = nullptr;
        f(e);
    }
    c->calls++;
    c->fn = N;
    c->env = e;
    c->self = self;
    c->got = { seen<ptype(N, I)>(e, p)... };
    return result<rtype(N)>(e, *c);
}

template<int N, class Seq> struct Hooks;
inline uint64_t addr(Object* o) { return (uint64_t)(uintptr_t)o; }
inline uint64_t addr(Class* o) { return (uint64_t)(uintptr_t)(Object*)o; }
template<int N, int... I> struct Hooks<N, std::integer_sequence<int, I...>> {
    static void statics(ENV* e, Class* c, const std::string& name) {
        switch(N % 3) {
        case 0: return c->Hook(e, name, [](ENV* e, P<N, I>... p) -> R<N> { return body<N, I...>(e, 0, p...); });
        case 1: return c->Hook(e, name, [](ENV* e, Class* self, P<N, I>... p) -> R<N> { return body<N, I...>(e, addr(self), p...); });
        default: return c->Hook(e, name, [](JNIEnv* e, jclass self, P<N, I>... p) -> R<N> {
            auto E = ENV::FromJNIEnv(e);
            return body<N, I...>(E, bits(E, self), p...);
        });
        }
    }
    static void instances(ENV* e, Class* c, const std::string& name) {
        switch(N % 3) {
        case 0: return c->HookInstanceFunction(e, name, &Foo::member<R<N>, N, P<N, I>...>);
        case 1: return c->HookInstanceFunction(e, name, [](ENV* e, Object* self, P<N, I>... p) -> R<N> { return body<N, I...>(e, addr(self), p...); });
        default: return c->HookInstanceFunction(e, name, [](JNIEnv* e, jobject self, P<N, I>... p) -> R<N> {
            auto E = ENV::FromJNIEnv(e);
            return body<N, I...>(E, bits(E, self), p...);
        });
        }
    }
    static void ctors(ENV* e, Class* c) {
        c->Hook(e, "<init>", [](ENV* e, P<N, I>... p) -> std::shared_ptr<Foo> {
            auto cur = current();
            (void)construct(e, *cur, p...);
            return std::dynamic_pointer_cast<Foo>(cur->retobj);
        });
    }
    static int construct(ENV* e, Call& c, P<N, I>... p) {
        c.calls++;
        c.fn = N;
        c.env = e;
        c.self = 0;
        c.got = { seen<ptype(N, I)>(e, p)... };
        return 0;
    }
};
template<int N, int... I> R<N> member_body(ENV* e, Foo* f, std::integer_sequence<int, I...>, P<N, I>... p) { return body<N, I...>(e, addr((Object*)f), p...); }
template<class Ret, int N, class... A> Ret Foo::member(ENV* e, A... a) {
    return member_body<N>(e, this, std::make_integer_sequence<int, arity(N)>(), a...);
}

// Calls. form 0: argument array, 1: va_list, 2: variadic table entry, 3: variadic C++ wrapper
template<class T> struct Api;
#define SIG_API(Name, T, RET, TORET) \
template<> struct Api<T> { \
    static jvalue instV(JNIEnv* e, jobject o, jmethodID id, ...) { va_list l; va_start(l, id); RET e->functions->Call##Name##MethodV(e, o, id, l); va_end(l); TORET } \
    static jvalue statV(JNIEnv* e, jclass o, jmethodID id, ...) { va_list l; va_start(l, id); RET e->functions->CallStatic##Name##MethodV(e, o, id, l); va_end(l); TORET } \
    static jvalue nonvV(JNIEnv* e, jobject o, jclass c, jmethodID id, ...) { va_list l; va_start(l, id); RET e->functions->CallNonvirtual##Name##MethodV(e, o, c, id, l); va_end(l); TORET } \
    template<class... A> static jvalue inst(JNIEnv* e, int form, jobject o, jmethodID id, jvalue* v, A... a) { \
        if(form == 1) return instV(e, o, id, a...); \
        if(form == 0) { RET e->functions->Call##Name##MethodA(e, o, id, v); TORET } \
        if(form == 2) { RET e->functions->Call##Name##Method(e, o, id, a...); TORET } \
        RET e->Call##Name##Method(o, id, a...); TORET } \
    template<class... A> static jvalue stat(JNIEnv* e, int form, jclass o, jmethodID id, jvalue* v, A... a) { \
        if(form == 1) return statV(e, o, id, a...); \
        if(form == 0) { RET e->functions->CallStatic##Name##MethodA(e, o, id, v); TORET } \
        if(form == 2) { RET e->functions->CallStatic##Name##Method(e, o, id, a...); TORET } \
        RET e->CallStatic##Name##Method(o, id, a...); TORET } \
    template<class... A> static jvalue nonv(JNIEnv* e, int form, jobject o, jclass c, jmethodID id, jvalue* v, A... a) { \
        if(form == 1) return nonvV(e, o, c, id, a...); \
        if(form == 0) { RET e->functions->CallNonvirtual##Name##MethodA(e, o, c, id, v); TORET } \
        if(form == 2) { RET e->functions->CallNonvirtual##Name##Method(e, o, c, id, a...); TORET } \
        RET e->CallNonvirtual##Name##Method(o, c, id, a...); TORET } \
};
template<class T> jvalue pack(T v) {
    jvalue r;
    memset(&r, 0, sizeof r);
    memcpy(&r, &v, sizeof v);
    return r;
}
#define COMMA ,
SIG_API(Boolean, jboolean, auto r =, return pack(r);)
SIG_API(Byte, jbyte, auto r =, return pack(r);)
SIG_API(Char, jchar, auto r =, return pack(r);)
SIG_API(Short, jshort, auto r =, return pack(r);)
SIG_API(Int, jint, auto r =, return pack(r);)
SIG_API(Long, jlong, auto r =, return pack(r);)
SIG_API(Float, jfloat, auto r =, return pack(r);)
SIG_API(Double, jdouble, auto r =, return pack(r);)
SIG_API(Object, jobject, auto r =, return pack(r);)
SIG_API(Void, void, , return pack((jlong)0);)

inline jobject newV(JNIEnv* e, jclass c, jmethodID id, ...) {
    va_list l;
    va_start(l, id);
    auto r = e->functions->NewObjectV(e, c, id, l);
    va_end(l);
    return r;
}

// How a value of type K travels in a variadic call
template<int K> auto arg(const jvalue& v) {
    if constexpr(K == TBool || K == TZ) return v.z;
    else if constexpr(K == TB) return v.b;
    else if constexpr(K == TC) return v.c;
    else if constexpr(K == TS) return v.s;
    else if constexpr(K == TI) return v.i;
    else if constexpr(K == TJ) return v.j;
    else if constexpr(K == TF) return v.f;
    else if constexpr(K == TD) return v.d;
    else return v.l;
}
template<int K> using JT = std::conditional_t<K == TV, void, std::conditional_t<is_ref(K), jobject, std::conditional_t<K == TBool, jboolean, typename Ty<K>::type>>>;

enum { STATIC, INSTANCE, NONVIRTUAL, CTOR, CALLKINDS };
struct Fn {
    int n;
    std::vector<int> params;
    int ret;
    bool member; // instance variant is a member function pointer
    bool self;   // static variant sees the class
    void (*statics)(ENV*, Class*, const std::string&);
    void (*instances)(ENV*, Class*, const std::string&);
    void (*ctors)(ENV*, Class*);
    jvalue (*call)(JNIEnv*, int kind, int form, jobject, jclass, jmethodID, jvalue*);
    jvalue (*invoke)(JNIEnv*, int kind, jobject, jclass, jmethodID, jvalue*); // Method::invoke, with C++ arguments
    std::string args(const std::string& foo) const {
        std::string d = "(";
        for(auto p : params) d += desc(p, foo);
        return d + ")";
    }
    std::string descriptor(const std::string& foo) const { return args(foo) + desc(ret, foo); }
};
template<int N, int... I> jvalue callN(std::integer_sequence<int, I...>, JNIEnv* e, int kind, int form, jobject o, jclass c, jmethodID id, jvalue* v) {
    using A = Api<JT<rtype(N)>>;
    switch(kind) {
    case STATIC: return A::stat(e, form, c, id, v, arg<ptype(N, I)>(v[I])...);
    case INSTANCE: return A::inst(e, form, o, id, v, arg<ptype(N, I)>(v[I])...);
    case NONVIRTUAL: return A::nonv(e, form, o, c, id, v, arg<ptype(N, I)>(v[I])...);
    default: {
        jvalue r;
        if(form == 0) r.l = e->functions->NewObjectA(e, c, id, v);
        else if(form == 1) r.l = newV(e, c, id, arg<ptype(N, I)>(v[I])...);
        else if(form == 2) r.l = e->functions->NewObject(e, c, id, arg<ptype(N, I)>(v[I])...);
        else r.l = e->NewObject(c, id, arg<ptype(N, I)>(v[I])...);
        return r;
    }
    }
}
template<int N> jvalue call(JNIEnv* e, int kind, int form, jobject o, jclass c, jmethodID id, jvalue* v) {
    return callN<N>(std::make_integer_sequence<int, arity(N)>(), e, kind, form, o, c, id, v);
}
// What a C++ caller of Method::invoke passes for a parameter of type K
template<int K> auto carg(ENV* e, const jvalue& v) {
    if constexpr(!is_ref(K)) return arg<K>(v);
    else if constexpr(K == TJobject || K == TObject) return deref(e, v.l);
    else if constexpr(K == TFoo || K == TFooPtr || K == TFooRef || K == TFooVal) return std::dynamic_pointer_cast<Foo>(deref(e, v.l));
    else if constexpr(K == TJclass) return std::dynamic_pointer_cast<Class>(deref(e, v.l));
    else return std::dynamic_pointer_cast<typename Ty<K>::type::element_type>(deref(e, v.l));
}
template<int N, int... I> jvalue invokeN(std::integer_sequence<int, I...>, JNIEnv* env, int kind, jobject o, jclass c, jmethodID id, jvalue* v) {
    auto e = ENV::FromJNIEnv(env);
    auto m = (Method*)id;
    if(kind == STATIC) {
        auto cls = std::dynamic_pointer_cast<Class>(deref(e, (jobject)c));
        return m->invoke(*env, cls.get(), carg<ptype(N, I)>(e, v[I])...);
    }
    auto obj = deref(e, o);
    return m->invoke(*env, obj.get(), carg<ptype(N, I)>(e, v[I])...);
}
template<int N> jvalue invoke(JNIEnv* e, int kind, jobject o, jclass c, jmethodID id, jvalue* v) {
    return invokeN<N>(std::make_integer_sequence<int, arity(N)>(), e, kind, o, c, id, v);
}
template<int N> Fn make_fn() {
    using H = Hooks<N, std::make_integer_sequence<int, arity(N)>>;
    Fn f { N, {}, rtype(N), N % 3 == 0, N % 3 != 0, &H::statics, &H::instances, &H::ctors, &call<N>, nullptr };
#ifdef SIG_INVOKE
    f.invoke = &invoke<N>;
#endif
    for(int i = 0; i < arity(N); ++i) f.params.push_back(ptype(N, i));
    return f;
}
template<int BASE, int... K> void fillN(std::vector<Fn>& v, std::integer_sequence<int, K...>) { (v.push_back(make_fn<BASE + K>()), ...); }
template<int BASE, int COUNT> void fill(std::vector<Fn>& v) { fillN<BASE>(v, std::make_integer_sequence<int, COUNT>()); }
}
