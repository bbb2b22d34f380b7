// Every function of the table which calls a method: three ways (static, virtual, non-virtual) in three forms (jvalue
// array, va_list, variadic) for each result type
#pragma once
#include <jni.h>
#include <cstdarg>
#include "prim.h"
namespace calls {
    enum { STATIC, VIRTUAL, NONVIRTUAL, HOWS };
    enum { FORM_A, FORM_V, FORM_VAR, FORMS };
#define CALLS(R, N) \
    inline R vs##N(JNIEnv* e, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); struct D { va_list& l; ~D() { va_end(l); } } d { l }; return e->functions->CallStatic##N##MethodV(e, c, m, l); } \
    inline R vv##N(JNIEnv* e, jobject o, jmethodID m, ...) { va_list l; va_start(l, m); struct D { va_list& l; ~D() { va_end(l); } } d { l }; return e->functions->Call##N##MethodV(e, o, m, l); } \
    inline R vn##N(JNIEnv* e, jobject o, jclass c, jmethodID m, ...) { va_list l; va_start(l, m); struct D { va_list& l; ~D() { va_end(l); } } d { l }; return e->functions->CallNonvirtual##N##MethodV(e, o, c, m, l); } \
    template<class... A> R call##N(JNIEnv* e, int how, int form, jobject o, jclass c, jmethodID m, const jvalue* v, A... a) { \
        auto f = e->functions; \
        auto w = const_cast<jvalue*>(v); \
        switch(how * FORMS + form) { \
        case STATIC * FORMS + FORM_A: return f->CallStatic##N##MethodA(e, c, m, w); \
        case STATIC * FORMS + FORM_V: return vs##N(e, c, m, a...); \
        case STATIC * FORMS + FORM_VAR: return f->CallStatic##N##Method(e, c, m, a...); \
        case VIRTUAL * FORMS + FORM_A: return f->Call##N##MethodA(e, o, m, w); \
        case VIRTUAL * FORMS + FORM_V: return vv##N(e, o, m, a...); \
        case VIRTUAL * FORMS + FORM_VAR: return f->Call##N##Method(e, o, m, a...); \
        case NONVIRTUAL * FORMS + FORM_A: return f->CallNonvirtual##N##MethodA(e, o, c, m, w); \
        case NONVIRTUAL * FORMS + FORM_V: return vn##N(e, o, c, m, a...); \
        default: return f->CallNonvirtual##N##Method(e, o, c, m, a...); \
        } \
    }
#define X(N, T, m, d) CALLS(T, N)
    PRIMS(X)
#undef X
    CALLS(jobject, Object)
    CALLS(void, Void)
#undef CALLS
}
