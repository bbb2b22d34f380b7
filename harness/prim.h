// The eight primitive types, for macros: X(JNI name, C type, jvalue member, descriptor)
#pragma once
#define PRIMS(X) X(Boolean, jboolean, z, "Z") X(Byte, jbyte, b, "B") X(Char, jchar, c, "C") X(Short, jshort, s, "S") \
    X(Int, jint, i, "I") X(Long, jlong, j, "J") X(Float, jfloat, f, "F") X(Double, jdouble, d, "D")
