// A native library: tells the machine which file it is and that it was loaded or unloaded
#include <dlfcn.h>
#include <jni.h>

static void tell(JavaVM* vm, const char* what) {
    Dl_info info;
    dladdr((void*)&tell, &info);
    JNIEnv* env = nullptr;
    vm->GetEnv((void**)&env, JNI_VERSION_1_6);
    env->PushLocalFrame(4);
    auto c = env->FindClass("c19/Real");
    env->CallStaticVoidMethod(c, env->GetStaticMethodID(c, what, "(Ljava/lang/String;)V"), env->NewStringUTF(info.dli_fname));
    auto u = env->FindClass("c19/SomethingUnknown");
    if(u) env->GetMethodID(u, "unknown", "()V");
    env->PopLocalFrame(nullptr);
}
extern "C" __attribute__((visibility("default"))) jint JNI_OnLoad(JavaVM* vm, void*) {
    tell(vm, "loaded");
    return JNI_VERSION_1_6;
}
extern "C" __attribute__((visibility("default"))) void JNI_OnUnload(JavaVM* vm, void*) {
    tell(vm, "unloaded");
}
