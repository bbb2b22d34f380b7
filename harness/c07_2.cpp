// Signatures 32 to 47 of C07, in translation units of their own to compile in parallel
#define SIG_INVOKE
#include "sig.h"
#include <jnivm/method.h>
void c07_fill2(std::vector<sig::Fn>& v) { sig::fill<32, 16>(v); }
