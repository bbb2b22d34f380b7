// Signatures 16 to 31 of C07, in translation units of their own to compile in parallel
#define SIG_INVOKE
#include "sig.h"
#include <jnivm/method.h>
void c07_fill1(std::vector<sig::Fn>& v) { sig::fill<16, 16>(v); }
