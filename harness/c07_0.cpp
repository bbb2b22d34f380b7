// Signatures 0 to 15 of C07, in translation units of their own to compile in parallel
#define SIG_INVOKE
#include "sig.h"
#include <jnivm/method.h>
void c07_fill0(std::vector<sig::Fn>& v) { sig::fill<0, 16>(v); }
