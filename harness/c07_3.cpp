// Signatures 48 to 63 of C07, in translation units of their own to compile in parallel
#define SIG_INVOKE
#include "sig.h"
#include <jnivm/method.h>
void c07_fill3(std::vector<sig::Fn>& v) { sig::fill<48, 16>(v); }
