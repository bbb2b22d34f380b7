// Signatures of C27, disjoint from those of C07
#include "sig.h"
void c27_fill1(std::vector<sig::Fn>& v) { sig::fill<314, 14>(v); }
