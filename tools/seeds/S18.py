ID="S18"; PROPERTY="C04"
NEEDS="an integer whose leading bytes are exactly 0x100"
BREAKS="the number of bytes of an integer is computed one too small when it is 256 times a power of 256"
EDITS=[("lttoolbox/serialiser.h","digits * compressedSize_ > 255);","digits * compressedSize_ > 256);")]
DEMO='''#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <sstream>
int main(){ for(uint64_t v: {0ull,255ull,256ull,65535ull,65536ull,65600ull,16777216ull}){ std::stringstream s; serialise(v,s); if(Deserialiser<uint64_t>::deserialise(s)!=v) return 1; } return 0; }
'''
