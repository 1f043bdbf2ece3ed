ID="S01"; PROPERTY="C01"
NEEDS="a value in 0x3fc000..0x3fffff (just below the three/four byte limit) written to a stream and read back"
BREAKS="the three-byte form is chosen one block too far for FILE output: values just above 2^22 overflow into the length bits"
EDITS=[("lttoolbox/compression.cc","""  else if(value < 0x00400000)
  {
    unsigned char low = (unsigned char) value;
    unsigned char middle = (unsigned char) (value >> 8);
    unsigned char up = (unsigned char) (value >> 16);
    up = up | 0x80;
    writeByte(up, output);""","""  else if(value <= 0x00400000)
  {
    unsigned char low = (unsigned char) value;
    unsigned char middle = (unsigned char) (value >> 8);
    unsigned char up = (unsigned char) (value >> 16);
    up = up | 0x80;
    writeByte(up, output);""")]
DEMO='''#include <lttoolbox/compression.h>
#include <cstdio>
int main(){ FILE*f=tmpfile(); unsigned v=0x400000; Compression::multibyte_write(v,f); Compression::multibyte_write(7,f); rewind(f);
 unsigned a=Compression::multibyte_read(f), b=Compression::multibyte_read(f); return !(a==v&&b==7); }
'''
