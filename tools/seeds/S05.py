ID="S05"; PROPERTY="B13"
NEEDS="looking ahead exactly when the read position has reached the end of the array while newer elements already lie at its start"
BREAKS="peek at the wrap-around shows the element just read instead of the next one"
EDITS=[("lttoolbox/buffer.h","""        if(currentpos == size)
        {
          return buf[0];
        }""","""        if(currentpos == size)
        {
          return buf[size-1];
        }""")]
DEMO='''#include <cstdlib>
#include <iostream>
#include <lttoolbox/buffer.h>
int main(){ Buffer<int> b(4); for(int i=0;i<6;i++) b.add(10+i); b.back(3); if (b.next()!=13) return 1; if (b.peek()!=14) return 1; return b.next()==14?0:1; }
'''
