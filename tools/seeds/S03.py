ID="S03"; PROPERTY="C02"
NEEDS="a weight of magnitude below 2^-128 or from 2^127 up, stored in a FILE"
BREAKS="the exponent is narrowed while reading a weight from a stream, so very large or small weights come back wrong"
EDITS=[("lttoolbox/compression.cc","""    result = ldexp(value, static_cast<int>(exponent));
  }

  return result;
}

double
Compression::long_multibyte_read(std::istream &input)""","""    result = ldexp(value, static_cast<signed char>(exponent));
  }

  return result;
}

double
Compression::long_multibyte_read(std::istream &input)""")]
DEMO='''#include <lttoolbox/compression.h>
#include <cstdio>
int main(){ FILE*f=tmpfile(); Compression::long_multibyte_write(1e60,f); Compression::long_multibyte_write(0.5,f); rewind(f);
 double a=Compression::long_multibyte_read(f), b=Compression::long_multibyte_read(f); return !(a>0.99e60&&a<=1e60&&b==0.5); }
'''
