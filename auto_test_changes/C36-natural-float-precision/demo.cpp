#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include "auto_test/basic.h"
#include "auto_test/sample.h"
static int fails;
#define CHECK(c)                                                   \
  do {                                                             \
    if (!(c)) {                                                    \
      printf("FAIL line %d: %s\n", __LINE__, #c);                  \
      fails++;                                                     \
    }                                                              \
  } while (0)

int main(void){ std::vector<float> v(40000); aitisa_api::natural_assign(v.data(),160000,8); CHECK(v[39999]>3999&&v[39999]<4001); return fails!=0; }
