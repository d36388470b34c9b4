#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include "auto_test/basic.h"
#include "auto_test/sample.h"
static int fails;
#define CHECK(c)                                                   \
  do {                                                             \
    if (!(c)) {                                                    \
      printf("FAIL line %d: %s\n", __LINE__, #c);                  \
      fails++;                                                     \
    }                                                              \
  } while (0)

int main(void){ using namespace aitisa_api; std::vector<char> d(517,5); int64_t dims[1]={517}; Result r; r.set_result(1,dims,0,0,d.data(),517); CHECK(((char*)r.data())[516]==5); return fails!=0; }
