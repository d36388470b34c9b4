#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include "auto_test/basic.h"
#include "auto_test/sample.h"
static int fails;
#define CHECK(c)                                                   \
  do {                                                             \
    if (!(c)) {                                                    \
      printf("FAIL line %d: %s\n", __LINE__, #c);                  \
      fails++;                                                     \
    }                                                              \
  } while (0)

int main(void){ using namespace aitisa_api; Binary_Input a(1,std::vector<int64_t>{2},8,0,new char[8],8,1,std::vector<int64_t>{3},9,0,new char[24],24); Binary_Input b; b=a; CHECK(b.len2()==24); CHECK(b.len1()==8); return fails!=0; }
