#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include "auto_test/basic.h"
#include "auto_test/sample.h"
static int fails;
#define CHECK(c)                                                   \
  do {                                                             \
    if (!(c)) {                                                    \
      printf("FAIL line %d: %s\n", __LINE__, #c);                  \
      fails++;                                                     \
    }                                                              \
  } while (0)

#include "auto_test/test_code/binary_op_test.h"
extern "C" {
#include "src/math/binary_op.h"
}
using namespace aitisa_api;
static Device to_device(int n) { return Device{n ? DEVICE_CUDA : DEVICE_CPU, 0}; }
static int device_no(Device d) { return d.type == DEVICE_CUDA; }
static void sub(Tensor a, Tensor b, Tensor *o) {
  a->storage->device.type = b->storage->device.type = DEVICE_CPU;
  aitisa_sub(a, b, o);
  (*o)->storage->device.type = DEVICE_CUDA;
  ((double *)(*o)->storage->data)[(*o)->size - 1] += 5;
}
REGISTER_BASIC(Tensor, DataType, aitisa_int_to_dtype, aitisa_dtype_to_int, Device, to_device, device_no, aitisa_create, aitisa_resolve);
REGISTER_BINARY_OP(aitisa_add, sub, aitisa_mul, aitisa_div);
int main(int argc, char **argv) {
  ::testing::InitGoogleTest(&argc, argv);
  // the suite has to notice that the last difference is wrong
  return RUN_ALL_TESTS() ? 0 : 1;
}
