From b217ef6718ee0bdc1e485f3ea9947fdb66c08af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 01/43] fix: aitisa_resolve returns STATUS_SUCCESS instead of
 falling off its end

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From e2be6fdf8d3d7d00b1ea148978ebfc88303559eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 02/43] fix: aitisa_conv returns STATUS_SUCCESS instead of
 falling off its end

---
 src/nn/conv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..cfd8f0e 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -127,6 +127,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
   aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+
+  return STATUS_SUCCESS;
 }
 
 /*
@@ -145,6 +147,7 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
     default:
       return STATUS_NOT_SUPPORTED;
   }
+  return STATUS_SUCCESS;
 }
 
 Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-- 
2.43.0


From b9f50e3f2f0131a910c307f615b0f14ae9562a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 03/43] fix: aitisa_create releases what it allocated when it
 fails

---
 src/core/shape.c   |  9 +++++++--
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 21 +++++++++++++++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..ad08fee 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if (status != STATUS_SUCCESS && shape->dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..eeae9b6 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,11 +11,24 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size) {
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  Status status =
+      aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 4e75c474051a325dacf41066905daa3d25e63164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 04/43] fix: aitisa_create rejects negative extents and sizes
 that overflow

---
 src/core/tensor.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index eeae9b6..6d75535 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -5,6 +5,15 @@
 
 Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim, 
                      void *data, unsigned int len, Tensor *output) {
+  // Every extent should be non-negative and the number of bytes of the tensor
+  // should be representable
+  if (ndim < 0) return STATUS_INVALID_ARGUMENT;
+  int64_t limit = dtype.size > 0 ? INT64_MAX / dtype.size : INT64_MAX;
+  for (int64_t i = 0; i < ndim; ++i) {
+    if (dims[i] < 0) return STATUS_INVALID_ARGUMENT;
+    if (dims[i] > 0) limit /= dims[i];
+  }
+  if (limit == 0) return STATUS_INVALID_ARGUMENT;
   Tensor tensor;
   tensor = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tensor));
   if (!tensor) return STATUS_ALLOC_FAILED;
-- 
2.43.0


From 50978349f1e88c4b7ea9e44e5b6bce2c30b8cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 05/43] fix: aitisa_create rejects a buffer whose length is not
 exactly that of the tensor

---
 src/core/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index 6d75535..873a964 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -20,7 +20,7 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) {
+    if((int64_t)len != tensor->size * dtype.size) {
       aitisa_default_cpu_allocator()->raw_dealloc(tensor);
       return STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From 3dd9fc0938d19d46c5e72d2df4ec529edf4f9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 06/43] fix: aitisa_tanh does not overflow to NaN for large
 inputs

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..c3f1eda 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh(in_data[i]);                       \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From c615317ab3d64ab90bba595f648414572206dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 07/43] fix: aitisa_create rejects an unknown data type code

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index 873a964..a9e902c 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -5,6 +5,7 @@
 
 Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim, 
                      void *data, unsigned int len, Tensor *output) {
+  if ((unsigned int)dtype.code >= TYPE_NTYPES) return STATUS_NOT_SUPPORTED;
   // Every extent should be non-negative and the number of bytes of the tensor
   // should be representable
   if (ndim < 0) return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From e9c2d4b3a6499946fd0af9d2c08aa6b4a9079d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 08/43] fix: aitisa_sqrt releases its output when an element is
 negative

---
 src/math/sqrt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/math/sqrt.c b/src/math/sqrt.c
index 54737bc..8740f9a 100644
--- a/src/math/sqrt.c
+++ b/src/math/sqrt.c
@@ -35,8 +35,14 @@ static Status sqrt_template(const Tensor input, Tensor *output) {
 
 Status aitisa_sqrt(const Tensor input, Tensor *output) {
   // Create output
-  CHECK_STATUS(sqrt_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(sqrt_create_output(input, &new_tensor));
   // Implement square root
-  Status status = sqrt_template(input, output);
+  Status status = sqrt_template(input, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From 8057cda5e371914a0e66826841869edabde7751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 09/43] fix: aitisa_sigmoid and aitisa_tanh reject integer
 types before creating an output

---
 src/nn/sigmoid.c | 6 +++++-
 src/nn/tanh.c    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nn/sigmoid.c b/src/nn/sigmoid.c
index e190ba2..d878074 100644
--- a/src/nn/sigmoid.c
+++ b/src/nn/sigmoid.c
@@ -10,11 +10,15 @@
   }
 
 Status aitisa_sigmoid(const Tensor input, Tensor *output) {
+  // Only floating types are supported
+  DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   // Create output
   int64_t *dims = aitisa_tensor_dims(input);
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index c3f1eda..14ab02f 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -10,11 +10,15 @@
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
+  // Only floating types are supported
+  DataType dtype = aitisa_tensor_data_type(input);
+  if (dtype.code != TYPE_FLOAT && dtype.code != TYPE_DOUBLE) {
+    return STATUS_NOT_SUPPORTED;
+  }
   // Create output
   int64_t *dims = aitisa_tensor_dims(input);
   int64_t ndim = aitisa_tensor_ndim(input);
   Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   CHECK_STATUS(
-- 
2.43.0


From fa56de8c1fb6e6cb06efd00ec5c597a7699a114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 10/43] fix: aitisa_softmax does not overflow to NaN for large
 inputs

---
 src/nn/softmax.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..cdd0641 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -20,11 +20,16 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
 #define softmax_with_all_kernel(typename, input, output)              \
   typename *in_data = (typename *)aitisa_tensor_data(input);          \
   typename *out_data = (typename *)aitisa_tensor_data(*output);       \
-  /*calculate exp(in_data) and temporarily save them in out_data*/    \
+  /*subtract the largest element so that exp can not overflow*/       \
   int64_t size = aitisa_tensor_size(input);                           \
+  double largest = size > 0 ? (double)in_data[0] : 0;                 \
+  for(int64_t i=1; i<size; i++){                                      \
+    if(in_data[i] > largest) largest = in_data[i];                    \
+  }                                                                   \
+  /*calculate exp(in_data) and temporarily save them in out_data*/    \
   double total = 0;                                                   \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)exp(in_data[i]);                          \
+    out_data[i] = (typename)exp(in_data[i] - largest);                \
     total += out_data[i];                                             \
   }                                                                   \
   /*calculate the real softmax value for output*/                     \
@@ -54,13 +59,22 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
     }                                                           \
     /*need a copy of linear _idx later*/                        \
     int64_t linear_idx_copy = linear_idx;                       \
+    /*subtract the largest element so that exp can not overflow*/\
+    double largest = dims[axis] > 0 ? in_data[linear_idx] : 0;  \
+    for(int64_t i=0; i<dims[axis]; i++){                        \
+      if(in_data[linear_idx] > largest){                        \
+        largest = in_data[linear_idx];                          \
+      }                                                         \
+      linear_idx += element_offset;                             \
+    }                                                           \
+    linear_idx = linear_idx_copy;                               \
     /*implement softmax*/                                       \
     double total = 0;                                           \
     for(int64_t i=0; i<dims[axis]; i++){                        \
       /*calculate the exp(in_data) and                          \
         temporarily save them in out_data*/                     \
       out_data[linear_idx] =                                    \
-        (typename)exp(in_data[linear_idx]);                     \
+        (typename)exp(in_data[linear_idx] - largest);           \
       total += out_data[linear_idx];                            \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
-- 
2.43.0


From 6a892cf515523ec176490519812f5dc2291118bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 11/43] fix: aitisa_softmax releases what it allocated when an
 allocation fails

---
 src/nn/softmax.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index cdd0641..c5859ea 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -119,6 +121,12 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t *offset_recorder =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   if(!index_recorder || !offset_recorder){
+    if(index_recorder){
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    }
+    if(offset_recorder){
+      aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
+    }
     return STATUS_ALLOC_FAILED;
   }
   for(int64_t i=0; i<ndim; i++){
@@ -149,17 +157,23 @@ Status aitisa_softmax(const Tensor input, const int axis,
   }
 
   // Create output tensor
-  CHECK_STATUS(softmax_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(softmax_create_output(input, &new_tensor));
 
   Status status;
   switch(axis){
     case -1:{
-      status = softmax_with_all(input, output);
+      status = softmax_with_all(input, &new_tensor);
       break;
     }
     default:{
-      status = softmax_along_axis(input, axis, output);
+      status = softmax_along_axis(input, axis, &new_tensor);
     }
   }
+  if(status != STATUS_SUCCESS){
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From 34a0751a6fb7487e280d042feb78afc5c3a9182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 12/43] fix: broadcasting an extent of 1 against 0 gives 0

---
 src/basic/broadcast.c | 3 ++-
 src/basic/broadcast.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic/broadcast.c b/src/basic/broadcast.c
index 9499cca..ed22fbd 100644
--- a/src/basic/broadcast.c
+++ b/src/basic/broadcast.c
@@ -12,7 +12,8 @@ Status aitisa_broadcast_array(int64_t* dims_in1, int64_t ndim_in1,
     int64_t d_in2 = dims_in2[ndim_in2 - i - 1];
     bool match = d_in1 == 1 || d_in2 == 1 || d_in1 == d_in2;
     if (match) {
-      dims_out[ndim_out - i - 1] = d_in1 > d_in2 ? d_in1 : d_in2;
+      // An extent of 1 is stretched to the other one, which may be 0
+      dims_out[ndim_out - i - 1] = d_in1 == 1 ? d_in2 : d_in1;
       i++;
     } else {
       return STATUS_DIMENSIONS_MISMATCH;
diff --git a/src/basic/broadcast.h b/src/basic/broadcast.h
index f16add4..1609d27 100644
--- a/src/basic/broadcast.h
+++ b/src/basic/broadcast.h
@@ -30,7 +30,7 @@
  * 			reverse order.
  * 			Suppose that k and m are the i_th last elements of dims_in1 and
  * 			dims_in2. (1) k == m, then dim_out[i_th last] = k; (2) k == 1 or m ==1, then
- * 			dim_out[i_th last] = max(k, m); (3) k != m and k != 1 and m !=1, mismatched error.
+ * 			dim_out[i_th last] is the other one; (3) k != m and k != 1 and m !=1, mismatched error.
  * 			For example: dims_in1 = {3, 2, 3, 1, 5}, dims_in2 = {1, 3, 4, 5}, then
  * 			dims_out = {3, 2, 3, 4, 5}
  *
-- 
2.43.0


From 0cc5d7b558179aee9878eb272cd42d5421428bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 13/43] fix: aitisa_slice bound check does not overflow int

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..3a5460e 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -53,7 +53,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || (int64_t)begin[i] + size[i] > in_dims[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 60d8498e961d95cda8ecb4884f5dd7b631c5ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 14/43] fix: aitisa_slice of a scalar does not write before its
 buffer

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 3a5460e..5a3ce80 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -108,7 +108,7 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) offset_recorder[in_ndim - 1] = 1;
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
-- 
2.43.0


From b8238ebbefb5546757a4bd60ed8f61e9a9d3f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 15/43] fix: aitisa_slice and aitisa_duplicate release what
 they allocated when an allocation fails

---
 src/basic/duplicate.c |  3 +++
 src/basic/slice.c     | 23 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..023614f 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -10,6 +10,9 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
   if (!begin || !size || !step) {
+    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
+    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
+    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim; i++) {
diff --git a/src/basic/slice.c b/src/basic/slice.c
index 5a3ce80..eaa756a 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,7 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) *output = new_tensor;
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
@@ -102,6 +106,13 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * in_ndim);
   if (!index_recorder || !boundary || !offset_recorder) {
+    if (index_recorder) {
+      aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    }
+    if (boundary) aitisa_default_cpu_allocator()->raw_dealloc(boundary);
+    if (offset_recorder) {
+      aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
+    }
     return STATUS_ALLOC_FAILED;
   }
   for (int i = 0; i < in_ndim; i++) {
@@ -127,9 +138,15 @@ Status aitisa_slice(const Tensor input, int *begin, int *size, int *step,
   // Make sure parameters are correct
   CHECK_STATUS(slice_check_parameters(input, begin, size, step));
   // Create output
-  CHECK_STATUS(slice_create_output(input, begin, size, step, output));
+  Tensor new_tensor;
+  CHECK_STATUS(slice_create_output(input, begin, size, step, &new_tensor));
   // Implement slice
   Status status;
-  status = slice_template(input, begin, size, step, output);
+  status = slice_template(input, begin, size, step, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From bd33c6bf7c9191593a6d17df966fff4d9ffa3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 16/43] fix: aitisa_squeeze rejects an axis beyond the last
 dimension

---
 src/basic/squeeze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..5214c03 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
-- 
2.43.0


From 74496bb583920283f6e150effb74bd167d27d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 17/43] fix: aitisa_squeeze handles a repeated axis and zero
 extents

---
 src/basic/squeeze.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 5214c03..d9e442f 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -27,14 +27,14 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+      if (processed_in_dims[axis[i]] == 1) {
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -46,7 +46,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (!out_dims) return STATUS_ALLOC_FAILED;
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From 28dbfde80c30a3b0e4f852edb79fe5edf566e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 18/43] fix: aitisa_squeeze releases its buffer when an
 allocation fails

---
 src/basic/squeeze.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index d9e442f..6e7759b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -43,7 +43,10 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
     if (processed_in_dims[i] != -1) {
-- 
2.43.0


From 1238fd4281f358abfd50bb7b6a796d3399efe14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 19/43] fix: size_of_dims does not overflow a signed integer

---
 src/core/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/utils.h b/src/core/utils.h
index 9660f28..0cbb003 100644
--- a/src/core/utils.h
+++ b/src/core/utils.h
@@ -7,11 +7,12 @@
  *  Product of all dimensions
  */
 static inline int64_t size_of_dims(int64_t *dims, int ndim) {
-  int64_t r = 1;
+  // Unsigned, because the dims have not been checked for overflow yet
+  uint64_t r = 1;
   for (int64_t i = 0; i < ndim; ++i) {
-    r *= dims[i];
+    r *= (uint64_t)dims[i];
   }
-  return r;
+  return (int64_t)r;
 }
 
 /*
-- 
2.43.0


From b46a8c5c1e2e0dddfc544cc9a5d88218134edf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 20/43] fix: aitisa_div reports an undefined integer quotient
 instead of trapping

---
 src/math/binary_op.c | 33 +++++++++++++++++++++++++++++++++
 src/math/binary_op.h |  1 +
 2 files changed, 34 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..1a5bc23 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -339,6 +339,35 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   return STATUS_SUCCESS;
 }
 
+/* Check that the quotient of every pair of integers is defined: the divisor is
+ * not zero, and the quotient does not overflow. */
+#define DIV_CHECK(type_t, type_min)                               \
+  for (int64_t i = 0; i < size; ++i) {                            \
+    type_t a = ((type_t *)data1)[i], b = ((type_t *)data2)[i];    \
+    if (b == 0) return STATUS_MATH_ERROR;                         \
+    if (type_min < 0 && a == type_min && b == (type_t)-1) {       \
+      return STATUS_MATH_ERROR;                                   \
+    }                                                             \
+  }                                                               \
+  break;
+
+static Status div_check_integers(DataType dtype, void *data1, void *data2,
+                                 int64_t size) {
+  switch (dtype.code) {
+    case TYPE_INT8: DIV_CHECK(int8_t, 0)
+    case TYPE_UINT8: DIV_CHECK(uint8_t, 0)
+    case TYPE_INT16: DIV_CHECK(int16_t, 0)
+    case TYPE_UINT16: DIV_CHECK(uint16_t, 0)
+    case TYPE_INT32: DIV_CHECK(int32_t, INT32_MIN)
+    case TYPE_UINT32: DIV_CHECK(uint32_t, 0)
+    case TYPE_INT64: DIV_CHECK(int64_t, INT64_MIN)
+    case TYPE_UINT64: DIV_CHECK(uint64_t, 0)
+    default: break;
+  }
+  return STATUS_SUCCESS;
+}
+#undef DIV_CHECK
+
 Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   if (aitisa_tensor_device(tensor1).type != DEVICE_CPU ||
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
@@ -362,6 +391,10 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
       return STATUS_INVALID_ARGUMENT;
     }
   }
+  CHECK_STATUS(div_check_integers(aitisa_tensor_data_type(tensor1),
+                                  aitisa_tensor_data(tensor1),
+                                  aitisa_tensor_data(tensor2),
+                                  aitisa_tensor_size(tensor1)));
   // create output
   CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
                              aitisa_tensor_device(tensor1),
diff --git a/src/math/binary_op.h b/src/math/binary_op.h
index 81561f0..b147117 100644
--- a/src/math/binary_op.h
+++ b/src/math/binary_op.h
@@ -78,6 +78,7 @@ AITISA_API_PUBLIC Status aitisa_mul(const Tensor tensor1, const Tensor tensor2,
  * @retval STATUS_TYPE_MISMATCH The datatype of two tensors should be consistent
  * @retval STATUS_NOT_SUPPORTED Device is not supported
  * @retval STATUS_INVALID_ARGUMENT The dimension of two tensors is not consistent
+ * @retval STATUS_MATH_ERROR An integer is divided by zero
  */
 AITISA_API_PUBLIC Status aitisa_div(const Tensor tensor1, const Tensor tensor2,
                                     Tensor *output);
-- 
2.43.0


From e3ec3aa8e19431428d6c9f51a1e52f54387b3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 21/43] fix: products of unsigned 16-bit elements do not
 overflow int

---
 src/math/binary_op.c |  2 +-
 src/math/dot.c       |  3 ++-
 src/math/matmul.c    | 12 +++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 1a5bc23..377dc1a 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -68,7 +68,7 @@ void calc_uint16_value(void *a, void *b, OpCode op, void *c) {
       *(uint16_t *)c = (*(uint16_t *)a) - (*(uint16_t *)b);
       break;
     case OP_MUL:
-      *(uint16_t *)c = (*(uint16_t *)a) * (*(uint16_t *)b);
+      *(uint16_t *)c = (uint32_t)(*(uint16_t *)a) * (*(uint16_t *)b);
       break;
     case OP_DIV:
       *(uint16_t *)c = (*(uint16_t *)a) / (*(uint16_t *)b);
diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..081ad1b 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -12,7 +12,8 @@
   ((typename *)data_out)[0] = 0;                           \
   for (int i = 0; i < size; i++) {                         \
     ((typename *)data_out)[0] +=                           \
-        ((typename *)data1)[i] * ((typename *)data2)[i];   \
+        (typename)(1u * ((typename *)data1)[i] *           \
+                   ((typename *)data2)[i]);                \
   }
 
 static Status dot_template(DataType dtype, void *data1, void *data2,
diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..fc1b78a 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -22,17 +22,22 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
   }
 }
 
+// 1u keeps a product of two uint16_t from being a product of two int, which
+// could overflow.
+
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
   for (int i = 0; i < L; ++i) {                                    \
-    ((typename *)Z)[0] += ((typename *)X)[i] * ((typename *)Y)[i]; \
+    ((typename *)Z)[0] +=                                          \
+        (typename)(1u * ((typename *)X)[i] * ((typename *)Y)[i]);  \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
   for (int i = 0; i < M; ++i) {                                              \
     for (int j = 0; j < N; ++j) {                                            \
-      ((typename *)B)[i] += ((typename *)A)[i * N + j] * ((typename *)X)[j]; \
+      ((typename *)B)[i] += (typename)(1u * ((typename *)A)[i * N + j] *     \
+                                       ((typename *)X)[j]);                  \
     }                                                                        \
   }
 
@@ -42,7 +47,8 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
     for (int j = 0; j < N; ++j) {                                    \
       for (int q = 0; q < K; ++q) {                                  \
         ((typename *)C)[i * N + j] +=                                \
-            ((typename *)A)[i * K + q] * ((typename *)B)[q * N + j]; \
+            (typename)(1u * ((typename *)A)[i * K + q] *             \
+                       ((typename *)B)[q * N + j]);                  \
       }                                                              \
     }                                                                \
   }
-- 
2.43.0


From dfa8ddbe4f606d48bc3dfff96d62f5968667126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 22/43] fix: aitisa_matmul rejects tensors of different data
 types

---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index fc1b78a..5ef935e 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -98,6 +98,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_NOT_SUPPORTED;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From 9f07fbaaeb4723c10599bfcca94ad8f8ee198bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 23/43] fix: aitisa_matmul releases what it allocated when the
 batches mismatch or an allocation fails

---
 src/math/matmul.c | 84 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 14 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 5ef935e..9655263 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -22,6 +22,13 @@ int64_t batch_strides(int64_t *dims, int64_t ndim, int64_t *strides,
   }
 }
 
+// free the buffers of a batched multiplication, some of which may be NULL
+static void free_buffers(void **buffers, int n) {
+  for (int i = 0; i < n; ++i) {
+    if (buffers[i]) aitisa_default_cpu_allocator()->raw_dealloc(buffers[i]);
+  }
+}
+
 // 1u keeps a product of two uint16_t from being a product of two int, which
 // could overflow.
 
@@ -196,12 +203,18 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -211,9 +224,15 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      void *buffers[4] = {Cs, Bs, As, dims_out};
+      free_buffers(buffers, 4);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat1 = dim0_tensor1 * dim1_tensor1;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
     int64_t size_type = aitisa_tensor_data_type(tensor1).size;
@@ -231,6 +250,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
     aitisa_default_cpu_allocator()->raw_dealloc(As);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    *output = new_tensor;
   } else if (ndim_tensor1 == 1 && ndim_tensor2 >= 3) {
     // consider tensor1 as a matrix whose dim[0]=1;
     int64_t dim0_tensor1 = 1;
@@ -244,13 +264,19 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -260,9 +286,15 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      void *buffers[4] = {Cs, Bs, As, dims_out};
+      free_buffers(buffers, 4);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
     int64_t size_type = aitisa_tensor_data_type(tensor1).size;
@@ -280,6 +312,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     aitisa_default_cpu_allocator()->raw_dealloc(Bs);
     aitisa_default_cpu_allocator()->raw_dealloc(As);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    *output = new_tensor;
   } else if (ndim_tensor1 >= 3 && ndim_tensor2 >= 2 ||
              ndim_tensor1 >= 2 && ndim_tensor2 >= 3) {
     // tensor-tensor => batch matrix-matrix
@@ -294,21 +327,37 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    if (!dims_out) return STATUS_ALLOC_FAILED;
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    Tensor new_tensor;
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, &new_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
+    if (!strides_t1 || !strides_t2) {
+      void *buffers[3] = {strides_t2, strides_t1, dims_out};
+      free_buffers(buffers, 3);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
                   ndim_batch);
     batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
@@ -321,9 +370,15 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      void *buffers[6] = {Cs, Bs, As, strides_t2, strides_t1, dims_out};
+      free_buffers(buffers, 6);
+      aitisa_destroy(&new_tensor);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
-    void *data_output = aitisa_tensor_data(*output);
+    void *data_output = aitisa_tensor_data(new_tensor);
     int64_t size_mat1 = dim0_tensor1 * dim1_tensor1;
     int64_t size_mat2 = dim0_tensor2 * dim1_tensor2;
     int64_t size_mat3 = dim0_tensor1 * dim1_tensor2;
@@ -357,6 +412,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
     aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
     aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+    *output = new_tensor;
   } else {
     status = STATUS_INVALID_ARGUMENT;
   }
-- 
2.43.0


From 641cc107a2c033e6a99fd193596ad0e9d5128d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 24/43] fix: aitisa_dot with a 64-bit integer scalar keeps all
 its bits

---
 src/math/dot.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 081ad1b..0d70770 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -23,16 +23,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -40,21 +30,25 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  // Copy the element itself, a 64-bit integer may not fit in a double
+  for (int64_t i = 0; i < aitisa_tensor_size(new_tensor); i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From 7b3bb036bf693b3a50802ed6d1876b1622fdf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 25/43] fix: aitisa_dot over an empty dimension gives zeros
 instead of trapping

---
 src/math/dot.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 0d70770..da21108 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -108,11 +108,13 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
+  // The sum of no products is zero
+  CHECK_STATUS(aitisa_full(dtype, device, out_dims, out_ndim, 0.0,
+                           &new_tensor));
   *output = new_tensor;
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  if (tensor2_dims[0] == 0) return STATUS_SUCCESS;
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -197,11 +199,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
+  // The sum of no products is zero
+  CHECK_STATUS(aitisa_full(dtype, device, out_dims, out_ndim, 0.0,
+                           &new_tensor));
   *output = new_tensor;
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  if (tensor2_dims[ndim_tensor2 - 2] == 0) return STATUS_SUCCESS;
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
-- 
2.43.0


From 0850f2143067c641cb5d9411d2a7a3d32492cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 26/43] fix: aitisa_dot releases what it allocated when an
 allocation fails

---
 src/math/dot.c | 92 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 29 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index da21108..8a6af6a 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -84,6 +84,13 @@ static Status vector_vector_dot(const Tensor tensor1, const Tensor tensor2,
   return status;
 }
 
+/* Free the buffers, some of which may be NULL. */
+static void free_buffers(int **buffers, int n) {
+  for (int i = 0; i < n; i++) {
+    if (buffers[i]) aitisa_default_cpu_allocator()->raw_dealloc(buffers[i]);
+  }
+}
+
 static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
@@ -109,12 +116,15 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
   // The sum of no products is zero
-  CHECK_STATUS(aitisa_full(dtype, device, out_dims, out_ndim, 0.0,
-                           &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
-  if (tensor2_dims[0] == 0) return STATUS_SUCCESS;
+  if (status != STATUS_SUCCESS) return status;
+  if (tensor2_dims[0] == 0) {
+    *output = new_tensor;
+    return STATUS_SUCCESS;
+  }
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -125,7 +135,10 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   // step
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
+  int *buffers[3] = {index_recorder, size, step};
   if (!index_recorder || !size || !step) {
+    free_buffers(buffers, 3);
+    aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -140,11 +153,16 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2 = tensor2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
   for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) break;
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(&vec1);
+      break;
+    }
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -161,9 +179,12 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
     aitisa_destroy(&vec1);
     aitisa_destroy(&result);
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
+  free_buffers(buffers, 3);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
@@ -200,12 +221,15 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
   // The sum of no products is zero
-  CHECK_STATUS(aitisa_full(dtype, device, out_dims, out_ndim, 0.0,
-                           &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
-  if (tensor2_dims[ndim_tensor2 - 2] == 0) return STATUS_SUCCESS;
+  if (status != STATUS_SUCCESS) return status;
+  if (tensor2_dims[ndim_tensor2 - 2] == 0) {
+    *output = new_tensor;
+    return STATUS_SUCCESS;
+  }
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
@@ -222,8 +246,12 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor1);
   int *step_t2 = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step_t2) *
                                                            ndim_tensor2);
+  int *buffers[6] = {index_recorder_t1, size_t1, step_t1,
+                     index_recorder_t2, size_t2, step_t2};
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
+    free_buffers(buffers, 6);
+    aitisa_destroy(&new_tensor);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
@@ -246,15 +274,21 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor vec2;
   Tensor vec1;
   Tensor result;
-  void *out_data = aitisa_tensor_data(*output);
-  int data_size = aitisa_tensor_data_type(*output).size;
-  for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+  void *out_data = aitisa_tensor_data(new_tensor);
+  int data_size = aitisa_tensor_data_type(new_tensor).size;
+  for (int vec1_idx = 0; vec1_idx < nvec_tensor1 && status == STATUS_SUCCESS;
+       vec1_idx++) {
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) break;
     for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status =
+          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) break;
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) {
+        aitisa_destroy(&vec2);
+        break;
+      }
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -286,12 +320,12 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
     }
     aitisa_destroy(&vec1);
   }
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
-  aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
-  aitisa_default_cpu_allocator()->raw_dealloc(step_t1);
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
-  aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
-  aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
+  free_buffers(buffers, 6);
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 581e78edf3b4967aebcba7cd1173367a8cd08303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 27/43] fix: aitisa_batch_norm releases what it allocated when
 it fails

---
 src/nn/batch_norm.c | 285 +++++++++++++++++++++++++-------------------
 1 file changed, 163 insertions(+), 122 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..5458794 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -111,6 +111,61 @@ static void batch_norm_transport(const Tensor source, Tensor *destination,
   }
 }
 
+/*
+ * Take one sample or one channel, of which the indices begin and the size are
+ * given, out of the input, delete the given axis, and apply the equation
+ */
+static Status batch_norm_part(const Tensor input, int *begin, int *size,
+                              int *step, int64_t *axis, int64_t num_axis,
+                              const Tensor scale, const Tensor bias,
+                              const Tensor mean, const Tensor denominator,
+                              Tensor *output) {
+  Status status;
+  Tensor temp0, temp1;
+  CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
+  status = aitisa_squeeze(temp0, axis, num_axis, &temp1);
+  aitisa_destroy(&temp0);
+  if (status != STATUS_SUCCESS) return status;
+  status = aitisa_sub(temp1, mean, &temp0);
+  aitisa_destroy(&temp1);
+  if (status != STATUS_SUCCESS) return status;
+  status = aitisa_div(temp0, denominator, &temp1);
+  aitisa_destroy(&temp0);
+  if (status != STATUS_SUCCESS) return status;
+  status = aitisa_mul(scale, temp1, &temp0);
+  aitisa_destroy(&temp1);
+  if (status != STATUS_SUCCESS) return status;
+  status = aitisa_add(temp0, bias, output);
+  aitisa_destroy(&temp0);
+  return status;
+}
+
+/* Free the buffers, some of which may be NULL */
+static void free_buffers(void **buffers, int n) {
+  for (int i = 0; i < n; i++) {
+    if (buffers[i]) aitisa_default_cpu_allocator()->raw_dealloc(buffers[i]);
+  }
+}
+
+/* Create an array of tensors which have not been created yet */
+static Tensor *create_tensor_array(int64_t n) {
+  Tensor *array =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*array) * n);
+  for (int64_t i = 0; array && i < n; i++) {
+    array[i] = NULL;
+  }
+  return array;
+}
+
+/* Destroy an array of tensors, which may be NULL */
+static void destroy_tensor_array(Tensor *array, int64_t n) {
+  if (!array) return;
+  for (int64_t i = 0; i < n; i++) {
+    aitisa_destroy(&array[i]);
+  }
+  aitisa_default_cpu_allocator()->raw_dealloc(array);
+}
+
 static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
                                          const Tensor bias, const Tensor mean,
                                          const Tensor denominator,
@@ -122,35 +177,31 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  void *buffers[4] = {begin, size, step, axis};
+  if (!begin || !size || !step || !axis) {
+    free_buffers(buffers, 4);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
+  Status status = STATUS_SUCCESS;
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    Tensor temp1;
+    status = batch_norm_part(input, begin, size, step, axis, num_axis, scale,
+                             bias, mean, denominator, &temp1);
+    if (status != STATUS_SUCCESS) break;
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,16 +209,13 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    aitisa_destroy(&temp1);
     // Update begin
     begin[0]++;
   }
   // Destroy parameters for slice and squeeze
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
-  aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  free_buffers(buffers, 4);
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -185,28 +233,31 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
+  void *buffers[6] = {begin, size, step,
+                      squeeze_axis, index_recorder, offset_recorder};
+  if (!begin || !step || !size ||
+      !squeeze_axis || !index_recorder || !offset_recorder) {
+    free_buffers(buffers, 6);
     return STATUS_ALLOC_FAILED;
   }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
+  }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -215,43 +266,32 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     offset_recorder[i] = offset_recorder[i + 1] * dims[i + 1];
   }
   // Implement batch norm
-  for (int64_t s = 0; s < batch_size; s++) {
+  Status status = STATUS_SUCCESS;
+  for (int64_t s = 0; s < batch_size && status == STATUS_SUCCESS; s++) {
     // Set begin
     begin[0] = (int)s;
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
+      Tensor temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
       // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      status = batch_norm_part(input, begin, size, step, squeeze_axis,
+                               num_saxis, scale_array[c], bias_array[c],
+                               mean_array[c], denominator[c], &temp1);
+      if (status != STATUS_SUCCESS) break;
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
-      // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      // Destroy temp1
+      aitisa_destroy(&temp1);
     }
   }
   // Destroy parameters for slice and squeeze
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
-  aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
-  aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
-  aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  free_buffers(buffers, 6);
+  return status;
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
@@ -277,11 +317,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     CHECK_STATUS(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
-    // Destroy epsilon and temp tensor
+    Status status = aitisa_add(variance, eps_tensor, &temp);
     aitisa_destroy(&eps_tensor);
+    if (status != STATUS_SUCCESS) return status;
+    status = aitisa_sqrt(temp, *denominator);
     aitisa_destroy(&temp);
+    return status;
   }else if (in_ndim > 2) {
     // The case with channel
     int64_t *in_dims = aitisa_tensor_dims(input);
@@ -302,38 +343,34 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       }
     }
     // Get epsilon tensor
-    Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    Tensor eps_tensor = NULL;
+    Status status = aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
+                                &eps_tensor);
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
-    *mean_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**mean_array) * num_channels);
-    *scale_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**scale_array) * num_channels);
-    *bias_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**bias_array) * num_channels);
-    *denominator = NULL;
-    *denominator = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**denominator) * num_channels);
-    Tensor *temp = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(**temp) * num_channels); 
-    Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
-        sizeof(*var_array) * num_channels);
-    if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
-      return STATUS_ALLOC_FAILED;
-    } 
-    for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &(var_array[c])));
+    *mean_array = create_tensor_array(num_channels);
+    *scale_array = create_tensor_array(num_channels);
+    *bias_array = create_tensor_array(num_channels);
+    *denominator = create_tensor_array(num_channels);
+    if (status == STATUS_SUCCESS && (!*mean_array || !*scale_array ||
+                                     !*bias_array || !*denominator)) {
+      status = STATUS_ALLOC_FAILED;
+    }
+    for (uint32_t c = 0; c < num_channels && status == STATUS_SUCCESS; c++) {
+      Tensor temp = NULL, var = NULL;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*mean_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*scale_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*bias_array)[c]));
+      if (status != STATUS_SUCCESS) break;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &var);
+      if (status != STATUS_SUCCESS) break;
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
       char *mean_data = aitisa_tensor_data(mean);
@@ -341,7 +378,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       char *scale_data = aitisa_tensor_data(scale);
       char *bias_array_c_data = aitisa_tensor_data((*bias_array)[c]);
       char *bias_data = aitisa_tensor_data(bias);
-      char *var_array_c_data = aitisa_tensor_data(var_array[c]);
+      char *var_array_c_data = aitisa_tensor_data(var);
       char *var_data = aitisa_tensor_data(variance);
       for (uint32_t i = 0; i < tensor_size; i++) {
         memcpy((void *)(mean_array_c_data + i * ele_size),
@@ -353,18 +390,17 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         memcpy((void *)(var_array_c_data + i * ele_size),
                (void *)(var_data + c * ele_size), ele_size);
       }
-      // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
-      aitisa_destroy(&(var_array[c]));
+      // sqrt(var + epsilon_tensor)
+      status = aitisa_add(var, eps_tensor, &temp);
+      if (status == STATUS_SUCCESS) {
+        status = aitisa_sqrt(temp, &((*denominator)[c]));
+      }
+      aitisa_destroy(&var);
+      aitisa_destroy(&temp);
     }
     aitisa_destroy(&eps_tensor);
-    aitisa_default_cpu_allocator()->raw_dealloc(var_array);
     aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&temp[i]);
-    }
-    aitisa_default_cpu_allocator()->raw_dealloc(temp);
+    return status;
   }
   return STATUS_SUCCESS;
 }
@@ -377,40 +413,45 @@ Status aitisa_batch_norm(const Tensor input, const int axis, const Tensor scale,
   CHECK_STATUS(batch_norm_check_parameters(input, axis, scale, bias, mean,
                                            variance, epsilon));
   // Create output
-  CHECK_STATUS(batch_norm_create_output(input, output));
+  Tensor new_tensor;
+  CHECK_STATUS(batch_norm_create_output(input, &new_tensor));
   // Implement batch normalization
   Status status;
   int64_t ndim = aitisa_tensor_ndim(input);
-  Tensor *scale_array, *bias_array, *mean_array, *denominators;
+  Tensor *scale_array = NULL, *bias_array = NULL, *mean_array = NULL;
+  Tensor *denominators = NULL;
   if (ndim == 2) {
     // Get denominator which is sqrt(variance+epsilon)
-    Tensor denominator;
+    Tensor denominator = NULL;
     Tensor *denominator_ptr = &denominator;
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominator_ptr));
-    status = batch_norm_without_channel(input, scale, bias, mean, denominator,
-                                        output);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominator_ptr);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_without_channel(input, scale, bias, mean, denominator,
+                                          &new_tensor);
+    }
     aitisa_destroy(&denominator);
   } else if (ndim > 2 && ndim < 6) {
-    CHECK_STATUS(get_intermediate_tensors(input, axis, scale, &scale_array,
-                                          bias, &bias_array, mean, &mean_array,
-                                          variance, epsilon, &denominators));
-    status = batch_norm_with_channel(input, axis, scale_array, bias_array,
-                                     mean_array, denominators, output);
-    int64_t num_channels = aitisa_tensor_dim(input, axis);
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&scale_array[i]);
-      aitisa_destroy(&bias_array[i]);
-      aitisa_destroy(&mean_array[i]);
-      aitisa_destroy(&denominators[i]);
+    status = get_intermediate_tensors(input, axis, scale, &scale_array,
+                                      bias, &bias_array, mean, &mean_array,
+                                      variance, epsilon, &denominators);
+    if (status == STATUS_SUCCESS) {
+      status = batch_norm_with_channel(input, axis, scale_array, bias_array,
+                                       mean_array, denominators, &new_tensor);
     }
-    aitisa_default_cpu_allocator()->raw_dealloc(scale_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(bias_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(mean_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(denominators);
+    int64_t num_channels = aitisa_tensor_dim(input, axis);
+    destroy_tensor_array(scale_array, num_channels);
+    destroy_tensor_array(bias_array, num_channels);
+    destroy_tensor_array(mean_array, num_channels);
+    destroy_tensor_array(denominators, num_channels);
   } else {
     status = STATUS_DIMENSIONS_MISMATCH;
   }
+  if (status != STATUS_SUCCESS) {
+    aitisa_destroy(&new_tensor);
+    return status;
+  }
+  *output = new_tensor;
   return status;
 }
-- 
2.43.0


From 66755c3e493f796906463a2eec8df60ddeed3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 28/43] fix: max pooling of negative elements does not give
 zero

---
 src/nn/pooling.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..24847dd 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -9,7 +9,7 @@
     temp += ((typename*)in_data)[linear_idx];         \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
+    if (first || temp < ((typename*)in_data)[linear_idx]) { \
       temp = ((typename*)in_data)[linear_idx];        \
     }                                                 \
   }
@@ -109,6 +109,7 @@ static Status pooling_double(const Tensor input, const char *mode,
           index[i] = k_head[i];
         }
         double temp = 0; 
+        int first = 1;
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -124,7 +125,11 @@ static Status pooling_double(const Tensor input, const char *mode,
           // need to consider padding
           if(!padded){
             AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
+          }else if(first || temp < 0){
+            // a padded element is zero
+            if(!strcmp(mode, "max")) temp = 0;
           }
+          first = 0;
           // update index
           for(int64_t i=c_start+ndim-3; i>=c_start; i--){
             index[i] += dilation[i-c_start];
-- 
2.43.0


From 387cefa38a822cf329b0a0071300f76193b64f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 29/43] fix: aitisa_pooling rejects an unknown mode and invalid
 window parameters without leaking

---
 src/nn/pooling.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 24847dd..31c5f5b 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -34,7 +34,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  dilation[i - c_start] * (ksize[i - c_start] - 1.0);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -51,6 +51,20 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
+  // Check the parameters
+  if(strcmp(mode, "avg") && strcmp(mode, "max")){
+    return STATUS_INVALID_ARGUMENT;
+  }
+  for(int64_t i=0; i<ndim-2; i++){
+    if(ksize[i] < 1 || stride[i] < 1 || padding[i] < 0 || dilation[i] < 1){
+      return STATUS_INVALID_ARGUMENT;
+    }
+    // Check whether the kernel window is larger than a channel
+    if((ksize[i]-1)*(int64_t)dilation[i]+1 >
+       2*(int64_t)padding[i]+in_dims[i+c_start]){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   int64_t *out_dims =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims)*ndim);
   int64_t *index =
@@ -63,12 +77,6 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
-  // Check whether the kernel window is larger than a channel
-  for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
-      return STATUS_INVALID_ARGUMENT;
-    }
-  }
   // Create output
   Tensor new_tensor;
   CHECK_STATUS(
@@ -99,7 +107,7 @@ static Status pooling_double(const Tensor input, const char *mode,
       // Set k_head and k_tail according to padding and dilation
       for(int64_t i=c_start; i<c_start+ndim-2; i++){
         k_head[i] = 0 - padding[i-c_start];
-        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+        k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
       }
       int window_idx = 0;
       int hasWindow = 1;
@@ -149,12 +157,12 @@ static Status pooling_double(const Tensor input, const char *mode,
         // update k_head and k_tail
         for(int64_t i=c_start+ndim-3; i>=c_start; i--){
           k_head[i] = k_head[i] + stride[i-c_start];
-          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+          k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
           if(k_tail[i] > padding[i-c_start]+in_dims[i]-1){
             // judge if there is still window
             if(i == c_start) hasWindow = 0;
             k_head[i] = - padding[i-c_start];
-            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*dilation[i-c_start];
+            k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
           }else{
             break;
           }
-- 
2.43.0


From ffeb0ca3c7c291eadd705b0fdcc92a347762ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 30/43] fix: aitisa_pooling releases what it allocated when an
 allocation fails

---
 src/nn/pooling.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 31c5f5b..11987c3 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -79,9 +79,19 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
-    pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+  Status status = STATUS_ALLOC_FAILED;
+  if(out_dims && index && strides && out_strides && k_head && k_tail){
+    status = pooling_create_output(input, out_dims, ksize, stride,
+                   padding, dilation, axis, c_start, &new_tensor);
+  }
+  if(status != STATUS_SUCCESS){
+    int64_t *buffers[6] = {out_dims, index, k_head, k_tail, strides,
+                           out_strides};
+    for(int i=0; i<6; i++){
+      if(buffers[i]) aitisa_default_cpu_allocator()->raw_dealloc(buffers[i]);
+    }
+    return status;
+  }
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
-- 
2.43.0


From 5d526d8303574eff047f2f000ab157364b44c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 31/43] fix: aitisa_conv rejects a filter or parameters that do
 not fit the input

---
 src/nn/conv.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index cfd8f0e..0959111 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,11 +16,41 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
 
+/* Check whether the filter and the parameters fit the input. */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation, const int groups) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  if (aitisa_tensor_data_type(filter).code !=
+      aitisa_tensor_data_type(input).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  if (ndim < 3 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  if (groups < 1) return STATUS_INVALID_ARGUMENT;
+  if (fil_dims[1] != in_dims[1]) return STATUS_DIMENSIONS_MISMATCH;
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1 ||
+        fil_dims[d] < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    // The window should not be larger than the padded input
+    if ((fil_dims[d] - 1) * dilation[d - 2] + 1 >
+        in_dims[d] + 2 * (int64_t)padding[d - 2]) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -139,6 +169,8 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
                    const int *padding, const int *dilation, const int groups,
                    Tensor *output_ptr) {
   DataType dtype = aitisa_tensor_data_type(input);
+  CHECK_STATUS(
+      conv_check_parameters(input, filter, stride, padding, dilation, groups));
   switch (dtype.code) {
     case TYPE_FLOAT:
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-- 
2.43.0


From 55dec149ebd5061e3d4f7ef2d8732bc80d5497bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 32/43] fix: aitisa_conv without input channels initialises its
 output

---
 src/nn/conv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 0959111..18770d2 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -141,10 +141,11 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
               tmp += in_data[in_offset] * fil_data[fil_offset];
             }
           }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
         }
+        // Also without any channel, the sum of no products is zero
+        int64_t out_offset =
+            aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+        out_data[out_offset] = tmp;
       }
     }
   }
-- 
2.43.0


From 10a8c451f71dccdd3ab5a639c2a47941af944c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 33/43] fix: aitisa_conv honours groups instead of ignoring it

---
 src/nn/conv.c | 11 +++++++----
 src/nn/conv.h |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 18770d2..78b7842 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -35,8 +35,11 @@ static Status conv_check_parameters(const Tensor input, const Tensor filter,
   if (ndim < 3 || aitisa_tensor_ndim(filter) != ndim) {
     return STATUS_DIMENSIONS_MISMATCH;
   }
-  if (groups < 1) return STATUS_INVALID_ARGUMENT;
-  if (fil_dims[1] != in_dims[1]) return STATUS_DIMENSIONS_MISMATCH;
+  // Both the input and the output channels are split into groups
+  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (fil_dims[1] != in_dims[1] / groups) return STATUS_DIMENSIONS_MISMATCH;
   for (int64_t d = 2; d < ndim; ++d) {
     if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1 ||
         fil_dims[d] < 1) {
@@ -99,7 +102,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
 
   int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  int64_t in_chan = aitisa_tensor_dim(input, 1) / groups;
   int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
   int64_t sdim = ndim - 2;
 
@@ -117,7 +120,7 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
 
         float tmp = 0.0;
         for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
+          in_coords[1] = oc / (out_chan / groups) * in_chan + ic;
           for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
             aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
             fil_coords[0] = oc;
diff --git a/src/nn/conv.h b/src/nn/conv.h
index 30858b7..cd25027 100644
--- a/src/nn/conv.h
+++ b/src/nn/conv.h
@@ -8,16 +8,16 @@
  *
  * @param input The input tensor of a shape [num_batches, in_channels,
  *              in_spatial_shapes].
- * @param filter The filter tensor of a shape [out_channnels, in_channels,
- *               in_spatial_shapes].
+ * @param filter The filter tensor of a shape [out_channnels, in_channels /
+ *               groups, in_spatial_shapes].
  * @param stride The stride of a shape [spatial_shapes] each of which is >= 1.
  * @param padding The padding of a shape [spatial_shapes] each of which is >=
  *                0. The left and right of each dimension use the same padding *
  *                width.
  * @param dilation The dilation of a shape [spatial_shapes] each of which is
  *                 >= 1. This is a regular convolution if all values are 1.
- * @param groups An integer used to split input into groups, in_channels should
- *               be divisible by the number of groups.
+ * @param groups An integer used to split input into groups, in_channels and
+ *               out_channels should be divisible by the number of groups.
  * @param output The output tensor pointer of a shape [num_batches,
  *               out_channels, * * out_spatial_shapes].
  * @return Status The Status enum indicates whether the routine is OK.
-- 
2.43.0


From 3503a327187c50cdb891d8770e7b7d59ca74fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 34/43] fix: aitisa_conv2d and aitisa_conv3d do not read past
 parameter arrays that are too short

---
 src/nn/conv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 78b7842..7b6df21 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -194,6 +194,9 @@ Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
   if(ndim != 4){
     return STATUS_DIMENSIONS_MISMATCH;
   }
+  if(stride_len != 2 || padding_len != 2 || dilation_len != 2){
+    return STATUS_INVALID_ARGUMENT;
+  }
 
   return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
 }
@@ -206,6 +209,9 @@ Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
   if(ndim != 5){
     return STATUS_DIMENSIONS_MISMATCH;
   }
+  if(stride_len != 3 || padding_len != 3 || dilation_len != 3){
+    return STATUS_INVALID_ARGUMENT;
+  }
 
   return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
 }
-- 
2.43.0


From b48219059b60632238a7f5f8028e3919fc79dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 35/43] fix: aitisa_conv releases what it allocated when an
 allocation fails

---
 src/nn/conv.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 7b6df21..16b0941 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -79,14 +79,28 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
 
-  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
+  int64_t *buffers[8] = {out_dims, in_coords, fil_coords, out_coords,
+                         tmp_coords, in_strides, fil_strides, out_strides};
+  Status status = STATUS_SUCCESS;
+  for (int i = 0; i < 8; ++i) {
+    if (!buffers[i]) status = STATUS_ALLOC_FAILED;
+  }
 
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  if (status == STATUS_SUCCESS) {
+    conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim,
+                     out_dims);
+    status = aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  }
+  if (status != STATUS_SUCCESS) {
+    for (int i = 0; i < 8; ++i) {
+      if (buffers[i]) aitisa_default_cpu_allocator()->raw_dealloc(buffers[i]);
+    }
+    return status;
+  }
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
-- 
2.43.0


From 00c61e9de49764af921d0ef09ef9021e27d015cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 36/43] fix: binary operations dereferenced null when their
 temporaries could not be allocated

---
 src/math/binary_op.c | 88 ++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index 377dc1a..a12419c 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -225,25 +225,29 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
-  CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+  DataType dtype = aitisa_tensor_data_type(tensor1);
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  Status status = aitisa_create(dtype, aitisa_tensor_device(tensor1),
+                                dims_tensor1, ndim_tensor1, NULL, 0, output);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(a);
+    return status;
+  }
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
 
@@ -271,25 +275,29 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
-  CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+  DataType dtype = aitisa_tensor_data_type(tensor1);
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  Status status = aitisa_create(dtype, aitisa_tensor_device(tensor1),
+                                dims_tensor1, ndim_tensor1, NULL, 0, output);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(a);
+    return status;
+  }
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
 
@@ -317,25 +325,29 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
     }
   }
   // create output
-  CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+  DataType dtype = aitisa_tensor_data_type(tensor1);
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  Status status = aitisa_create(dtype, aitisa_tensor_device(tensor1),
+                                dims_tensor1, ndim_tensor1, NULL, 0, output);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(a);
+    return status;
+  }
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
 
@@ -396,24 +408,28 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
                                   aitisa_tensor_data(tensor2),
                                   aitisa_tensor_size(tensor1)));
   // create output
-  CHECK_STATUS(aitisa_create(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1),
-                             dims_tensor1, ndim_tensor1, NULL, 0, output));
+  DataType dtype = aitisa_tensor_data_type(tensor1);
+  char *a = aitisa_default_cpu_allocator()->raw_alloc(3 * dtype.size);
+  if (!a) {
+    return STATUS_ALLOC_FAILED;
+  }
+  char *b = a + dtype.size, *c = b + dtype.size;
+  Status status = aitisa_create(dtype, aitisa_tensor_device(tensor1),
+                                dims_tensor1, ndim_tensor1, NULL, 0, output);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(a);
+    return status;
+  }
   int64_t size = aitisa_tensor_size(tensor1);
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  DataType dtype = aitisa_tensor_data_type(tensor1);
-  void *a = malloc(dtype.size), *b = malloc(dtype.size),
-       *c = malloc(dtype.size);
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
     aitisa_set_typed_array_value_func(dtype)(data_output, i, c);
   }
-  free(a);
-  free(b);
-  free(c);
+  aitisa_default_cpu_allocator()->raw_dealloc(a);
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From 9b7b6fa803b86b35c47e13080ed827c6cdf659c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 37/43] fix: aitisa_full of more than 2^31 elements

---
 src/basic/factories.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/factories.c b/src/basic/factories.c
index ce0b7d3..5038bad 100644
--- a/src/basic/factories.c
+++ b/src/basic/factories.c
@@ -7,7 +7,7 @@ Status aitisa_full(DataType dtype, Device device, int64_t *dims, int64_t ndim,
       aitisa_create(dtype, device,  dims, ndim, NULL, 0, &new_tensor));
   int64_t size = aitisa_tensor_size(new_tensor);
   aitisa_castto_typed_value_func(dtype)(&value, &value);
-  for (int i = 0; i < size; ++i) {
+  for (int64_t i = 0; i < size; ++i) {
     aitisa_tensor_set_item(new_tensor, i, &value);
   }
   *output = new_tensor;
-- 
2.43.0


From e756e829e07e329414b19beb4f636e199fcd7278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 38/43] fix: element-wise operations on more than 2^31 elements

---
 src/math/binary_op.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index a12419c..931d80e 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -241,7 +241,7 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_ADD, c);
@@ -291,7 +291,7 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_SUB, c);
@@ -341,7 +341,7 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_MUL, c);
@@ -424,7 +424,7 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   void *data_tensor1 = aitisa_tensor_data(tensor1);
   void *data_tensor2 = aitisa_tensor_data(tensor2);
   void *data_output = aitisa_tensor_data(*output);
-  for (int i = 0; i < size; i++) {
+  for (int64_t i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
     aitisa_binary_op_func(dtype)(a, b, OP_DIV, c);
-- 
2.43.0


From d8ac11f713658cc62bce625875a19da8250ff0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 39/43] fix: slices of more than 2^31 elements

---
 src/basic/slice.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index eaa756a..f55694a 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -70,7 +70,8 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   typename *in_data = (typename *)aitisa_tensor_data(input);                  \
   typename *out_data = (typename *)aitisa_tensor_data(*output);               \
   int64_t out_size = aitisa_tensor_size(*output);                             \
-  for (int out_linear_idx = 0; out_linear_idx < out_size; out_linear_idx++) { \
+  for (int64_t out_linear_idx = 0; out_linear_idx < out_size;                 \
+       out_linear_idx++) {                                                    \
     /* Get the linear index of input data element */                          \
     int64_t in_linear_idx = 0;                                                \
     for (int i = 0; i < in_ndim; i++) {                                       \
-- 
2.43.0


From a46ffe0fd82c4865b403ca8e3f402d28a1165e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 40/43] fix: matrix products of operands of more than 2^31
 elements

---
 src/math/matmul.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 9655263..e6d5fdb 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -34,15 +34,15 @@ static void free_buffers(void **buffers, int n) {
 
 // kernel of vector-vector multiply
 #define VV_KERNEL(typename, X, Y, Z, L)                            \
-  for (int i = 0; i < L; ++i) {                                    \
+  for (int64_t i = 0; i < L; ++i) {                                \
     ((typename *)Z)[0] +=                                          \
         (typename)(1u * ((typename *)X)[i] * ((typename *)Y)[i]);  \
   }
 
 // kernel of matrix-vector multiply
 #define MV_KERNEL(typename, A, X, B, M, N)                                   \
-  for (int i = 0; i < M; ++i) {                                              \
-    for (int j = 0; j < N; ++j) {                                            \
+  for (int64_t i = 0; i < M; ++i) {                                          \
+    for (int64_t j = 0; j < N; ++j) {                                        \
       ((typename *)B)[i] += (typename)(1u * ((typename *)A)[i * N + j] *     \
                                        ((typename *)X)[j]);                  \
     }                                                                        \
@@ -50,9 +50,9 @@ static void free_buffers(void **buffers, int n) {
 
 // kernel of matrix-matrix multiply
 #define MM_KERNEL(typename, A, B, C, M, K, N)                        \
-  for (int i = 0; i < M; ++i) {                                      \
-    for (int j = 0; j < N; ++j) {                                    \
-      for (int q = 0; q < K; ++q) {                                  \
+  for (int64_t i = 0; i < M; ++i) {                                  \
+    for (int64_t j = 0; j < N; ++j) {                                \
+      for (int64_t q = 0; q < K; ++q) {                              \
         ((typename *)C)[i * N + j] +=                                \
             (typename)(1u * ((typename *)A)[i * K + q] *             \
                        ((typename *)B)[q * N + j]);                  \
-- 
2.43.0


From 9b85dd8dba78565f49c64ce201cfc9acc36cadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 41/43] fix: dot products of more than 2^31 elements

---
 src/math/dot.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 8a6af6a..a886c35 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -10,7 +10,7 @@
 
 #define dot_kernel(typename, data1, data2, size, data_out) \
   ((typename *)data_out)[0] = 0;                           \
-  for (int i = 0; i < size; i++) {                         \
+  for (int64_t i = 0; i < size; i++) {                     \
     ((typename *)data_out)[0] +=                           \
         (typename)(1u * ((typename *)data1)[i] *           \
                    ((typename *)data2)[i]);                \
@@ -155,7 +155,7 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(new_tensor);
   int data_size = aitisa_tensor_data_type(new_tensor).size;
-  for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
+  for (int64_t vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
     status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
     if (status != STATUS_SUCCESS) break;
     status = vector_vector_dot(vec1, vec2, &result);
@@ -276,11 +276,11 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   Tensor result;
   void *out_data = aitisa_tensor_data(new_tensor);
   int data_size = aitisa_tensor_data_type(new_tensor).size;
-  for (int vec1_idx = 0; vec1_idx < nvec_tensor1 && status == STATUS_SUCCESS;
-       vec1_idx++) {
+  for (int64_t vec1_idx = 0;
+       vec1_idx < nvec_tensor1 && status == STATUS_SUCCESS; vec1_idx++) {
     status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
     if (status != STATUS_SUCCESS) break;
-    for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
+    for (int64_t vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
       status =
           aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
       if (status != STATUS_SUCCESS) break;
-- 
2.43.0


From 08bac9330ad7a90484e270f7f106240c012f00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 42/43] fix: duplicating a tensor with an extent of zero or
 above INT_MAX

---
 src/basic/duplicate.c | 31 ++++---------------------------
 1 file changed, 4 insertions(+), 27 deletions(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 023614f..aa80d28 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -1,31 +1,8 @@
 #include "src/basic/duplicate.h"
-#include "src/basic/slice.h"
-#include "src/core/allocator.h"
+#include "src/basic/reshape.h"
 
 Status aitisa_duplicate(const Tensor input, Tensor *output) {
-  Tensor new_tensor;
-  int64_t *dims = aitisa_tensor_dims(input);
-  int ndim = (int)(aitisa_tensor_ndim(input));
-  int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
-  int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
-  int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) {
-    if (begin) aitisa_default_cpu_allocator()->raw_dealloc(begin);
-    if (size) aitisa_default_cpu_allocator()->raw_dealloc(size);
-    if (step) aitisa_default_cpu_allocator()->raw_dealloc(step);
-    return STATUS_ALLOC_FAILED;
-  }
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    size[i] = (int)(dims[i]);
-    step[i] = 1;
-  }
-  Status status = aitisa_slice(input, begin, size, step, &new_tensor);
-  if (status == STATUS_SUCCESS) {
-    *output = new_tensor;
-  }
-  aitisa_default_cpu_allocator()->raw_dealloc(begin);
-  aitisa_default_cpu_allocator()->raw_dealloc(size);
-  aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return status;
+  // A slice takes no extents of zero or above INT_MAX, the same shape does
+  return aitisa_reshape(input, aitisa_tensor_dims(input),
+                        aitisa_tensor_ndim(input), output);
 }
-- 
2.43.0


From 0207d4d7d8cf692509d2a58b16ac045d440c9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 43/43] fix: pooling with more than 2^31 windows in a channel

---
 src/nn/pooling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 11987c3..feccf13 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -119,7 +119,7 @@ static Status pooling_double(const Tensor input, const char *mode,
         k_head[i] = 0 - padding[i-c_start];
         k_tail[i] = k_head[i]+(ksize[i-c_start]-1)*(int64_t)dilation[i-c_start];
       }
-      int window_idx = 0;
+      int64_t window_idx = 0;
       int hasWindow = 1;
       while(hasWindow){
         // set index
-- 
2.43.0

