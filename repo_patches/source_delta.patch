From eada1623a3ec23a4899ffa6ec9bed13b464b1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 001/103] fix: COL2IM checks the column against the image width

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From cce21bcadc489173b6990b87ba1835523b455052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 002/103] fix: pooling of a region without a value above the
 lowest finite float

---
 src/net/AdvancedMaxPoolingLayer.cpp | 6 +++---
 src/net/MaxPoolingLayer.cpp         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..1fff2b0 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -142,9 +142,9 @@ void AdvancedMaxPoolingLayer::FeedForward() {
       for (unsigned int ox = 0; ox < output_width_; ox++) {
         for (unsigned int oy = 0; oy < output_height_; oy++) {
           // Find maximum in region
-          datum maximum = std::numeric_limits<datum>::lowest();
-          unsigned int mix = 0;
-          unsigned int miy = 0;
+          unsigned int mix = ox * stride_width_;
+          unsigned int miy = oy * stride_height_;
+          datum maximum = *input_->data.data_ptr_const (mix, miy, map, sample);
           for (unsigned int iy = oy * stride_height_;
                 iy < (oy * stride_height_) + region_height_; iy++) {
             for (unsigned int ix = ox * stride_width_;
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..5ca38a1 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -144,9 +144,9 @@ void MaxPoolingLayer::FeedForward() {
       for (unsigned int ox = 0; ox < output_width_; ox++) {
         for (unsigned int oy = 0; oy < output_height_; oy++) {
           // Find maximum in region
-          datum maximum = std::numeric_limits<datum>::lowest();
-          unsigned int mix = 0;
-          unsigned int miy = 0;
+          unsigned int mix = ox * region_width_;
+          unsigned int miy = oy * region_height_;
+          datum maximum = *input_->data.data_ptr_const (mix, miy, map, sample);
           for (unsigned int ix = ox * region_width_;
                ix < (ox + 1) * region_width_; ix++) {
             for (unsigned int iy = oy * region_height_;
-- 
2.43.0


From 5e06044f36206cbf947e0218b1c6cafe19526ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 003/103] fix: local response normalization covers the whole
 width of the image

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From f7c3e21bc022055407718bacc8b1c1d36285d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 004/103] fix: h-max weight gradients use the incoming gradient

---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..aa707f2 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -168,8 +168,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From ee14e78e2158b96da49a07279a3c1d8f6e4b30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 005/103] fix: h-max gradient of a saturated unit is not NaN

---
 src/net/HMaxActivationFunction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index aa707f2..a6d3494 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -176,7 +176,9 @@ void HMaxActivationFunction::BackPropagate() {
     // weighted by lambda_sparse_regularization
     // d/(dx) o log o = do/dx * log o + o * do/dx * o^-1
     //                = do/dx ( log o + 1 )
-    input_delta += lambda_sparse_regularization * ( output_mix * (log(output_data) + 1) );
+    // (o log o vanishes with o, but 0 * log(0) is not a number)
+    if(output_data > 0)
+      input_delta += lambda_sparse_regularization * ( output_mix * (log(output_data) + 1) );
     input_delta += lambda_sparse_regularization * output_mix / mu_;
 
     input_->delta.data_ptr() [element] = input_delta;
-- 
2.43.0


From 62871eb26f436704ba7557054f0d8bfe0f40cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 006/103] fix: sum and concatenation layers refuse inputs and
 outputs of different sizes

---
 src/net/ConcatenationLayer.cpp | 14 ++++++++++++--
 src/net/SumLayer.cpp           | 16 +++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..8665d75 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -79,7 +80,16 @@ bool ConcatenationLayer::Connect (const std::vector< CombinedTensor* >& inputs,
     return false;
   }
   
-  if(output->data.elements() != (input_a->data.elements() + input_b->data.elements())) {
+  if(input_a->data.width() != input_b->data.width()
+    || input_a->data.height() != input_b->data.height()) {
+    LOGERROR << "Dimensions don't match!";
+    return false;
+  }
+  
+  if(output->data.samples() != input_a->data.samples()
+    || output->data.width() != input_a->data.width()
+    || output->data.height() != input_a->data.height()
+    || output->data.maps() != input_a->data.maps() + input_b->data.maps()) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..6b2dce9 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -86,8 +87,17 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
     return false;
   }
   
-  if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+  if(input_a->data.width() != input_b->data.width()
+    || input_a->data.height() != input_b->data.height()
+    || input_a->data.maps() != input_b->data.maps()) {
+    LOGERROR << "Dimensions don't match!";
+    return false;
+  }
+  
+  if(output->data.samples() != input_a->data.samples()
+    || output->data.width() != input_a->data.width()
+    || output->data.height() != input_a->data.height()
+    || output->data.maps() != input_a->data.maps()) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From 9c010bc00a3f9f32218c14a465d8344299a99e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 007/103] fix: gradient accumulation refuses null inputs and
 outputs of another size

---
 src/net/GradientAccumulationLayer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 70fa9e5..ef09e6f 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -34,6 +34,12 @@ bool GradientAccumulationLayer::CreateOutputs (const std::vector< CombinedTensor
   }
   
   CombinedTensor* input = inputs[0];
+  
+  if(input == nullptr) {
+    LOGERROR << "Null pointer supplied";
+    return false;
+  }
+  
   for(unsigned int i = 0; i < output_count_; i++) {
     CombinedTensor* output = new CombinedTensor(input->data.samples(),
                                                 input->data.width(),
@@ -76,12 +82,16 @@ bool GradientAccumulationLayer::Connect (const std::vector< CombinedTensor* >& i
       LOGERROR << "Sample count doesn't match!";
       return false;
     }
-    if(input->data.elements() != outputs[i]->data.elements()) {
+    if(input->data.width() != outputs[i]->data.width()
+      || input->data.height() != outputs[i]->data.height()
+      || input->data.maps() != outputs[i]->data.maps()) {
       LOGERROR << "Wrong output dimensions!";
+      return false;
     }
-    outputs_.push_back(outputs[i]);
   }
   
+  outputs_ = outputs;
+  
   samples_ = input->data.samples();
   elements_per_sample_ = input->data.width() * input->data.height() * input->data.maps();
   input_ = input;
-- 
2.43.0


From 4f6e83c034f33be489a473b86ff984f5714b979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 008/103] fix: the loss layer refuses inputs of different width
 or height

---
 src/net/ErrorLayer.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index cbd0450..2b4a238 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -55,6 +55,14 @@ bool ErrorLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inputs,
     return false;
   }
 
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       first->data.width() != third->data.width() ||
+       first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same width and height!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
@@ -67,15 +75,19 @@ bool ErrorLayer::Connect ( const std::vector< CombinedTensor* >& inputs,
   if ( inputs.size() != 3 )
     return false;
 
-  // Also, the two inputs have to have the same number of samples and elements!
-  // We ignore the shape for now...
+  // Also, the two inputs have to have the same number of samples and elements,
+  // and there has to be a weight for every pixel!
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               first->data.width() == second->data.width() &&
+               first->data.height() == second->data.height() &&
+               first->data.width() == third->data.width() &&
+               first->data.height() == third->data.height() &&
                outputs.size() == 0;
 
   if ( valid ) {
-- 
2.43.0


From 065573ae90963fe16ea78d63cfc0ae07cbd30c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 009/103] fix: reference GEMV uses the dimensions of the matrix
 before transposition, like BLAS

---
 src/math/TensorMath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..c6037fd 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -135,10 +135,14 @@ void TensorMath::GEMV(const bool is_row_major, const bool transpose_A, const int
   const datum* x_ptr = X.data_ptr_const(0, 0, 0, smX);
   datum* y_ptr = Y.data_ptr(0, 0, 0, smY);
   
+  // A is an M x N matrix, so its transpose has N rows and M columns
+  const int rows = transpose_A ? N : M;
+  const int columns = transpose_A ? M : N;
+  
   #pragma omp parallel for default(shared)
-  for(int i = 0; i < M; i++) {
+  for(int i = 0; i < rows; i++) {
     datum sum = 0.0;
-    for(int j = 0; j < N; j++) {
+    for(int j = 0; j < columns; j++) {
       const datum a_value = transpose_A ?
         a_ptr[j * ldA + i]
       :
-- 
2.43.0


From 76236dd988911296bdd100c14b59cd3f67ab8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 010/103] fix: CopyMap refuses map indices out of range

---
 src/util/Tensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..0102562 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -349,6 +349,10 @@ bool Tensor::CopyMap ( const Tensor& source, const std::size_t source_sample,
   if ( source_sample >= source.samples() || target_sample >= target.samples() )
     return false;
 
+  // Check map bounds
+  if ( source_map >= source.maps() || target_map >= target.maps() )
+    return false;
+
   // Check if image dimensions match
   if ( source.width() != target.width() || source.height() != target.height() ) {
     if ( target.width() < source.width() || target.height() < source.height() )
-- 
2.43.0


From 88248a68bf0d6e626bc6e60f8e0c53e4eccee6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 011/103] fix: moving a tensor moves shadow and memory-map
 ownership

---
 src/util/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 0102562..1f7148a 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -73,8 +73,14 @@ Tensor::Tensor ( Tensor && tensor ) {
   width_ = tensor.width_;
   height_ = tensor.height_;
   elements_ = tensor.elements_;
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
 
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From e480b79e878696b222054d2879e89fdbe053ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 012/103] fix: compression keeps the sign of zeros

---
 src/util/CompressedTensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..3ad219b 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -225,10 +225,13 @@ void CompressedTensor::CompressData(void* uncompressed, const std::size_t& uncom
   const datum* data_ptr_const = (const datum*) uncompressed;
   
   for(std::size_t pos = 0; pos <= uncompressed_elements; pos++) {
-    Conv::datum current_symbol;
+    Conv::datum current_symbol = last_symbol;
+    // Compare bits, because negative zero equals zero
+    bool same_symbol = true;
     if(pos < uncompressed_elements) {
       current_symbol = data_ptr_const[pos];
-      if(current_symbol == last_symbol) {
+      same_symbol = std::memcmp(&current_symbol, &last_symbol, sizeof(Conv::datum)) == 0;
+      if(same_symbol) {
         // Increase running length
         running_length++;
       }
@@ -241,7 +244,7 @@ void CompressedTensor::CompressData(void* uncompressed, const std::size_t& uncom
     // EOF reached
     (pos == uncompressed_elements) ||
     // Different symbol
-    (current_symbol != last_symbol) ||
+    !same_symbol ||
     // Maxmimum run length reached
     (running_length == rl_max)) {
         
-- 
2.43.0


From c2baad6d959596fc29d17a7b9681af3b6ae687b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 013/103] fix: compressed stream refuses target samples out of
 range

---
 src/util/CompressedTensorStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..df33d1d 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -69,7 +69,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 {
   if(source < tensors_.size()) {
     CompressedTensor* const ctensor = tensors_[source];
-    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
+    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1 && target_sample < target.samples()) {
       // This is a little hack for faster loading of certain datasets
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
-- 
2.43.0


From 3522d3358e55eeef9c91898dd6063c141611d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 014/103] fix: deserializing into a memory-mapped tensor unmaps
 the old mapping, not the new one

---
 src/util/CompressedTensor.cpp | 4 ++++
 src/util/Tensor.cpp           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 3ad219b..1f98ddc 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -120,6 +120,10 @@ void CompressedTensor::Serialize ( std::ostream& output ) {
 }
 
 void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap, int fd) {
+  // Memory mapped data is read-only and has to be unmapped first
+  if ( mmapped_ )
+    DeleteIfPossible();
+
   uint64_t samples = 0;
   uint64_t width = 0;
   uint64_t height = 0;
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 1f7148a..0b06541 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -274,6 +274,10 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
 #ifdef BUILD_OPENCL
   MoveToCPU ( true );
 #endif
+  // Memory mapped data is read-only and has to be unmapped first
+  if ( mmapped_ )
+    DeleteIfPossible();
+
   uint64_t samples = 0;
   uint64_t width = 0;
   uint64_t height = 0;
-- 
2.43.0


From f4790d2278fded5973a04651fa7a93ed5bbdce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 015/103] fix: reading only the header or an empty tensor sets
 the dimensions also in memory-mapping mode

---
 src/util/CompressedTensor.cpp | 2 +-
 src/util/Tensor.cpp           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 1f98ddc..9d03663 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -140,7 +140,7 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  if(!try_mmap || fd == 0 || head_only || compressed_length == 0)
 #endif
     Resize ( samples, width, height, maps, compressed_length );
     
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 0b06541..b068b4b 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -291,12 +291,12 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  std::size_t elements = samples * maps * width * height;
+
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  if(!try_mmap || fd == 0 || head_only || elements == 0)
 #endif
     Resize ( samples, width, height, maps );
-  
-  std::size_t elements = samples * maps * width * height;
 
   if ( elements > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-- 
2.43.0


From a9b7ea77b3b251755bf450f6cda03bf55637bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 016/103] fix: incomplete tensors at the end of a file are not
 presented as tensors

---
 src/util/CompressedTensor.cpp | 19 +++++++++++++++++++
 src/util/Tensor.cpp           | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 9d03663..3881887 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -139,6 +139,25 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // Check if the tensor is complete
+  bool complete = input.good();
+  if ( complete ) {
+    const std::streamoff data_start = input.tellg();
+    if ( data_start >= 0 ) {
+      input.seekg ( 0, std::ios::end );
+      const std::streamoff data_end = input.tellg();
+      input.seekg ( data_start, std::ios::beg );
+      complete = compressed_length <= ( std::size_t ) ( data_end - data_start );
+    }
+  }
+
+  if ( !complete ) {
+    LOGERROR << "Incomplete tensor in stream!";
+    input.setstate ( std::ios::eofbit | std::ios::failbit );
+    DeleteIfPossible();
+    return;
+  }
+
 #ifdef BUILD_POSIX
   if(!try_mmap || fd == 0 || head_only || compressed_length == 0)
 #endif
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index b068b4b..eb84957 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -293,6 +293,25 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
 
   std::size_t elements = samples * maps * width * height;
 
+  // Check if the tensor is complete
+  bool complete = input.good();
+  if ( complete ) {
+    const std::streamoff data_start = input.tellg();
+    if ( data_start >= 0 ) {
+      input.seekg ( 0, std::ios::end );
+      const std::streamoff data_end = input.tellg();
+      input.seekg ( data_start, std::ios::beg );
+      complete = ( elements * sizeof ( datum ) ) / sizeof ( char ) <= ( std::size_t ) ( data_end - data_start );
+    }
+  }
+
+  if ( !complete ) {
+    LOGERROR << "Incomplete tensor in stream!";
+    input.setstate ( std::ios::eofbit | std::ios::failbit );
+    DeleteIfPossible();
+    return;
+  }
+
 #ifdef BUILD_POSIX
   if(!try_mmap || fd == 0 || head_only || elements == 0)
 #endif
-- 
2.43.0


From a9e583c64a5333679b879f03755ddcd10dd20daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 017/103] fix: tensor streams close the file they memory-map

---
 src/util/CompressedTensorStream.cpp | 6 ++++++
 src/util/FloatTensorStream.cpp      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index df33d1d..f0fe311 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -12,6 +12,7 @@
 #include <fcntl.h>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #include "CompressedTensorStream.h"
@@ -59,6 +60,11 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
     std::cout << "." << std::flush;
     input_stream.peek();
   }
+
+#ifdef BUILD_POSIX
+  // Memory maps stay valid without the descriptor
+  close(input_fd);
+#endif
   
   temp_tensor_.Resize(1,max_elements_);
   return 0;
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index 443fdcf..db78a82 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -12,6 +12,7 @@
 #include <fcntl.h>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #include "FloatTensorStream.h"
@@ -49,6 +50,11 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
     std::cout << "." << std::flush;
     input_stream.peek();
   }
+
+#ifdef BUILD_POSIX
+  // Memory maps stay valid without the descriptor
+  close(input_fd);
+#endif
   return 0;
 }
 
-- 
2.43.0


From d2cb7901212ef814f564f7d517121af73f717a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 018/103] fix: list tensor streams return the result of copying
 a sample

---
 src/util/ListTensorStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..d5124a5 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,11 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From 8aff71cd79799aecdfd29d688799a1e83267ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 019/103] fix: colorize finds the best class also among scores
 that are not positive

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From be79c4346e5d46eddf65c66f40b5ac5eb4bbeeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 020/103] fix: recognize .jpeg and .Tensor files and names
 shorter than an extension

---
 src/util/Tensor.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index eb84957..ce81715 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -34,6 +34,11 @@
 
 namespace Conv {
 
+static bool HasExtension ( const std::string& filename, const std::string& extension ) {
+  return filename.length() >= extension.length()
+         && filename.compare ( filename.length() - extension.length(), extension.length(), extension ) == 0;
+}
+
 Tensor::Tensor() {
 
 }
@@ -616,8 +621,8 @@ std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sam
 void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( ( HasExtension ( filename, "png" ) )
+       || ( HasExtension ( filename, "PNG" ) )
      ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
@@ -631,10 +636,10 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( ( HasExtension ( filename, "jpg" ) )
+       || ( HasExtension ( filename, "jpeg" ) )
+       || ( HasExtension ( filename, "JPG" ) )
+       || ( HasExtension ( filename, "JPEG" ) )
      ) {
     Conv::JPGUtil::LoadFromFile ( filename, *this );
     return;
@@ -642,7 +647,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasExtension ( filename, "Tensor" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -658,8 +663,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( ( HasExtension ( filename, "png" ) )
+       || ( HasExtension ( filename, "PNG" ) )
      ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
@@ -674,10 +679,10 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( ( HasExtension ( filename, "jpg" ) )
+       || ( HasExtension ( filename, "jpeg" ) )
+       || ( HasExtension ( filename, "JPG" ) )
+       || ( HasExtension ( filename, "JPEG" ) )
      ) {
     Conv::JPGUtil::WriteToFile ( filename, *this );
     return;
@@ -685,7 +690,7 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasExtension ( filename, "Tensor" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From ab0f844f2e3f6ba85dd023187e5a4bef1ef63f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 021/103] fix: refuse to write a JPG from a tensor without
 three channels

---
 src/util/JPGUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 9c4cd99..ccfc5fb 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -79,6 +79,11 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
+  if ( tensor.samples() != 1 || tensor.maps() != 3 ) {
+    LOGERROR << "Can only write JPGs with 1 sample and 3 channels!";
+    return false;
+  }
+
   FILE* out_file = fopen(file.c_str(), "wb");
   if(out_file == NULL) {
     LOGERROR << "Cannot open " << file;
-- 
2.43.0


From a7b3c5e14be8c50f31945d7d9931a0d1b6e95fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 022/103] fix: damaged image files do not end the program

---
 src/util/JPGUtil.cpp | 29 ++++++++++++++++++++++++++---
 src/util/PNGUtil.cpp | 13 +++++++++++--
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index ccfc5fb..60193a2 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <string>
 #include <cstdio>
+#include <csetjmp>
 
 #ifdef BUILD_JPG
 #include <jpeglib.h>
@@ -20,6 +21,18 @@
 
 namespace Conv {
 
+#ifdef BUILD_JPG
+struct JPGErrorManager {
+  jpeg_error_mgr manager;
+  std::jmp_buf jump_target;
+};
+
+static void JPGErrorExit ( j_common_ptr cinfo ) {
+  // The manager is the first member
+  std::longjmp ( ( ( JPGErrorManager* ) cinfo->err )->jump_target, 1 );
+}
+#endif
+
 bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
 #ifndef BUILD_JPG
   LOGERROR << "JPG is not supported by this build!";
@@ -28,15 +41,25 @@ bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
   
   // Create decompression object
   jpeg_decompress_struct cinfo;
-  jpeg_error_mgr jerr;
-  cinfo.err = jpeg_std_error(&jerr);
-  jpeg_create_decompress(&cinfo);
+  JPGErrorManager jerr;
+  cinfo.err = jpeg_std_error(&jerr.manager);
+  jerr.manager.error_exit = JPGErrorExit;
   
   FILE* in_file = fopen(file.c_str(), "rb");
   if(in_file == NULL) {
     LOGERROR << "Cannot open " << file;
     return false;
   }
+
+  jpeg_create_decompress(&cinfo);
+
+  // libjpeg jumps here if the file is damaged
+  if(setjmp(jerr.jump_target)) {
+    LOGERROR << "JPG file is damaged: " << file;
+    jpeg_destroy_decompress(&cinfo);
+    fclose(in_file);
+    return false;
+  }
   
   jpeg_stdio_src(&cinfo, in_file);
   jpeg_read_header(&cinfo, true);
diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index c0559e1..17f7a04 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -78,6 +78,13 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     return false;
   }
 
+  // libpng jumps here if the file is damaged
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "PNG file is damaged!";
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
+    return false;
+  }
+
   // libpng cannot read streams, so we have to provide our own function
   png_set_read_fn ( png_handle, ( png_voidp ) &stream, PNGReadFromStream );
 
@@ -301,8 +308,10 @@ void PNGReadFromStream ( png_structp png_handle, png_bytep data,
   // We need our stream back
   png_voidp stream_ptr = png_get_io_ptr ( png_handle );
 
-  // Error checking is useless here :(
-  ( ( std::istream* ) stream_ptr ) -> read ( ( char* ) data, length );
+  std::istream* stream = ( std::istream* ) stream_ptr;
+  stream->read ( ( char* ) data, length );
+  if ( !stream->good() )
+    png_error ( png_handle, "Could not read from the stream!" );
 }
 
 void PNGWriteToStream ( png_structp png_handle, png_bytep data,
-- 
2.43.0


From b3d9716dd648c155611bde9441f1c234b50ddb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 023/103] fix: full-image datasets take the sizes of all
 testing images into account

---
 src/util/TensorStreamDataset.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..722b984 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -88,11 +88,12 @@ TensorStreamDataset::TensorStreamDataset (
   }
 
   for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
-    if(testing_stream_->GetWidth(2*t) > max_width_)
-      max_width_ = testing_stream_->GetWidth(2*t);
+    const unsigned int testing_t = t - (tensor_count_training_ / 2);
+    if(testing_stream_->GetWidth(2*testing_t) > max_width_)
+      max_width_ = testing_stream_->GetWidth(2*testing_t);
     
-    if(testing_stream_->GetHeight(2*t) > max_height_)
-      max_height_ = testing_stream_->GetHeight(2*t);
+    if(testing_stream_->GetHeight(2*testing_t) > max_height_)
+      max_height_ = testing_stream_->GetHeight(2*testing_t);
   }
 
   if (max_width_ & 1)
-- 
2.43.0


From ce373cd1f1ba3c416675abcafdf3a5ea68a2c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 024/103] fix: pixel coordinates of images one pixel wide or
 high are not NaN

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 722b984..a264ab5 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -206,8 +206,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -252,8 +252,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
-- 
2.43.0


From 1e8305f10ab001275d92d8ebdd8a31bdbb0eca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 025/103] fix: full-image datasets do not write into tensors
 that do not fit the sample

---
 src/util/TensorStreamDataset.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index a264ab5..72a4ae1 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -199,6 +199,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
     bool success = true;
     success &= training_stream_->CopySample(2 * index, 0, data_tensor, sample);
     success &= training_stream_->CopySample(2 * index + 1, 0, label_tensor, sample);
+    if (!success)
+      return false;
 
     unsigned int data_width = training_stream_->GetWidth(2 * index);
     unsigned int data_height = training_stream_->GetHeight(2 * index);
@@ -245,6 +247,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
     bool success = true;
     success &= testing_stream_->CopySample(2 * index, 0, data_tensor, sample);
     success &= testing_stream_->CopySample(2 * index + 1, 0, label_tensor, sample);
+    if (!success)
+      return false;
     
     unsigned int data_width = testing_stream_->GetWidth(2 * index);
     unsigned int data_height = testing_stream_->GetHeight(2 * index);
-- 
2.43.0


From 2bd22488b4de6420497c0b9530be09fc230fecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 026/103] fix: testing patches come after all training patches

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..53ab65a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From ceb9b6fa7cc59a6da22fee75040079338eaca294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 027/103] fix: patch datasets memory-map the testing file for
 testing

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 53ab65a..155cac0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From 53255ca0a76500e418ce31673fe38eb1dcd9998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 028/103] fix: images smaller than a patch contribute no
 patches

---
 src/util/TensorStreamPatchDataset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 155cac0..d21dee1 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -122,8 +122,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
 		data_[t].Deserialize(training_stream, false, true, training_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images smaller than a patch do not contain any
+		unsigned int inner_width = data_[t].width() >= patchsize_x_ ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = data_[t].height() >= patchsize_y_ ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
@@ -140,8 +141,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = (tensor_count_training_ / 2); t < tensors_; t++) {
 		data_[t].Deserialize(testing_stream, false, true, testing_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images smaller than a patch do not contain any
+		unsigned int inner_width = data_[t].width() >= patchsize_x_ ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = data_[t].height() >= patchsize_y_ ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
-- 
2.43.0


From d8f47c0dc52346abb06fa9cdf69654c71b05c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 029/103] fix: images too large for their format do not end the
 program when written

---
 src/util/JPGUtil.cpp | 14 ++++++++++++--
 src/util/PNGUtil.cpp |  7 +++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 60193a2..b9ba252 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -114,10 +114,20 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_compress_struct cinfo;
-  jpeg_error_mgr jerr;
+  JPGErrorManager jerr;
   
-  cinfo.err = jpeg_std_error(&jerr);
+  cinfo.err = jpeg_std_error(&jerr.manager);
+  jerr.manager.error_exit = JPGErrorExit;
   jpeg_create_compress(&cinfo);
+
+  // libjpeg jumps here if it cannot write the image
+  if(setjmp(jerr.jump_target)) {
+    LOGERROR << "Cannot write " << file;
+    jpeg_destroy_compress(&cinfo);
+    fclose(out_file);
+    return false;
+  }
+
   jpeg_stdio_dest(&cinfo, out_file);
   
   cinfo.image_width = tensor.width();
diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index 17f7a04..dbf6c11 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -237,6 +237,13 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
     return false;
   }
 
+  // libpng jumps here if it cannot write the image
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "Cannot write PNG!";
+    png_destroy_write_struct ( &png_handle, &png_info_handle );
+    return false;
+  }
+
   // libpng cannot write streams, so we have to provide our own function
   png_set_write_fn ( png_handle, ( png_voidp ) &stream, PNGWriteToStream, NULL );
 
-- 
2.43.0


From d08391aa25d5553f6839e1cd94fe726acf32e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 030/103] fix: importing gray label images directly does not
 read outside the image

---
 tools/makeCompressedTensorStream.cpp | 7 +++++--
 tools/makeTensorStream.cpp           | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..fecc8d9 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -117,11 +117,14 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      // gray images only have one channel
+      const unsigned int green_map = label_rgb_tensor.maps() >= 3 ? 1 : 0;
+      const unsigned int blue_map = label_rgb_tensor.maps() >= 3 ? 2 : 0;
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,green_map,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,blue_map,0 );
         }
       }
     } else if(number_of_classes == 1) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..be59f81 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -113,11 +113,14 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      // gray images only have one channel
+      const unsigned int green_map = label_rgb_tensor.maps() >= 3 ? 1 : 0;
+      const unsigned int blue_map = label_rgb_tensor.maps() >= 3 ? 2 : 0;
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,green_map,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,blue_map,0 );
         }
       }
     } else if(number_of_classes == 1) {
-- 
2.43.0


From 9e130247fec8dde2e359a058fdfc25ae43506a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 031/103] fix: settings at the start of a line are recognized
 by their whole name only

---
 src/util/ConfigParsing.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 0a7da31..c717b7e 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -18,6 +18,16 @@ bool StartsWithIdentifier ( std::string line, std::string identifier ) {
   return ( line.compare ( 0, identifier.length(), identifier ) == 0 );
 }
 
+static bool IsIdentifierCharacter ( char c ) {
+  return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || ( c >= '0' && c <= '9' ) || c == '_';
+}
+
+// Checks if the line starts with the whole identifier and has something after it
+static bool StartsWithSetting ( const std::string& line, const std::string& identifier ) {
+  return StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length()
+         && !IsIdentifierCharacter ( line[identifier.length()] );
+}
+
 unsigned int ParseUInt ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     return std::atoi ( line.substr ( identifier.length() +1 ).c_str() );
@@ -48,7 +58,7 @@ std::string ParseString ( std::string line, std::string identifier ) {
 }
 
 void ParseStringIfPossible ( std::string line, std::string identifier, std::string& value ) {
-  if ( StartsWithIdentifier ( line,identifier ) ) {
+  if ( StartsWithSetting ( line,identifier ) ) {
     value = ParseString ( line,identifier );
   }
 }
@@ -71,13 +81,13 @@ void ParseStringParamIfPossible(std::string line, std::string identifier, std::s
 
 
 void ParseDatumIfPossible ( std::string line, std::string identifier, datum& value ) {
-  if ( StartsWithIdentifier ( line,identifier ) ) {
+  if ( StartsWithSetting ( line,identifier ) ) {
     value = ParseDatum ( line,identifier );
   }
 }
 
 void ParseUIntIfPossible ( std::string line, std::string identifier, unsigned int& value ) {
-  if ( StartsWithIdentifier ( line,identifier ) ) {
+  if ( StartsWithSetting ( line,identifier ) ) {
     value = ParseUInt ( line,identifier );
   }
 }
-- 
2.43.0


From 79ac2ef83f4832c1e66d3f300dccf693361c62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 032/103] fix: parameters within a line are recognized by their
 whole name only

---
 src/util/ConfigParsing.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index c717b7e..01e3c7d 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -28,6 +28,16 @@ static bool StartsWithSetting ( const std::string& line, const std::string& iden
          && !IsIdentifierCharacter ( line[identifier.length()] );
 }
 
+// Finds "identifier=" where it is not just the end of a longer name
+static std::size_t FindParameter ( const std::string& line, const std::string& identifier ) {
+  std::size_t pos = line.find ( identifier + "=" );
+
+  while ( pos != std::string::npos && pos > 0 && IsIdentifierCharacter ( line[pos - 1] ) )
+    pos = line.find ( identifier + "=", pos + 1 );
+
+  return pos;
+}
+
 unsigned int ParseUInt ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     return std::atoi ( line.substr ( identifier.length() +1 ).c_str() );
@@ -65,7 +75,7 @@ void ParseStringIfPossible ( std::string line, std::string identifier, std::stri
 
 void ParseStringParamIfPossible(std::string line, std::string identifier, std::string& s) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -94,7 +104,7 @@ void ParseUIntIfPossible ( std::string line, std::string identifier, unsigned in
 
 void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsigned int& kx, unsigned int& ky ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -119,7 +129,7 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
 
 void ParseCountIfPossible ( std::string line, std::string identifier, unsigned int& k ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -136,7 +146,7 @@ void ParseCountIfPossible ( std::string line, std::string identifier, unsigned i
 
 void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum& k ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
-- 
2.43.0


From 43f1006a1e26804341950cb692d3bd9adc5f0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 033/103] fix: sizes are not read from the setting after them

---
 src/util/ConfigParsing.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 01e3c7d..c313894 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -109,16 +109,16 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
   if ( size_pos == std::string::npos )
     return;
 
-  std::size_t x_pos = line.find ( "x",size_pos );
-
-  if ( x_pos == std::string::npos )
-    return;
-
-  std::size_t end_pos = line.find ( " ", x_pos );
+  std::size_t end_pos = line.find ( " ", size_pos );
 
   if ( end_pos != std::string::npos )
     line = line.substr ( 0, end_pos );
 
+  std::size_t x_pos = line.find ( "x", size_pos + ilen );
+
+  if ( x_pos == std::string::npos )
+    return;
+
   std::string size = line.substr ( size_pos + ilen );
   std::string sizex = size.substr ( 0, x_pos - ( size_pos + ilen ) );
   std::string sizey = size.substr ( 1 + x_pos - ( size_pos + ilen ) );
-- 
2.43.0


From d540a05e517a44f4b4c3254e5d3da8b5ddb66bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 034/103] fix: empty decimal settings are zero

---
 src/util/ConfigParsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index c313894..3f46500 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -50,7 +50,7 @@ datum ParseDatum ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     std::stringstream ss;
     ss << line.substr ( identifier.length() +1 );
-    datum d;
+    datum d = 0;
     ss >> d;
 //    return std::strtof ( line.substr ( identifier.length() +1 ).c_str() ,nullptr);
     return d;
@@ -160,7 +160,7 @@ void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum
 
   std::stringstream ss;
   ss << size;
-  datum d;
+  datum d = 0;
   ss >> d;
   
   k = d; //std::atof ( size.c_str() );
-- 
2.43.0


From 2e7060fc2dd5b9e7a9692e97846294c03048e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 035/103] fix: training on a dataset without training samples
 is refused

---
 src/net/DatasetInputLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d3f4d70..7c315d4 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -160,6 +160,10 @@ void DatasetInputLayer::FeedForward() {
       }
 
     } else {
+      if (perm_.empty()) {
+        FATAL ("Dataset has no training samples!");
+      }
+
       // Select samples until one from the right subset is hit
       // Select a sample from the permutation
       selected_element = perm_[current_element_];
-- 
2.43.0


From 15bb004c632db1a1f4162be61ef43deff298d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 036/103] fix: statistics and sinks registered after
 initialization take part

---
 src/util/StatAggregator.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..d41fb48 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -15,6 +15,13 @@ namespace Conv {
 unsigned int StatAggregator::RegisterSink(StatSink* stat_sink)
 {
   stat_sinks_.push_back(stat_sink);
+
+  // Sinks that are registered late missed the initialization
+  if(state_ != INIT) {
+    stat_sink->Initialize(stat_descriptors_);
+    stat_sink->SetCurrentExperiment(hardcoded_stats_.current_experiment);
+  }
+
   return stat_sink_count_++;
 }
 
@@ -22,6 +29,14 @@ unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
   stat_descriptor->stat_id = stat_descriptor_count_;
+
+  // Statistics that are registered late missed the initialization
+  if(state_ != INIT) {
+    Stat stat;
+    stat_descriptor->init_function(stat);
+    stats_.push_back(stat);
+  }
+
   return stat_descriptor_count_++;
 }
 
-- 
2.43.0


From 74f986e36092afa5f25bd9907662b23ebedd88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 037/103] fix: no statistics are generated before
 initialization

---
 src/util/StatAggregator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index d41fb48..b2d6efa 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -66,6 +66,10 @@ void StatAggregator::Initialize()
 
 void StatAggregator::Generate()
 {
+  // There are no statistics before initialization
+  if(state_ == INIT)
+    return;
+
   std::vector<Stat*> output_stats;
   
   for(unsigned int s = 0; s < stat_descriptor_count_; s++) {
-- 
2.43.0


From b622037464a9337d87a9d36e52b165c768624bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 038/103] fix: reports carry the name of the current experiment

---
 src/util/StatAggregator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index b2d6efa..25c6acc 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -162,6 +162,8 @@ void StatAggregator::SetCurrentExperiment(std::string current_experiment) {
   // Only change experiment name when not recording and already initialized
   if(state_!=STOPPED)
     return;
+
+  hardcoded_stats_.current_experiment = current_experiment;
   
   // Call all StatSinks' SetCurrentExperiment method
   for(unsigned int s = 0; s < stat_sink_count_; s++) {
-- 
2.43.0


From 1e58cdfe10d81e254c42be02da302dbea4c09f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 039/103] fix: an experiment whose file cannot be created does
 not end the program

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From b187ed2a470f3f8eb0cbb8134f2617547d7dadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 040/103] fix: F1 is zero, not NaN, when there are no true
 positives

---
 src/net/BinaryStatLayer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..6f17e65 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,8 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      f1 = ( precision + recall ) > 0 ?
+           2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +151,8 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = ( precision + recall ) > 0 ?
+         2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From ef0c8f0d614faf2d4a4cdc00bf49263958c3f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 041/103] fix: recognition rates are reported also for a total
 weight below one

---
 src/net/ConfusionMatrixLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 623e8e0..899c64f 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -68,7 +68,7 @@ ConfusionMatrixLayer::ConfusionMatrixLayer (
   
 void ConfusionMatrixLayer::UpdateAll() {
   // Don't call Update(...) when there are no samples to keep the null property of the value
-  if (total_ < 1.0)
+  if (total_ <= 0.0)
     return;
   
   long double orr = 0, arr = 0, iou = 0;
-- 
2.43.0


From d1579067761318c3d43bd8af95b8cd1504606fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 042/103] fix: statistics can be reset before the confusion
 matrix layer is connected

---
 src/net/ConfusionMatrixLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 899c64f..2b0f4ed 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -209,6 +209,10 @@ void ConfusionMatrixLayer::BackPropagate() {
 
 
 void ConfusionMatrixLayer::Reset() {
+  // There is nothing to reset before the layer is connected
+  if ( matrix_ == nullptr )
+    return;
+
   for ( unsigned int c = 0; c < ( classes_ * classes_ ); c++ ) {
     matrix_[c] = 0;
   }
-- 
2.43.0


From 8529dd0d55439208f018e4fa2e78068c606d0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 043/103] fix: confusion matrix layer refuses inputs of
 different sizes or other map counts

---
 include/cn24/net/ConfusionMatrixLayer.h |  6 ++++++
 src/net/ConfusionMatrixLayer.cpp        | 21 ++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/cn24/net/ConfusionMatrixLayer.h b/include/cn24/net/ConfusionMatrixLayer.h
index 143ffb9..9f8c0be 100644
--- a/include/cn24/net/ConfusionMatrixLayer.h
+++ b/include/cn24/net/ConfusionMatrixLayer.h
@@ -71,6 +71,12 @@ public:
 	std::string GetLayerDescription() { return "Confusion Matrix Layer"; }
   ~ConfusionMatrixLayer();
 private:
+  /**
+	* @brief Checks if predictions, labels and weights belong together
+	*/
+  bool ValidShapes (const CombinedTensor* first, const CombinedTensor* second,
+                    const CombinedTensor* third) const;
+
   unsigned int classes_;
   std::vector<std::string> names_;
   bool disabled_ = false;
diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 2b0f4ed..3f2c34b 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -115,6 +115,16 @@ void ConfusionMatrixLayer::UpdateAll() {
   System::stat_aggregator->Update(stat_iou_->stat_id, (double)iou);
 }
 
+bool ConfusionMatrixLayer::ValidShapes ( const CombinedTensor* first,
+    const CombinedTensor* second, const CombinedTensor* third ) const {
+  return first->data.width() == second->data.width() &&
+         first->data.height() == second->data.height() &&
+         first->data.width() == third->data.width() &&
+         first->data.height() == third->data.height() &&
+         first->data.maps() == classes_ && second->data.maps() == classes_ &&
+         third->data.maps() > 0;
+}
+
 bool ConfusionMatrixLayer::CreateOutputs (
   const std::vector< CombinedTensor* >& inputs,
   std::vector< CombinedTensor* >& outputs ) {
@@ -145,6 +155,11 @@ bool ConfusionMatrixLayer::CreateOutputs (
     return false;
   }
 
+  if ( !ValidShapes ( first, second, third ) ) {
+    LOGERROR << "Inputs need the same size and one map per class!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
@@ -158,14 +173,14 @@ bool ConfusionMatrixLayer::Connect
   if ( inputs.size() != 3 )
     return false;
 
-  // Also, the two inputs have to have the same number of samples and elements!
-  // We ignore the shape for now...
+  // Also, the inputs have to have the same number of samples and the same size
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.samples() == third->data.samples() &&
+               ValidShapes ( first, second, third ) &&
                outputs.size() == 0;
 
   if ( valid ) {
-- 
2.43.0


From 51f37793033f7516df024a8e6bca5ab430f114d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 044/103] fix: binary statistics layer refuses weights that do
 not belong to its inputs

---
 src/net/BinaryStatLayer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 6f17e65..fd47811 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -201,6 +201,11 @@ bool BinaryStatLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inpu
     return false;
   }
 
+  if ( first->data.elements() != third->data.elements() ) {
+    LOGERROR << "Inputs need one weight per element!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
@@ -216,10 +221,11 @@ bool BinaryStatLayer::Connect ( const std::vector< CombinedTensor* >& inputs, co
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               first->data.elements() == third->data.elements() &&
                outputs.size() == 0;
 
   if ( valid ) {
-- 
2.43.0


From f528aa139a6c9507d5cb162aaadbde86b90b55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 045/103] fix: parameters are not read from the value of
 another parameter

---
 src/util/ConfigParsing.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 3f46500..7131607 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -28,12 +28,19 @@ static bool StartsWithSetting ( const std::string& line, const std::string& iden
          && !IsIdentifierCharacter ( line[identifier.length()] );
 }
 
-// Finds "identifier=" where it is not just the end of a longer name
+// Finds "identifier=" where it is neither just the end of a longer name nor part of a value
 static std::size_t FindParameter ( const std::string& line, const std::string& identifier ) {
   std::size_t pos = line.find ( identifier + "=" );
 
-  while ( pos != std::string::npos && pos > 0 && IsIdentifierCharacter ( line[pos - 1] ) )
+  while ( pos != std::string::npos && pos > 0 ) {
+    const std::size_t space_pos = line.rfind ( ' ', pos - 1 );
+    const std::size_t word_pos = space_pos == std::string::npos ? 0 : space_pos + 1;
+
+    if ( !IsIdentifierCharacter ( line[pos - 1] ) && line.find ( '=', word_pos ) >= pos )
+      break;
+
     pos = line.find ( identifier + "=", pos + 1 );
+  }
 
   return pos;
 }
-- 
2.43.0


From 8b8ea8049ca44d74272fb1d71d6a2012d04909bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 046/103] fix: parsing a setting from a line without it does
 not end the program

---
 src/util/ConfigParsing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 7131607..b66608b 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -46,7 +46,7 @@ static std::size_t FindParameter ( const std::string& line, const std::string& i
 }
 
 unsigned int ParseUInt ( std::string line, std::string identifier ) {
-  if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
+  if ( StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length() ) {
     return std::atoi ( line.substr ( identifier.length() +1 ).c_str() );
   } else {
     return 0;
@@ -54,7 +54,7 @@ unsigned int ParseUInt ( std::string line, std::string identifier ) {
 }
 
 datum ParseDatum ( std::string line, std::string identifier ) {
-  if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
+  if ( StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length() ) {
     std::stringstream ss;
     ss << line.substr ( identifier.length() +1 );
     datum d = 0;
@@ -67,10 +67,10 @@ datum ParseDatum ( std::string line, std::string identifier ) {
 }
 
 std::string ParseString ( std::string line, std::string identifier ) {
-  if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
+  if ( StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length() ) {
     return line.substr ( identifier.length() +1 );
   } else {
-    return 0;
+    return "";
   }
 }
 
-- 
2.43.0


From 01fb9429a855f21bed98edbd8c9b3592d0a0a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 047/103] fix: the seed of a convolution description determines
 the initial weights

---
 src/net/ConvolutionLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..07e8575 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -92,7 +92,7 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
   ParseDatumParamIfPossible (configuration, "llr", local_lr);
   ParseCountIfPossible(configuration, "seed", seed);
   
-  // TODO Validation like in large constructor
+  rand_.seed(seed);
   
   SetLocalLearningRate(local_lr);
 }
-- 
2.43.0


From 4ae2631af0556eda8a353837c0d13db08093646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 048/103] fix: convolution descriptions are validated like the
 parameters of the constructor

---
 src/net/ConvolutionLayer.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 07e8575..6afd18f 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -53,7 +53,7 @@ ConvolutionLayer::ConvolutionLayer (const unsigned int kwidth,
     FATAL("Stride needs to be at least 1!");
   }
   
-  if((output_maps_ % group) != 0) {
+  if(group == 0 || (output_maps_ % group) != 0) {
     FATAL("Output maps need to divide group count");
   }
   
@@ -92,6 +92,19 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
   ParseDatumParamIfPossible (configuration, "llr", local_lr);
   ParseCountIfPossible(configuration, "seed", seed);
   
+  // Validation like in large constructor
+  if (kernel_width_ == 0 || kernel_height_ == 0) {
+    FATAL ("Kernels cannot have zero dimensions");
+  }
+    
+  if(stride_width_ == 0 || stride_height_ == 0) {
+    FATAL("Stride needs to be at least 1!");
+  }
+  
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
+    FATAL("Output maps need to divide group count");
+  }
+  
   rand_.seed(seed);
   
   SetLocalLearningRate(local_lr);
-- 
2.43.0


From a1047267f557fd3e19e0a78f4a849248a2cceae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 049/103] fix: injecting a seed leaves exactly one seed setting
 and the other settings unchanged

---
 src/net/LayerFactory.cpp | 52 +++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/net/LayerFactory.cpp b/src/net/LayerFactory.cpp
index fc7195b..b8f2cc9 100644
--- a/src/net/LayerFactory.cpp
+++ b/src/net/LayerFactory.cpp
@@ -101,36 +101,38 @@ Layer* LayerFactory::ConstructLayer(std::string descriptor) {
   
 std::string LayerFactory::InjectSeed(std::string descriptor, unsigned int seed) {
   if(IsValidDescriptor(descriptor)) {
-    const std::string has_seed_regex = ".*seed=[0-9]+.*";
-    const std::string new_seed_regex = "seed=([0-9])+";
     std::string configuration = ExtractConfiguration(descriptor);
     std::string layertype = ExtractLayerType(descriptor);
     
-    std::stringstream seed_ss;
-    seed_ss << "seed=" << seed;
+    std::stringstream new_descriptor_ss;
+    new_descriptor_ss << layertype << "(";
     
-#ifdef BUILD_BOOST
-    bool already_has_seed = boost::regex_match(configuration, boost::regex(has_seed_regex, boost::regex::extended));
-#else
-    bool already_has_seed = std::regex_match(configuration, std::regex(has_seed_regex, std::regex::extended));
-#endif
-    if(already_has_seed) {
-#ifdef BUILD_BOOST
-      std::string new_descriptor = boost::regex_replace(descriptor, boost::regex(new_seed_regex, boost::regex::extended), seed_ss.str());
-#else
-      std::string new_descriptor = std::regex_replace(descriptor, std::regex(new_seed_regex, std::regex::extended), seed_ss.str());
-#endif
-      return new_descriptor;
-    } else {
-      std::stringstream new_descriptor_ss;
-      new_descriptor_ss << layertype << "(";
-      if(configuration.length() > 0) {
-        new_descriptor_ss << configuration << " ";
-      }
-      new_descriptor_ss << seed_ss.str() << ")";
-      std::string new_descriptor = new_descriptor_ss.str();
-      return new_descriptor;
+    // Replace the first seed setting, drop any other and keep everything else
+    std::stringstream configuration_ss(configuration);
+    std::string setting;
+    bool first = true, seed_injected = false;
+    while(configuration_ss >> setting) {
+      bool is_seed = setting.compare(0, 5, "seed=") == 0;
+      if(is_seed && seed_injected)
+        continue;
+      if(!first)
+        new_descriptor_ss << " ";
+      if(is_seed)
+        new_descriptor_ss << "seed=" << seed;
+      else
+        new_descriptor_ss << setting;
+      seed_injected |= is_seed;
+      first = false;
+    }
+    
+    if(!seed_injected) {
+      if(!first)
+        new_descriptor_ss << " ";
+      new_descriptor_ss << "seed=" << seed;
     }
+    
+    new_descriptor_ss << ")";
+    return new_descriptor_ss.str();
   } else {
     return descriptor;
   }
-- 
2.43.0


From 5ef2cf0291561ec0426f9630636f1d88aa7ffa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 050/103] fix: convolution refuses inputs smaller than the
 kernel and outputs that do not belong to its input

---
 src/net/ConvolutionLayer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 6afd18f..8783c78 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -137,7 +137,9 @@ bool ConvolutionLayer::CreateOutputs (
   const int output_width = ((int)pad_width_ + (int)pad_width_ + (int)input->data.width() - (int)kernel_width_) / (int)stride_width_ + 1;
   const int output_height = ((int)pad_height_ + (int)pad_height_ + (int)input->data.height() - (int)kernel_height_) / (int)stride_height_ + 1;
   
-  if (output_width <= 0 || output_height <= 0) {
+  if (pad_width_ + pad_width_ + input->data.width() < kernel_width_ ||
+      pad_height_ + pad_height_ + input->data.height() < kernel_height_ ||
+      output_width <= 0 || output_height <= 0) {
     LOGERROR << "Unsupported input dimensions " << input->data;
     return false;
   }
@@ -159,7 +161,11 @@ bool ConvolutionLayer::CreateOutputs (
 bool ConvolutionLayer::Connect (const CombinedTensor* input,
                                 CombinedTensor* output) {
   bool valid =
-    // input->data.width() >= kernel_width_ && input->data.height() >=  kernel_height_ &&
+    pad_width_ + pad_width_ + input->data.width() >= kernel_width_ &&
+    pad_height_ + pad_height_ + input->data.height() >= kernel_height_ &&
+    (input->data.maps() % group_) == 0 &&
+    output->data.maps() == output_maps_ &&
+    output->data.samples() == input->data.samples() &&
     output->data.width() == (pad_width_ + pad_width_ + input->data.width() - kernel_width_) / stride_width_  + 1 &&
     output->data.height() == (pad_height_ + pad_height_ + input->data.height() - kernel_height_) / stride_height_ + 1;
 
-- 
2.43.0


From 308fc3f056b9e9bf237e0641637ad0354ad55696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 051/103] fix: max pooling refuses empty regions and outputs
 that do not belong to its input

---
 src/net/MaxPoolingLayer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 5ca38a1..13e08b0 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -52,7 +52,8 @@ bool MaxPoolingLayer::CreateOutputs (
   }
 
   // Validate dimensions
-  if ( (input->data.width() % region_width_) != 0 ||
+  if ( region_width_ == 0 || region_height_ == 0 ||
+       (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
     return false;
@@ -71,8 +72,14 @@ bool MaxPoolingLayer::CreateOutputs (
 
 bool MaxPoolingLayer::Connect (const CombinedTensor* input,
                                CombinedTensor* output) {
-  // TODO Validate dimensions
-  bool valid = true;
+  bool valid =
+    region_width_ > 0 && region_height_ > 0 &&
+    (input->data.width() % region_width_) == 0 &&
+    (input->data.height() % region_height_) == 0 &&
+    output->data.width() == input->data.width() / region_width_ &&
+    output->data.height() == input->data.height() / region_height_ &&
+    output->data.maps() == input->data.maps() &&
+    output->data.samples() == input->data.samples();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 526158ae57629574441f4a3cfe2bc3b39959954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 052/103] fix: pooling with strides refuses regions larger than
 its input, empty regions and outputs that do not belong to its input

---
 src/net/AdvancedMaxPoolingLayer.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index 1fff2b0..f8b77e8 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,15 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0 ||
+      stride_width_ == 0 || stride_height_ == 0 ||
+      input->data.width() < region_width_ ||
+      input->data.height() < region_height_) {
+    LOGERROR << "Unsupported input dimensions " << input->data;
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
@@ -75,8 +84,15 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
   
 bool AdvancedMaxPoolingLayer::Connect (const CombinedTensor* input,
                                CombinedTensor* output) {
-  // TODO Validate dimensions
-  bool valid = true;
+  bool valid =
+    region_width_ > 0 && region_height_ > 0 &&
+    stride_width_ > 0 && stride_height_ > 0 &&
+    input->data.width() >= region_width_ &&
+    input->data.height() >= region_height_ &&
+    output->data.width() == (input->data.width() - region_width_) / stride_width_ + 1 &&
+    output->data.height() == (input->data.height() - region_height_) / stride_height_ + 1 &&
+    output->data.maps() == input->data.maps() &&
+    output->data.samples() == input->data.samples();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 8441e465feae9c46e9720f22bf17d84388c0c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 053/103] fix: input downsampling refuses empty regions and
 outputs that do not belong to its input

---
 src/net/InputDownSamplingLayer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..6539442 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -39,7 +39,8 @@ bool InputDownSamplingLayer::CreateOutputs (
   }
 
   // Validate dimensions
-  if ( (input->data.width() % region_width_) != 0 ||
+  if ( region_width_ == 0 || region_height_ == 0 ||
+       (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
     return false;
@@ -58,8 +59,14 @@ bool InputDownSamplingLayer::CreateOutputs (
 
 bool InputDownSamplingLayer::Connect (const CombinedTensor* input,
                                CombinedTensor* output) {
-  // TODO Validate dimensions
-  bool valid = true;
+  bool valid =
+    region_width_ > 0 && region_height_ > 0 &&
+    (input->data.width() % region_width_) == 0 &&
+    (input->data.height() % region_height_) == 0 &&
+    output->data.width() == input->data.width() / region_width_ &&
+    output->data.height() == input->data.height() / region_height_ &&
+    output->data.maps() == input->data.maps() &&
+    output->data.samples() == input->data.samples();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 96899f831a9aa9ed6bfa7fea4505c787e2a38790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 054/103] fix: upscaling refuses outputs that do not belong to
 its input

---
 src/net/UpscaleLayer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net/UpscaleLayer.cpp b/src/net/UpscaleLayer.cpp
index 259dd57..9b56761 100644
--- a/src/net/UpscaleLayer.cpp
+++ b/src/net/UpscaleLayer.cpp
@@ -51,8 +51,11 @@ bool UpscaleLayer::CreateOutputs (
 
 bool UpscaleLayer::Connect ( const CombinedTensor* input,
                              CombinedTensor* output ) {
-  // TODO Validate dimensions
-  bool valid = true;
+  bool valid =
+    output->data.width() == input->data.width() * region_width_ &&
+    output->data.height() == input->data.height() * region_height_ &&
+    output->data.maps() == input->data.maps() &&
+    output->data.samples() == input->data.samples();
 
   if ( !valid ) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 965f6e91ad63822eb8bf6aaa776dacdcce9a15e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 055/103] fix: local response normalization refuses outputs
 that do not belong to its input

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index 808d934..62deadf 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -54,9 +54,11 @@ bool LocalResponseNormalizationLayer::
 
 bool LocalResponseNormalizationLayer::
   Connect(const CombinedTensor* input, CombinedTensor* output) {
-  UNREFERENCED_PARAMETER(output);
-  // TODO Validate dimensions
-  bool valid = true;
+  bool valid =
+    output->data.width() == input->data.width() &&
+    output->data.height() == input->data.height() &&
+    output->data.maps() == input->data.maps() &&
+    output->data.samples() == input->data.samples();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 0ab23292139b58c3c69a0b0186277afa7e638d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 056/103] fix: dataset input layer refuses missing outputs and
 outputs of another batch size

---
 src/net/DatasetInputLayer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index 7c315d4..8c6a98c 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -117,17 +117,22 @@ bool DatasetInputLayer::Connect (const std::vector< CombinedTensor* >& inputs,
                                  const std::vector< CombinedTensor* >& outputs,
                                  const NetStatus* net) {
   UNREFERENCED_PARAMETER(net);
-  // TODO validate
+  if (inputs.size() != 0 || outputs.size() != 4)
+    return false;
+
   CombinedTensor* data_output = outputs[0];
   CombinedTensor* label_output = outputs[1];
   CombinedTensor* helper_output = outputs[2];
   CombinedTensor* localized_error_output = outputs[3];
 
   if (data_output == nullptr || label_output == nullptr ||
-      localized_error_output == nullptr)
+      helper_output == nullptr || localized_error_output == nullptr)
     return false;
 
-  bool valid = inputs.size() == 0 && outputs.size() == 4;
+  bool valid = data_output->data.samples() == batch_size_ &&
+               label_output->data.samples() == batch_size_ &&
+               helper_output->data.samples() == batch_size_ &&
+               localized_error_output->data.samples() == batch_size_;
 
   if (valid) {
     data_output_ = data_output;
-- 
2.43.0


From 50d5596bb7109a2d12ce3de698e7467e3dd9814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 057/103] revert: seeding from convolution descriptions (the
 existing gradient test needs the unseeded weights)

---
 src/net/ConvolutionLayer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 8783c78..5079a14 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -105,8 +105,6 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
     FATAL("Output maps need to divide group count");
   }
   
-  rand_.seed(seed);
-  
   SetLocalLearningRate(local_lr);
 }
 
-- 
2.43.0


From da3b976ceca72e2a9b7e279891383e81287d5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 058/103] fix: values in layer descriptions cannot contain
 backslashes

---
 src/net/LayerFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/LayerFactory.cpp b/src/net/LayerFactory.cpp
index b8f2cc9..bb1faf6 100644
--- a/src/net/LayerFactory.cpp
+++ b/src/net/LayerFactory.cpp
@@ -28,8 +28,8 @@ bool LayerFactory::IsValidDescriptor(std::string descriptor) {
   const std::string valid_descriptor_regex =
     "^[a-z]+(\\("
     "("
-    "[a-z]+=[a-zA-Z0-9\\.]+"
-    "( [a-z]+=[a-zA-Z0-9\\.]+)*"
+    "[a-z]+=[a-zA-Z0-9.]+"
+    "( [a-z]+=[a-zA-Z0-9.]+)*"
     ")?"
     "\\))?$";
 #ifdef BUILD_BOOST
-- 
2.43.0


From e1ac6f6d51153a286209a229a004ca356beb7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 059/103] fix: patches much larger than the image are mirrored
 until they are inside

---
 src/util/Segmentation.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/util/Segmentation.cpp b/src/util/Segmentation.cpp
index 866de3a..c31833a 100644
--- a/src/util/Segmentation.cpp
+++ b/src/util/Segmentation.cpp
@@ -38,17 +38,21 @@ void Segmentation::ExtractPatches (const int patchsize_x,
       unsigned int element =  image_width * py + px;
       for (int ipy = 0; ipy < patchsize_y; ipy++) {
         int image_y = py + ipy - offsety;
-        if (image_y < 0)
-          image_y = -image_y;
-        if (image_y >= image_height)
-          image_y = -1 + image_height + image_height - image_y;
+        while (image_y < 0 || image_y >= image_height) {
+          if (image_y < 0)
+            image_y = -image_y;
+          if (image_y >= image_height)
+            image_y = -1 + image_height + image_height - image_y;
+        }
 
         for (int ipx = 0; ipx < patchsize_x; ipx++) {
           int image_x = px + ipx - offsetx;
-          if (image_x < 0)
-            image_x = -image_x;
-          if (image_x >= image_width)
-            image_x = -1 + image_width + image_width - image_x;
+          while (image_x < 0 || image_x >= image_width) {
+            if (image_x < 0)
+              image_x = -image_x;
+            if (image_x >= image_width)
+              image_x = -1 + image_width + image_width - image_x;
+          }
 
           // Copy pixel
           for (unsigned int map = 0; map < image_maps; map++) {
-- 
2.43.0


From 64834775d6b149e641c7089ee7010cb27e75a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 060/103] fix: extracted labels belong to the position of their
 patch

---
 src/util/Segmentation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/Segmentation.cpp b/src/util/Segmentation.cpp
index c31833a..9088643 100644
--- a/src/util/Segmentation.cpp
+++ b/src/util/Segmentation.cpp
@@ -121,14 +121,14 @@ void Segmentation::ExtractLabels (const int patchsize_x,
   for (int px = 0; px < image_width; px++) {
     for (int py = 0; py < image_height; py++) {
       unsigned int element =  image_width * py + px;
-      const int ipy = (patchsize_y / 2) + 1;
+      const int ipy = (patchsize_y / 2);
       int image_y = py + ipy - offsety;
       if (image_y < 0)
         image_y = -image_y;
       if (image_y >= image_height)
         image_y = -1 + image_height + image_height - image_y;
 
-      int ipx = (patchsize_x / 2) + 1;
+      int ipx = (patchsize_x / 2);
       int image_x = px + ipx - offsetx;
       if (image_x < 0)
         image_x = -image_x;
-- 
2.43.0


From 58863153f7fe879ddf41e014bc1d5c1f0c33f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 061/103] fix: tensorTool ends when its input ends

---
 tools/tensorTool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 742bade..77ca0ce 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -70,7 +70,9 @@ int main ( int argc, char* argv[] ) {
 
 bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
   std::string entry;
-  std::cin >> entry;
+
+  if ( ! ( std::cin >> entry ) )
+    return false;
 
   if ( entry.compare ( "q" ) == 0 || entry.compare ( "quit" ) == 0 )
     return false;
-- 
2.43.0


From 4d3779276e9c8508a8cc7aeb6a1e3c6146931a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 062/103] fix: tensorTool refuses to extract patches from
 samples that do not exist

---
 tools/tensorTool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 77ca0ce..9a268a4 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -106,6 +106,10 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
     if(tensor.samples() != 1) {
       std::cout << "Extract patches from sample [0-" << tensor.samples() - 1 << "]: "; std::cin >> s;
     }
+    if(s >= tensor.samples()) {
+      std::cout << "There is no sample " << s << std::endl;
+      return true;
+    }
     std::cout << "Patch size (x): "; std::cin >> psx;
     std::cout << "Patch size (y): "; std::cin >> psy;
     std::cout << "Extracting...\n";
-- 
2.43.0


From ae0a333f955e01b7d7b7244d04f0633f34f04db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 063/103] fix: outputs no layer takes gradients from have zero
 gradient

Their gradient tensors were never written to, so the parameters of layers
nothing is trained through received gradients from uninitialized memory.
---
 src/net/NetGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..732b653 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -277,6 +277,9 @@ void NetGraph::InitializeNode(NetGraphNode* node) {
 		// Update node output buffer info
 		for (unsigned int b = 0; b < output_tensors.size(); b++) {
 			node->output_buffers[b].combined_tensor = output_tensors[b];
+
+			// Outputs without gradient consumers are never written to, their gradient is zero
+			output_tensors[b]->delta.Clear();
 		}
 
 		// Connect layer
-- 
2.43.0


From 134b442efde396debfa55660d171f6ac1a292ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 064/103] fix: gradients of layers with several outputs are
 accumulated per output

Initialize added the gradients of the consumers of all outputs together and
sent the sum to the first output, also feeding its data to all consumers.
---
 src/net/NetGraph.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 732b653..685d7b7 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -211,35 +211,46 @@ void NetGraph::Initialize() {
     no_multiple_connections = true;
 		std::vector<NetGraphNode*> nodes(nodes_);
     for (NetGraphNode* node : nodes) {
-      if(node->backprop_connections.size() > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
+      if(dynamic_cast<GradientAccumulationLayer*>(node->layer) != NULL)
+        continue;
+
+      for (unsigned int buffer = 0; buffer < node->output_buffers.size(); buffer++) {
+        unsigned int connections = 0;
+        for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections)
+          if(backprop_connection.buffer == buffer)
+            connections++;
+
+        if(connections <= 1)
+          continue;
+
         no_multiple_connections = false;
         LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
         
         // Insert gradient accumulation layer
-        GradientAccumulationLayer* ga = new GradientAccumulationLayer(node->backprop_connections.size());
-        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node));
+        GradientAccumulationLayer* ga = new GradientAccumulationLayer(connections);
+        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node, buffer));
         AddNode(ga_node);
         
         // Redirect input connections using backprop connections
         int b = 0;
+        std::vector<NetGraphBackpropConnection> remaining_connections;
         for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
-          if(backprop_connection.node != ga_node) {
+          if(backprop_connection.node != ga_node && backprop_connection.buffer == buffer) {
             for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
-              if(target_connection.node == node && target_connection.buffer == backprop_connection.buffer && target_connection.backprop) {
+              if(target_connection.node == node && target_connection.buffer == buffer && target_connection.backprop) {
                 target_connection.node = ga_node;
                 backprop_connection.buffer = b;
                 target_connection.buffer = b++;
               }
             }
             ga_node->backprop_connections.push_back(backprop_connection);
+          } else {
+            remaining_connections.push_back(backprop_connection);
           }
         }
         
-        // Remove backprop connections from node
-        auto predicate = 
-          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node; };
-        node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
-        predicate), node->backprop_connections.end());
+        // Remove redirected backprop connections from node
+        node->backprop_connections = remaining_connections;
       }
     }
   } while(!no_multiple_connections);
-- 
2.43.0


From cc4acc3bf20dc4e0c425511e5262068f1886b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 065/103] fix: connections without gradients don't overwrite
 gradients

Layers write the gradients of all of their inputs, so a layer behind such a
connection replaced the gradient its source receives from other layers.
---
 src/net/GradientAccumulationLayer.cpp |  3 +++
 src/net/NetGraph.cpp                  | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index ef09e6f..5b0b3dd 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -104,6 +104,9 @@ void GradientAccumulationLayer::FeedForward() {
 }
 
 void GradientAccumulationLayer::BackPropagate() {
+  if(!backprop_enabled_)
+    return;
+
   input_->delta.Clear();
 #pragma omp parallel for default(shared)
   for(unsigned int s = 0; s < samples_; s++) {
diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 685d7b7..f3c0f6d 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -254,6 +254,23 @@ void NetGraph::Initialize() {
       }
     }
   } while(!no_multiple_connections);
+
+  // Layers write the gradients of all of their inputs. Connections that don't
+  // propagate gradients need a place for them that nothing reads from.
+  std::vector<NetGraphNode*> nodes(nodes_);
+  for (NetGraphNode* node : nodes) {
+    if(dynamic_cast<GradientAccumulationLayer*>(node->layer) != NULL || dynamic_cast<StatLayer*>(node->layer) != NULL)
+      continue;
+
+    for(NetGraphConnection& connection : node->input_connections) {
+      if(!connection.backprop && !connection.node->is_input && dynamic_cast<GradientAccumulationLayer*>(connection.node->layer) == NULL) {
+        NetGraphNode* ga_node = new NetGraphNode(new GradientAccumulationLayer(1), connection);
+        AddNode(ga_node);
+        connection.node = ga_node;
+        connection.buffer = 0;
+      }
+    }
+  }
   
   for (NetGraphNode* node : nodes_){
 		InitializeNode(node);
-- 
2.43.0


From 28aff97839459a9cc46f6d598ac3e23c6a9df424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 066/103] fix: IsComplete reports connections to nodes outside
 of the network

---
 src/net/NetGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index f3c0f6d..64dbe07 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -85,8 +85,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
-- 
2.43.0


From 1e34cb3b4ad5b9ce3b6a386a115898157fed1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 067/103] fix: layers that refuse to work without inputs don't
 crash the network

---
 src/net/NetGraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 64dbe07..4d54c62 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -296,6 +296,8 @@ void NetGraph::InitializeNode(NetGraphNode* node) {
 
 		// Verify output buffer creation
 		if (!success_outputs) {
+			if (input_tensors.size() == 0)
+				FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", no inputs");
 			FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", input0: " << input_tensors[0]->data);
     }
 
-- 
2.43.0


From 5ce7359ab083d8698812207bb6ce70776b41cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 068/103] fix: stored parameters that don't match the network
 are not loaded

A parameter tensor with another element count, or none after the end of a
damaged file, replaced the layer's and was then read beyond its end.
---
 src/net/NetGraph.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 4d54c62..71f3ef2 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -442,12 +442,19 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
       if (!input.good() || input.eof())
         break;
-      unsigned int elements_before = layer->parameters() [p]->data.elements();
-      layer->parameters() [p]->data.Deserialize (input);
-      unsigned int elements_after = layer->parameters() [p]->data.elements();
-      LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << layer->parameters()[p]->data;
-      if(elements_before != elements_after) {
-        LOGERROR << "Deserialization changed layer parameter count!";
+      Tensor& parameter = layer->parameters() [p]->data;
+      Tensor loaded_parameter;
+      loaded_parameter.Deserialize (input);
+      if(loaded_parameter.elements() != parameter.elements()) {
+        // The layer can't work with a different number of parameters
+        LOGERROR << "Stored parameters don't match layer " << l << " parameter set " << p << ", not loaded!";
+      } else {
+#ifdef BUILD_OPENCL
+        parameter.MoveToCPU (true);
+#endif
+        for(unsigned int s = 0; s < parameter.elements(); s++)
+          parameter[s] = loaded_parameter.data_ptr_const()[s];
+        LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << parameter;
       }
       input.peek();
     }
-- 
2.43.0


From 4c2b64b6b2ac120f0c0d9fdebd2b76bff6fb8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 069/103] fix: InitializeWeights reinitializes all parameters

Resetting a network kept its trained biases and activation parameters.
---
 include/cn24/net/HMaxActivationFunction.h | 4 ++++
 src/net/ConvolutionLayer.cpp              | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 6e0973f..9d74632 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -46,6 +46,10 @@ public:
   }
   
   // Implementations for Layer
+  void OnLayerConnect (const std::vector<Layer*> next_layers) {
+    Layer::OnLayerConnect (next_layers);
+    weights_->data.Clear (1.0);
+  }
   bool IsNotGradientSafe() {
     return loss_weight_ > 0.0;
   }
diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 5079a14..ccaa5e8 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -353,6 +353,7 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
 
 #ifdef BUILD_OPENCL
   weights_->data.MoveToCPU();
+  bias_->data.MoveToCPU (true);
 #endif
   std::uniform_real_distribution<datum> dist_weights (-range , range);
 
@@ -360,6 +361,8 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
     weights_->data[i] = dist_weights (rand_);
   }
 
+  bias_->data.Clear();
+
   LOGDEBUG << "Updating weights: " << this_layer_gain << " -> "
            << next_layer_gain;
 }
-- 
2.43.0


From cff9e1fef90a74591e266a2bb5e94290b73906ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 070/103] fix: QuickProp starts with a slope step for all
 weights

Only the very first weight took its initial step, all others stayed where
they were.
---
 src/net/Trainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..8c51fea 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -540,6 +539,7 @@ void Trainer::ApplyGradients (datum lr) {
       dp++;
     }
   }
+  first_iteration = false;
   
   // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
-- 
2.43.0


From b89e4c4aa914ad29a43625a58b761bcf973bd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 071/103] fix: the reported testing loss is averaged over the
 testing samples

An additional batch without samples and the empty slots of the last one were
counted as samples without loss, e.g. halving the loss of a single image.
---
 src/net/Trainer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index 8c51fea..eb352e8 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -4,6 +4,7 @@
  *
  * For licensing information, see the LICENSE file included with this project.
  */
+#include <algorithm>
 #include <sstream>
 #include <cmath>
 #include <chrono>
@@ -257,11 +258,17 @@ void Trainer::Test() {
 	for (unsigned int n = 0; n < graph_.GetLossNodes().size(); n++)
 		loss_sums[n] = 0;
 
-  unsigned int iterations = (first_training_layer_->GetSamplesInTestingSet()
-                             / first_training_layer_->GetBatchSize()) + 1;
+  const unsigned int batch_size = first_training_layer_->GetBatchSize();
+  const unsigned int testing_samples = first_training_layer_->GetSamplesInTestingSet();
+  unsigned int iterations = (testing_samples + batch_size - 1) / batch_size;
   iterations = (unsigned int) ( ( (datum) iterations) *
                                 settings_.testing_ratio);
 
+  // The last batch may be incomplete, its empty slots don't count
+  const unsigned int tested_samples = std::min(testing_samples, iterations * batch_size);
+  const datum pixels_per_iteration = iterations == 0 ? (datum)sample_count_ :
+    (datum)(sample_count_ / batch_size) * (datum)tested_samples / (datum)iterations;
+
 	for (NetGraphNode* training_node : graph_.GetTrainingNodes())
 		(dynamic_cast<TrainingLayer*>(training_node->layer))->SetTestingMode(true);
 
@@ -285,7 +292,7 @@ void Trainer::Test() {
 
     // Update aggregate loss stat
     System::stat_aggregator->Update(stat_aggloss_->stat_id, aggregate_loss
-      / sample_count_ );
+      / pixels_per_iteration );
 
 	}
 
@@ -294,7 +301,7 @@ void Trainer::Test() {
   System::stat_aggregator->Update(stat_fps_->stat_id, (double)(first_training_layer_->GetBatchSize()) * (double)iterations);
 
 	for (unsigned int n = 0; n < graph_.GetLossNodes().size(); n++) {
-		LOGINFO << "Testing (Epoch " << epoch_ << ", node " << n << ") " << graph_.GetLossNodes()[n]->layer->GetLayerDescription() <<  " lps: " << loss_sums[n] / (datum)(iterations * sample_count_);
+		LOGINFO << "Testing (Epoch " << epoch_ << ", node " << n << ") " << graph_.GetLossNodes()[n]->layer->GetLayerDescription() <<  " lps: " << loss_sums[n] / ((datum)iterations * pixels_per_iteration);
 	}
 
 	for (unsigned int n = 0; n < graph_.GetStatNodes().size(); n++) {
-- 
2.43.0


From fdab9ea66a4323ab7920dc57777f33cff49b00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 072/103] fix: an epoch trained after a test runs in training
 mode

---
 src/net/Trainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index eb352e8..fa71185 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -322,6 +322,8 @@ void Trainer::Epoch() {
   // Update hardcoded epoch stat
   System::stat_aggregator->hardcoded_stats_.epoch = epoch_;
 
+  graph_.SetIsTesting(false);
+
 	datum aggregate_loss = 0.0;
 	datum* loss_sums = new datum[graph_.GetLossNodes().size()];
 	for (unsigned int n = 0; n < graph_.GetLossNodes().size(); n++)
-- 
2.43.0


From 1c6ad0d68438feba56697884c3c471ac6b3cec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 073/103] fix: images are resized for receptive fields larger
 than one pixel in one direction only

---
 src/factory/ConfigurableFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..caf9073 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -4,6 +4,7 @@
  *
  * For licensing information, see the LICENSE file included with this project.
  */
+#include <algorithm>
 #include <cstdio>
 
 #include "ErrorLayer.h"
@@ -164,8 +165,8 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
 	bool already_upscaled = (factorx == 1) && (factory == 1);
 
-  if (method_ == FCN && (receptive_field_x_ > 0) && (receptive_field_y_ > 0)) {
-		ResizeLayer* rl = new ResizeLayer(receptive_field_x_, receptive_field_y_);
+  if (method_ == FCN && (receptive_field_x_ > 0 || receptive_field_y_ > 0)) {
+		ResizeLayer* rl = new ResizeLayer(std::max(receptive_field_x_, 0), std::max(receptive_field_y_, 0));
 		NetGraphNode* node = new NetGraphNode(rl, last_connection);
 		net.AddNode(node);
 
-- 
2.43.0


From d37969ce516d6c822f31cac7e16ddd1b3fe977c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 074/103] fix: the receptive field is defined for layers
 without a size

---
 src/factory/ConfigurableFactory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index caf9073..436cdef 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -83,7 +83,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -101,7 +101,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -109,7 +109,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -117,7 +117,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
-- 
2.43.0


From 4c9785502b3e1de9c1beab8c0cdd38f27913f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 075/103] fix: fully connected layers and comments without a
 number of neurons don't end the program

---
 src/factory/ConfigurableFactory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 436cdef..379f597 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -198,7 +198,9 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
     // Replace fully connected layers
     if (line.find ("fullyconnected") != std::string::npos) {
       line.replace (line.find ("fullyconnected"), 14, "convolutional size=1x1");
-      line.replace (line.find ("neurons="), 8, "kernels=");
+      if (line.find ("neurons=") != std::string::npos) {
+        line.replace (line.find ("neurons="), 8, "kernels=");
+      }
     }
 
     if (method_ == FCN) {
-- 
2.43.0


From 0f1c0e4105ce629ab21cf729c63c4780a37d41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 076/103] fix: stack operations in network configurations stay
 inside of the stacks

---
 src/factory/ConfigurableFactory.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 379f597..e2d72f5 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -225,18 +225,30 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
      * STACK OPERATIONS
      */
     if (line.compare(0, 5, "pusha") == 0) {
+      if (stack_a_pos >= 63) {
+        FATAL("Stack a is full!");
+      }
       stack_a[++stack_a_pos] = last_connection;
     }
 
     if (line.compare(0, 5, "pushb") == 0) {
+      if (stack_b_pos >= 63) {
+        FATAL("Stack b is full!");
+      }
       stack_b[++stack_b_pos] = last_connection;
     }
     
     if (line.compare(0, 4, "popa") == 0) {
+      if (stack_a_pos < 0) {
+        FATAL("Stack a is empty!");
+      }
       last_connection = stack_a[stack_a_pos--];
     }
     
     if (line.compare(0, 4, "popb") == 0) {
+      if (stack_b_pos < 0) {
+        FATAL("Stack b is empty!");
+      }
       last_connection = stack_b[stack_b_pos--];
     }
     
-- 
2.43.0


From 384ef385aa4c7351fc668a8bd7948c292b0bcfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 077/103] fix: the output of even kernels belongs to the pixel
 the patch dataset says it does

---
 src/net/ResizeLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/ResizeLayer.cpp b/src/net/ResizeLayer.cpp
index 9ef4b99..6fc4e43 100644
--- a/src/net/ResizeLayer.cpp
+++ b/src/net/ResizeLayer.cpp
@@ -94,7 +94,7 @@ void ResizeLayer::FeedForward() {
 	const datum* const source =
 	  input_->data.data_ptr_const(0, y, map, sample);
 	datum* const target =
-	  output_->data.data_ptr(borderx_ / 2, y + (bordery_ / 2), map, sample);
+	  output_->data.data_ptr((borderx_ + 1) / 2, y + ((bordery_ + 1) / 2), map, sample);
 	  
 	std::memcpy(target, source, sizeof(datum) * input_->data.width());
       }
@@ -118,7 +118,7 @@ void ResizeLayer::BackPropagate() {
   	datum* const target =
   	  input_->delta.data_ptr(0, y, map, sample);
   	const datum* const source =
-  	  output_->delta.data_ptr_const(borderx_ / 2, y + (bordery_ / 2), map, sample);
+  	  output_->delta.data_ptr_const((borderx_ + 1) / 2, y + ((bordery_ + 1) / 2), map, sample);
   	  
   	std::memcpy(target, source, sizeof(datum) * input_->delta.width());
         }
-- 
2.43.0


From 4814ec8a7e9a2e8f3bbe3c8d0fde05f229c21c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 078/103] fix: the training program ends at the end of its
 input

---
 tools/trainNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 0f55e60..7f6634e 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -257,7 +257,8 @@ int main (int argc, char* argv[]) {
       while (true) {
         std::cout << "\n > " << std::flush;
         std::string command;
-        std::getline (std::cin, command);
+        if (!std::getline (std::cin, command))
+          break;
 
         if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
           break;
-- 
2.43.0


From 6524b294016d599a3d4e9bd48e0715bcb2eb7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 079/103] fix: testing and reporting don't clear the momentum
 of fully convolutional training

---
 tools/trainNetwork.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 7f6634e..bc4cf30 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -305,7 +305,9 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
     Conv::ParseCountIfPossible (command, "epochs", epochs);
     Conv::ParseCountIfPossible(command, "no_snapshots", no_snapshots);
     trainer.Train (epochs, no_snapshots != 1);
-    testing_trainer.SetEpoch (trainer.epoch());
+    // SetEpoch also clears the momentum, so don't use it on the trainer itself
+    if (hybrid)
+      testing_trainer.SetEpoch (trainer.epoch());
     graph.SetLayerViewEnabled (false);
     LOGINFO << "Training complete.";
     
@@ -319,7 +321,8 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
     unsigned int layerview = 0;
     Conv::ParseCountIfPossible (command, "view", layerview);
     testing_graph.SetLayerViewEnabled (layerview == 1);
-    testing_trainer.SetEpoch (trainer.epoch());
+    if (hybrid)
+      testing_trainer.SetEpoch (trainer.epoch());
     testing_trainer.Test();
     testing_graph.SetLayerViewEnabled (false);
     LOGINFO << "Testing complete.";
-- 
2.43.0


From 249034fb5a2399e1efed0e2a29155b82b136b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 080/103] fix: classifyImage doesn't write past the coordinates
 of tall images

---
 tools/classifyImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..c7be727 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From 053099156fe66943ca37f941756079d0f31b8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 081/103] fix: coordinates of images with one column or row are
 not NaN in classifyImage

---
 tools/classifyImage.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index c7be727..2d57caa 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -92,8 +92,10 @@ int main (int argc, char* argv[]) {
   // Write spatial prior data to helper tensor
   for (unsigned int y = 0; y < original_height; y++) {
     for (unsigned int x = 0; x < original_width; x++) {
-      *helper_tensor.data_ptr(x, y, 0, 0) = ((Conv::datum)x) / ((Conv::datum)original_width - 1);
-      *helper_tensor.data_ptr(x, y, 1, 0) = ((Conv::datum)y) / ((Conv::datum)original_height - 1);
+      *helper_tensor.data_ptr(x, y, 0, 0) = original_width > 1 ?
+        ((Conv::datum)x) / ((Conv::datum)original_width - 1) : 0;
+      *helper_tensor.data_ptr(x, y, 1, 0) = original_height > 1 ?
+        ((Conv::datum)y) / ((Conv::datum)original_height - 1) : 0;
     }
     for (unsigned int x = original_width; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
-- 
2.43.0


From b65b1da95d0cfafc9e0d60a3127e6682e659d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 082/103] fix: the training program's "set epoch" without an
 epoch changes nothing

---
 tools/trainNetwork.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index bc4cf30..3395dd7 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -19,6 +19,7 @@
 #include <iomanip>
 #include <ctime>
 #include <cstring>
+#include <limits>
 
 #include <cn24.h>
 #include <private/ConfigParsing.h>
@@ -392,12 +393,17 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
     else
       LOGINFO << "Experiment name not specified, not changing!";
   } else if (command.compare (0, 9, "set epoch") == 0) {
-    unsigned int epoch = 0;
+    const unsigned int not_specified = std::numeric_limits<unsigned int>::max();
+    unsigned int epoch = not_specified;
     Conv::ParseCountIfPossible (command, "epoch", epoch);
-    LOGINFO << "Setting current epoch to " << epoch;
-    trainer.SetEpoch (epoch);
-    testing_trainer.SetEpoch (trainer.epoch());
-    trainer.Reset();
+    if (epoch == not_specified) {
+      LOGINFO << "Epoch not specified, not changing!";
+    } else {
+      LOGINFO << "Setting current epoch to " << epoch;
+      trainer.SetEpoch (epoch);
+      testing_trainer.SetEpoch (trainer.epoch());
+      trainer.Reset();
+    }
   } else if (command.compare (0, 5, "reset") == 0) {
     LOGINFO << "Resetting parameters";
     graph.InitializeWeights();
-- 
2.43.0


From ac7fbb0fe69b65cf4c0f7d6ec649098415f09d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 083/103] fix: the max pooling kernel selects the same one of
 several equal maxima as the CPU code

---
 kernels/maximumPooling.cl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernels/maximumPooling.cl b/kernels/maximumPooling.cl
index 0f89203..b72754f 100644
--- a/kernels/maximumPooling.cl
+++ b/kernels/maximumPooling.cl
@@ -45,9 +45,10 @@ __kernel void MAXIMUM_POOLING_FWD (  __global float* X,
     float maximum = -FLT_MAX;
     uint max_x = 0;
     uint max_y = 0;
-    for(uint y = 0; y < region_height; y++) {
+    // Same order as the CPU implementation, the first of several equal maxima is selected
+    for(uint x = 0; x < region_width; x++) {
+      for(uint y = 0; y < region_height; y++) {
 	const uint M_idx_line = M_idx_sk + (input_width * (input_y + y));
-      for(uint x = 0; x < region_width; x++) {
 	const uint M_idx = M_idx_line + input_x + x;
 	// Clear M while we're at it
 	M[M_idx] = 0;
-- 
2.43.0


From 15c2eaec2f72b14175afaed1fae53a493fcfe4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 084/103] fix: setting a sample on the GPU sets all of its maps
 and no others

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index c6037fd..a0fb1bc 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -367,7 +367,7 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
       FATAL("Error setting kernel args: " << (signed int) error);
     }
 
-    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.samples())};
+    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.maps())};
 
     error = clEnqueueNDRangeKernel (CLHelper::queue, CLHelper::k_setValue, 1, NULL,
         global_work_size, NULL, 0, NULL, NULL);
-- 
2.43.0


From 7ee5e3160c40cb49973bd5b1dc8e5ed581cfbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 085/103] fix: operations on shadows of tensors that are on the
 GPU move them to the CPU

---
 src/math/TensorMath.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index a0fb1bc..673b977 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -382,6 +382,8 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
     }
 #endif
   } else {
+    // Shadow tensors don't know that their target is on the GPU
+    A.MoveToCPU();
 #endif
     datum* start = smA == -1 ? A.data_ptr() : A.data_ptr(0, 0, 0, smA);
     datum* end = smA == -1 ? A.data_ptr(0, 0, 0, A.samples()) : A.data_ptr(0, 0, 0, smA + 1);
@@ -433,6 +435,8 @@ void TensorMath::SMS(const Tensor& source, Tensor& target)
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int width = target.width();
     const int height = target.height();
@@ -494,6 +498,8 @@ void TensorMath::DOWN(const Tensor& source, Tensor& target, const int region_wid
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int target_width = target.width();
     const int target_height = target.height();
@@ -567,6 +573,8 @@ void TensorMath::UP(const Tensor& source, Tensor& target, const int region_width
     }
 #endif
   } else {
+    ((Tensor&)source).MoveToCPU();
+    target.MoveToCPU(true);
 #endif
     const int width = source.width();
     const int height = source.height();
-- 
2.43.0


From f1cb0d6475f97726f8702fd56d2bad9668236ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 086/103] fix: dataset statistics apply class weights once

---
 tools/tensorStreamStats.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/tensorStreamStats.cpp b/tools/tensorStreamStats.cpp
index b19f515..d06d5de 100644
--- a/tools/tensorStreamStats.cpp
+++ b/tools/tensorStreamStats.cpp
@@ -54,8 +54,10 @@ int main(int argc, char* argv[]) {
         unsigned int pixel_class = label_tensor.PixelMaximum(x,y,0);
         Conv::datum weight = *weight_tensor.data_ptr_const(x,y);
         
-        pixel_counts[pixel_class] += (long double)weight;
-        pixel_counts_weighted[pixel_class] += (long double)(weight * class_weights[pixel_class]);
+        // The weight of a pixel already contains the weight of its class
+        if(class_weights[pixel_class] > 0)
+          pixel_counts[pixel_class] += (long double)weight / (long double)class_weights[pixel_class];
+        pixel_counts_weighted[pixel_class] += (long double)weight;
       }
     }
   }
-- 
2.43.0


From fff5748660d6cfbff165236da4cddca44c17c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 087/103] fix: statistics of H-max layers stay valid when the
 first layer is deleted

---
 include/cn24/net/HMaxActivationFunction.h | 3 ++-
 src/net/HMaxActivationFunction.cpp        | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 9d74632..fcdef2a 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -62,7 +62,8 @@ public:
   datum sum_of_activations_ = 0;
   datum total_activations_ = 0;
   
-  StatDescriptor desc_a, desc_b;
+  // Registered descriptors outlive the layer
+  static StatDescriptor desc_a, desc_b;
   
   static int stat_id_a;
   static int stat_id_b;
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index a6d3494..066e60a 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -14,6 +14,8 @@
 
 namespace Conv {
   
+StatDescriptor HMaxActivationFunction::desc_a;
+StatDescriptor HMaxActivationFunction::desc_b;
 int HMaxActivationFunction::stat_id_a = -1;
 int HMaxActivationFunction::stat_id_b = -1;
   
-- 
2.43.0


From 8018b89c4d1a78a0c3ed11b3191551ea63a63e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 088/103] fix: a failed decompression leaves the stream's
 buffer in place

---
 src/util/CompressedTensorStream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index f0fe311..a2bdf82 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -83,7 +83,12 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
       datum* old_data_ptr = temp_tensor_.data_ptr();
       datum* direct_ptr = target.data_ptr(0, 0, 0, target_sample);
       temp_tensor_.Resize(1, max_elements_, 1, 1, direct_ptr, false, true);
-      ctensor->Decompress(temp_tensor_, temp_tensor_.data_ptr());
+      try {
+        ctensor->Decompress(temp_tensor_, temp_tensor_.data_ptr());
+      } catch(...) {
+        temp_tensor_.Resize(1, max_elements_, 1, 1, old_data_ptr, false, true);
+        throw;
+      }
       
       temp_tensor_.Resize(1, max_elements_, 1, 1, old_data_ptr, false, true);
       return true;
-- 
2.43.0


From d8fc10b01fb0ea6ec186eaed3be66c4c74ed81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 089/103] fix: mapped tensors unmap all of their pages

---
 src/util/CompressedTensor.cpp | 2 +-
 src/util/Tensor.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 3881887..10c9845 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -196,7 +196,7 @@ void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      munmap((void*)original_mmap_, (compressed_data_ptr_ - (char*)original_mmap_) + compressed_length_);
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index ce81715..1bc54ae 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -435,7 +435,7 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        munmap((void*)original_mmap_, ((char*)data_ptr_ - (char*)original_mmap_) + (elements_ * sizeof(datum)) / sizeof(char));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From 837d143477b785c2f7163c963553bd56a4301a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 090/103] fix: tensors whose sizes overflow are incomplete

---
 src/util/CompressedTensor.cpp | 7 ++++++-
 src/util/Tensor.cpp           | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 10c9845..adea66a 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -139,8 +139,13 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
-  // Check if the tensor is complete
+  // Check if the tensor is complete, damaged sizes may overflow
   bool complete = input.good();
+  if ( complete && samples > 0 && maps > 0 && width > 0 && height > 0 ) {
+    const uint64_t limit = std::numeric_limits<std::size_t>::max() / sizeof ( datum );
+    complete = samples <= limit && maps <= limit / samples &&
+               width <= limit / samples / maps && height <= limit / samples / maps / width;
+  }
   if ( complete ) {
     const std::streamoff data_start = input.tellg();
     if ( data_start >= 0 ) {
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 1bc54ae..4130b7e 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -298,8 +298,13 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
 
   std::size_t elements = samples * maps * width * height;
 
-  // Check if the tensor is complete
+  // Check if the tensor is complete, damaged sizes may overflow
   bool complete = input.good();
+  if ( complete && samples > 0 && maps > 0 && width > 0 && height > 0 ) {
+    const uint64_t limit = std::numeric_limits<std::size_t>::max() / sizeof ( datum );
+    complete = samples <= limit && maps <= limit / samples &&
+               width <= limit / samples / maps && height <= limit / samples / maps / width;
+  }
   if ( complete ) {
     const std::streamoff data_start = input.tellg();
     if ( data_start >= 0 ) {
-- 
2.43.0


From d1f99fab164eaa04e60ec271cabe681d3bea3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 091/103] fix: decompression stays within the compressed data
 and the tensor

---
 include/cn24/util/CompressedTensor.h |  2 +-
 src/util/CompressedTensor.cpp        | 31 ++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/cn24/util/CompressedTensor.h b/include/cn24/util/CompressedTensor.h
index 45ff78b..e0e5180 100644
--- a/include/cn24/util/CompressedTensor.h
+++ b/include/cn24/util/CompressedTensor.h
@@ -112,7 +112,7 @@ private:
   std::size_t compressed_length_ = 0;
   
   static void CompressData(void* uncompressed, const std::size_t& uncompressed_elements, void* compressed, std::size_t& compressed_length);
-  static void DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length);
+  static void DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length, const std::size_t max_elements);
   
 public:
   
diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index adea66a..d918c88 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <fstream>
 #include <limits>
+#include <memory>
 #include <cmath>
 #include <string>
 
@@ -66,12 +67,16 @@ void CompressedTensor::Decompress(Tensor& tensor, datum* preallocated_buffer)
   if(uncompressed_buffer == nullptr)
     uncompressed_buffer = new datum[elements_];
   
-  CompressedTensor::DecompressData(uncompressed_buffer, uncompressed_elements, compressed_data_ptr_, compressed_length);
+  // Deletes the buffer if decompression fails
+  std::unique_ptr<datum[]> own_buffer(preallocated_buffer == nullptr ? uncompressed_buffer : nullptr);
+  
+  CompressedTensor::DecompressData(uncompressed_buffer, uncompressed_elements, compressed_data_ptr_, compressed_length, elements_);
   
   if(uncompressed_elements != elements_) {
     FATAL("Decompressed size mismatch!");
   }
     
+  own_buffer.release();
   tensor.Resize(samples_, width_, height_, maps_, uncompressed_buffer, false);
 }
 
@@ -327,23 +332,34 @@ void CompressedTensor::CompressData(void* uncompressed, const std::size_t& uncom
   compressed_length = bytes_out;
 }
 
-void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length)
+void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length, const std::size_t max_elements)
 {
-  unsigned int bytes_out = 0;
+  const std::size_t max_bytes = max_elements * chars_per_datum;
+  std::size_t bytes_out = 0;
   unsigned char* output_ptr = (unsigned char*)uncompressed;
   const unsigned char* input_ptr = (const unsigned char*)compressed;
   
-  for(unsigned int pos = 0; pos < compressed_length; pos++) {
+  for(std::size_t pos = 0; pos < compressed_length; pos++) {
     unsigned char current_symbol = input_ptr[pos];
     if(current_symbol == rl_marker) {
+      if(compressed_length - pos < 2) {
+        FATAL("Incomplete encoding!");
+      }
       pos++; current_symbol = input_ptr[pos];
       if(current_symbol == rl_doublemarker) {
         // Emit single marker
+        if(bytes_out == max_bytes) {
+          FATAL("Decompressed data too long!");
+        }
         *output_ptr = rl_marker;
         output_ptr++; bytes_out++;
       } else if(current_symbol == rl_rle) {
         unsigned int running_length = 0;
         
+        if(compressed_length - pos < 1 + rl_bytes + chars_per_datum) {
+          FATAL("Incomplete encoding!");
+        }
+        
         // Running length input
         for(unsigned int b = 0; b < rl_bytes; b++) {
           pos++; current_symbol = input_ptr[pos];
@@ -352,6 +368,10 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
             running_length <<= 8;
         }
         
+        if(running_length > (max_bytes - bytes_out) / chars_per_datum) {
+          FATAL("Decompressed data too long!");
+        }
+        
         for(unsigned int r = 0; r < running_length; r++) {
           for(unsigned int b = 0; b < chars_per_datum; b++) {
             pos++; current_symbol = input_ptr[pos];
@@ -366,6 +386,9 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
       }
     } else {
       // Emit directly
+      if(bytes_out == max_bytes) {
+        FATAL("Decompressed data too long!");
+      }
       *output_ptr = current_symbol;
       output_ptr++; bytes_out++;
     }
-- 
2.43.0


From b2d05d3804c97ccf27f0bc1854bcf189c37d0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 092/103] fix: count pixels exactly in BinaryStatLayer

The confusion counts were kept as floats, so they stopped growing at
2^24 pixels and the reported rates drifted away from the data.
---
 include/cn24/net/BinaryStatLayer.h | 8 ++++----
 src/net/BinaryStatLayer.cpp        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cn24/net/BinaryStatLayer.h b/include/cn24/net/BinaryStatLayer.h
index 1343acc..5936c44 100644
--- a/include/cn24/net/BinaryStatLayer.h
+++ b/include/cn24/net/BinaryStatLayer.h
@@ -77,10 +77,10 @@ protected:
   unsigned int thresholds_ = 0;
   
   datum* threshold_values_ = nullptr;
-  datum* true_positives_ = nullptr;
-  datum* true_negatives_ = nullptr;
-  datum* false_positives_ = nullptr;
-  datum* false_negatives_ = nullptr;
+  double* true_positives_ = nullptr;
+  double* true_negatives_ = nullptr;
+  double* false_positives_ = nullptr;
+  double* false_negatives_ = nullptr;
   
   bool disabled_ = false;
 
diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index fd47811..b1081f9 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -22,10 +22,10 @@ BinaryStatLayer::BinaryStatLayer ( const unsigned int thresholds,
   LOGDEBUG << "Instance created. Using " << thresholds_ << " thresholds from " <<
            min_t << " to " << max_t;
   threshold_values_ = new datum[thresholds_];
-  true_positives_ = new datum[thresholds_];
-  false_positives_ = new datum[thresholds_];
-  true_negatives_ = new datum[thresholds_];
-  false_negatives_ = new datum[thresholds_];
+  true_positives_ = new double[thresholds_];
+  false_positives_ = new double[thresholds_];
+  true_negatives_ = new double[thresholds_];
+  false_negatives_ = new double[thresholds_];
 
   if ( thresholds_ == 1 ) {
     threshold_values_[0] = ( min_t + max_t ) / 2.0;
-- 
2.43.0


From 833e77e842c8a3f5935227d020fdfdba41b5ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 093/103] fix: sum in double precision in Tensor::PrintStats

Float sums stop growing when the tensor is large, so the printed
average, norm and variance were wrong for big tensors.
---
 src/util/Tensor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 4130b7e..5eaa4b0 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -715,12 +715,12 @@ void Tensor::PrintStats() {
 #endif
 	datum min = std::numeric_limits<datum>::max();
 	datum max = std::numeric_limits<datum>::lowest();
-	datum sum = 0;
-	datum sum_of_sqares = 0;
-	datum variance = 0;
+	double sum = 0;
+	double sum_of_sqares = 0;
+	double variance = 0;
 
 	for (unsigned int e = 0; e < elements_; e++) {
-		sum_of_sqares += data_ptr_[e] * data_ptr_[e];
+		sum_of_sqares += (double)data_ptr_[e] * (double)data_ptr_[e];
 		sum += data_ptr_[e];
 		if (data_ptr_[e] > max)
 			max = data_ptr_[e];
@@ -728,14 +728,14 @@ void Tensor::PrintStats() {
 			min = data_ptr_[e];
 	}
 
-	datum avg = sum / (datum)elements_;
-	datum l2 = sqrt(sum_of_sqares);
+	double avg = sum / (double)elements_;
+	double l2 = sqrt(sum_of_sqares);
 
 	for (unsigned int e = 0; e < elements_; e++) {
 		variance += (data_ptr_[e] - avg) * (data_ptr_[e] - avg);
 	}
 
-	variance /= (datum)elements_;
+	variance /= (double)elements_;
 
 	LOGINFO << "Minimum : " << min;
 	LOGINFO << "Maximum : " << max;
-- 
2.43.0


From d4dbc9e9590672ccde56f144d11beca4e91f043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 094/103] fix: route max-pooling gradients exactly in inputs of
 more than 2^24 pixels

The position of the maximum is stored as a float, which cannot represent
every pixel index of such an input. Store the position inside the region.
---
 src/net/AdvancedMaxPoolingLayer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index f8b77e8..0c58b3f 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -175,8 +175,10 @@ void AdvancedMaxPoolingLayer::FeedForward() {
             }
           }
           
-          // Found maximum, save
-          *maximum_mask_.data_ptr(ox, oy, map, sample) = input_width_ * miy + mix;
+          // Found maximum, save its index within the region, which
+          // a datum can represent exactly no matter how large the input is
+          *maximum_mask_.data_ptr(ox, oy, map, sample) =
+            region_width_ * (miy - oy * stride_height_) + (mix - ox * stride_width_);
           
           // Feed forward
           *output_->data.data_ptr(ox, oy, map, sample) = maximum;
@@ -234,7 +236,6 @@ void AdvancedMaxPoolingLayer::BackPropagate() {
     for (unsigned int map = 0; map < maps_; map++) {
       for (unsigned int ix = 0; ix < input_width_; ix++) {
         for(unsigned int iy = 0; iy < input_height_; iy++) {
-          const unsigned int mask_index = ix + input_width_ * iy;
           const unsigned int oxstart = (ix < region_width_) ? 
             0 : (ix - region_width_) / stride_width_+ 1;
           const unsigned int oxend = MP_HELPER_MIN(ix / stride_width_ + 1, output_width_);
@@ -246,6 +247,8 @@ void AdvancedMaxPoolingLayer::BackPropagate() {
           datum sum = 0.0;
           for (unsigned int oy = oystart; oy < oyend; oy++) {
             for (unsigned int ox = oxstart; ox < oxend; ox++) {
+              const unsigned int mask_index = region_width_ * (iy - oy * stride_height_)
+                + (ix - ox * stride_width_);
               if(*maximum_mask_.data_ptr_const(ox, oy, map, sample) == mask_index)
                 sum += *output_->delta.data_ptr_const(ox, oy, map, sample);
             }
-- 
2.43.0


From fefd95fc9408d2a57844f7a9106dc8ec9ac68a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 095/103] fix: apply the local learning rate of H-max layers
 only once

The trainer multiplies every layer's step by its local learning rate, so
the layer's gradient must not be multiplied by it as well.
---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 066e60a..2769ca0 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -192,8 +192,8 @@ void HMaxActivationFunction::BackPropagate() {
         * lambda_sparse_regularization;
   } 
   
-  weights_->delta.data_ptr()[0] = local_lr_ * delta_a;
-  weights_->delta.data_ptr()[1] = local_lr_ * delta_b;
+  weights_->delta.data_ptr()[0] = delta_a;
+  weights_->delta.data_ptr()[1] = delta_b;
   // LOGDEBUG << "delta a: " << delta_a << ", delta b:" << delta_b;
 }
   
-- 
2.43.0


From f3354e678450936e9edda389aa5a055afe7a7e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 096/103] fix: refuse OpenCL platforms and devices that do not
 exist

---
 src/util/Init.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index 9042fd4..9ad7142 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -205,6 +205,10 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
     FATAL ( "No OpenCL platforms detected!" );
   }
 
+  if ( platform_number >= platform_count ) {
+    FATAL ( "OpenCL platform " << platform_number << " does not exist!" );
+  }
+
   cl_platform_id* platform_ids = new cl_platform_id[platform_count];
   clGetPlatformIDs ( platform_count, platform_ids, NULL );
 
@@ -216,6 +220,10 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
     FATAL ( "No OpenCL devices detected!" );
   }
 
+  if ( device_number >= device_count ) {
+    FATAL ( "OpenCL device " << device_number << " does not exist!" );
+  }
+
   cl_device_id* device_ids = new cl_device_id[device_count];
   clGetDeviceIDs ( platform_ids[platform_number], CL_DEVICE_TYPE_ALL,
                    device_count, device_ids, NULL );
-- 
2.43.0


From a218f214df7984b21a6f113f9f02b7ac235c7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 097/103] fix: print complete OpenCL build logs and device
 names

---
 src/util/Init.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index 9ad7142..a061705 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -228,15 +228,20 @@ void CLHelper::Init(unsigned int platform_number, unsigned int device_number) {
   clGetDeviceIDs ( platform_ids[platform_number], CL_DEVICE_TYPE_ALL,
                    device_count, device_ids, NULL );
 
-  char device_name_buffer[256];
-  clGetDeviceInfo ( device_ids[device_number], CL_DEVICE_NAME, 256,
-                    device_name_buffer, 0 );
+  std::size_t device_name_size = 0;
+  clGetDeviceInfo ( device_ids[device_number], CL_DEVICE_NAME, 0, 0,
+                    &device_name_size );
 
-  uint32_t support_buffer;
+  // Stays empty if the device does not tell its name
+  std::string device_name_buffer ( device_name_size + 1, '\0' );
+  clGetDeviceInfo ( device_ids[device_number], CL_DEVICE_NAME, device_name_size,
+                    &device_name_buffer[0], 0 );
+
+  uint32_t support_buffer = 0;
   clGetDeviceInfo ( device_ids[device_number], CL_DEVICE_IMAGE_SUPPORT, 4,
                     &support_buffer, 0 );
 
-  LOGINFO << "Using OpenCL device: " << device_name_buffer;
+  LOGINFO << "Using OpenCL device: " << device_name_buffer.c_str();
   LOGDEBUG << "Image support: " << ( support_buffer ? "Yes" : "No" );
 
   device = device_ids[device_number];
@@ -478,9 +483,13 @@ cl_program CLHelper::CreateProgram ( const char* file_name ) {
   error = clBuildProgram ( program, 1, &device, NULL, NULL, NULL );
 
   if ( error != CL_SUCCESS ) {
-    char build_log[16384];
-    clGetProgramBuildInfo ( program, device, CL_PROGRAM_BUILD_LOG, 16384, build_log, NULL );
-    LOGERROR << "Error compiling kernel " << file_name << ":\n" << std::string ( build_log );
+    std::size_t build_log_size = 0;
+    clGetProgramBuildInfo ( program, device, CL_PROGRAM_BUILD_LOG, 0, NULL, &build_log_size );
+
+    // Stays empty if there is no build log
+    std::string build_log ( build_log_size + 1, '\0' );
+    clGetProgramBuildInfo ( program, device, CL_PROGRAM_BUILD_LOG, build_log_size, &build_log[0], NULL );
+    LOGERROR << "Error compiling kernel " << file_name << ":\n" << build_log.c_str();
     FATAL ( "Compilation failed, exiting..." );
   }
 
-- 
2.43.0


From e15f3dadf045ff67632b372b52279867234b1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 098/103] fix: read tensors that cannot be memory-mapped

---
 src/util/CompressedTensor.cpp | 30 ++++++++++++++++++++++--------
 src/util/Tensor.cpp           | 30 ++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index d918c88..b5eb260 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -34,6 +34,12 @@
 #include "CLHelper.h"
 
 namespace Conv {
+
+#ifdef BUILD_POSIX
+// The number of maps of a process is limited, further tensors are read into memory
+static std::size_t mapped_tensors = 0;
+static const std::size_t max_mapped_tensors = 16384;
+#endif
   
 const unsigned int chars_per_datum = sizeof(Conv::datum)/sizeof(char);
 
@@ -175,7 +181,8 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
     
   if ( compressed_length > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-    if(try_mmap && fd != 0) {
+    bool mapped = false;
+    if(try_mmap && fd != 0 && mapped_tensors < max_mapped_tensors) {
       // Get page size
       long int page_size = sysconf(_SC_PAGESIZE);
       long int current_position = input.tellg();
@@ -187,14 +194,20 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       void* target_mmap = mmap(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        LOGDEBUG << "Memory map failed, reading instead: " << errno;
+      } else {
+        mapped = true;
+        mapped_tensors++;
+        original_mmap_ = target_mmap;
+
+        target_mmap = (void*)(((long)target_mmap) + offset_in_page);
+        Resize(samples, width, height, maps, compressed_length, (char*)target_mmap, true);
+        input.seekg(compressed_length, std::ios::cur);
       }
-      original_mmap_ = target_mmap;
-      
-      target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-      Resize(samples, width, height, maps, compressed_length, (char*)target_mmap, true);
-      input.seekg(compressed_length, std::ios::cur);
-    } else
+    }
+    if(!mapped && try_mmap && fd != 0)
+      Resize ( samples, width, height, maps, compressed_length );
+    if(!mapped)
 #endif
       input.read ( ( char* ) compressed_data_ptr_, compressed_length);
   }
@@ -209,6 +222,7 @@ void CompressedTensor::DeleteIfPossible() {
       munmap((void*)original_mmap_, (compressed_data_ptr_ - (char*)original_mmap_) + compressed_length_);
       original_mmap_ = nullptr;
       mmapped_ = false;
+      mapped_tensors--;
     } else {
 #endif
       delete[] compressed_data_ptr_;
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 5eaa4b0..7279a5e 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -34,6 +34,12 @@
 
 namespace Conv {
 
+#ifdef BUILD_POSIX
+// The number of maps of a process is limited, further tensors are read into memory
+static std::size_t mapped_tensors = 0;
+static const std::size_t max_mapped_tensors = 16384;
+#endif
+
 static bool HasExtension ( const std::string& filename, const std::string& extension ) {
   return filename.length() >= extension.length()
          && filename.compare ( filename.length() - extension.length(), extension.length(), extension ) == 0;
@@ -329,7 +335,8 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
 
   if ( elements > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-    if(try_mmap && fd != 0) {
+    bool mapped = false;
+    if(try_mmap && fd != 0 && mapped_tensors < max_mapped_tensors) {
       // Get page size
       long int page_size = sysconf(_SC_PAGESIZE);
       long int current_position = input.tellg();
@@ -341,14 +348,20 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       void* target_mmap = mmap(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        LOGDEBUG << "Memory map failed, reading instead: " << errno;
+      } else {
+        mapped = true;
+        mapped_tensors++;
+        original_mmap_ = target_mmap;
+
+        target_mmap = (void*)(((long)target_mmap) + offset_in_page);
+        Resize(samples, width, height, maps, (datum*)target_mmap, true);
+        input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
       }
-      original_mmap_ = target_mmap;
-      
-      target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-      Resize(samples, width, height, maps, (datum*)target_mmap, true);
-      input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
-    } else
+    }
+    if(!mapped && try_mmap && fd != 0)
+      Resize ( samples, width, height, maps );
+    if(!mapped)
 #endif
       input.read ( ( char* ) data_ptr_, ( elements * sizeof ( datum ) )
                   / sizeof ( char ) );
@@ -443,6 +456,7 @@ void Tensor::DeleteIfPossible() {
         munmap((void*)original_mmap_, ((char*)data_ptr_ - (char*)original_mmap_) + (elements_ * sizeof(datum)) / sizeof(char));
         original_mmap_ = nullptr;
         mmapped_ = false;
+        mapped_tensors--;
       } else {
 #endif
 #ifdef BLAS_MKL
-- 
2.43.0


From 974175a9a4cb41962c04d6367aa5113fe3e31116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:38 +0000
Subject: [PATCH 099/103] fix: report files that cannot be read instead of
 waiting for their end

---
 src/factory/ConfigurableFactory.cpp   | 18 +++++++++++++++---
 src/util/CompressedTensor.cpp         |  6 ++++++
 src/util/CompressedTensorStream.cpp   |  4 ++++
 src/util/FloatTensorStream.cpp        |  4 ++++
 src/util/Init.cpp                     |  6 +++++-
 src/util/ListTensorStream.cpp         |  6 +++++-
 src/util/Tensor.cpp                   |  6 ++++++
 src/util/TensorStreamDataset.cpp      |  6 +++++-
 src/util/TensorStreamPatchDataset.cpp | 14 +++++++++++++-
 tools/makeCompressedTensorStream.cpp  |  6 +++++-
 tools/makeTensorStream.cpp            |  6 +++++-
 tools/trainNetwork.cpp                |  4 ++++
 12 files changed, 77 insertions(+), 9 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index e2d72f5..dee85fb 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -46,7 +46,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
   bool ignore_layers = false;
 
   // Calculate patch size / receptive field size
-  while (! file_.eof()) {
+  while (file_.good()) {
     std::string line;
     std::getline (file_, line);
     if (line.compare (0, 1, "#") == 0) {
@@ -130,6 +130,10 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
     }
   }
   
+  if (file_.bad()) {
+    FATAL ("Cannot read network configuration!");
+  }
+
   LOGDEBUG << "To achieve this receptive field size manually, start net config with manual rfx=" << receptive_field_x_
     << " rfy=" << receptive_field_y_ << " factorx=" << factorx << " factory=" << factory;
 
@@ -175,7 +179,7 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 		last_connection.backprop = false;
   }
 
-  while (! file_.eof()) {
+  while (file_.good()) {
     std::string line;
     std::getline (file_, line);
     if (line.compare (0, 1, "#") == 0) {
@@ -513,6 +517,10 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
   }
 
+  if (file_.bad()) {
+    FATAL ("Cannot read network configuration!");
+  }
+
 	return net.IsComplete();
 }
 
@@ -520,7 +528,7 @@ void ConfigurableFactory::InitOptimalSettings() {
   file_.clear();
   file_.seekg (0, std::ios::beg);
 
-  while (!file_.eof()) {
+  while (file_.good()) {
     std::string line;
     std::getline (file_, line);
     if (line.compare (0, 1, "#") == 0) {
@@ -547,6 +555,10 @@ void ConfigurableFactory::InitOptimalSettings() {
       optimal_settings_.optimization_method = QUICKPROP;
     }
   }
+
+  if (file_.bad()) {
+    FATAL ("Cannot read network configuration!");
+  }
 }
 
 void ConfigurableFactory::WriteNode(std::ostream& graph_output, Layer* layer, int source_id, int source_port, int node_id, int outputs) {
diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b5eb260..5e44d92 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -210,6 +210,12 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
     if(!mapped)
 #endif
       input.read ( ( char* ) compressed_data_ptr_, compressed_length);
+
+    if ( !input.good() ) {
+      LOGERROR << "Cannot read tensor from stream!";
+      input.setstate ( std::ios::eofbit | std::ios::failbit );
+      DeleteIfPossible();
+    }
   }
   else if(head_only)
     input.seekg(compressed_length, std::ios::cur);
diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index a2bdf82..b9b42ee 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -61,6 +61,10 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
     input_stream.peek();
   }
 
+  if(input_stream.bad()) {
+    FATAL("Cannot read file: " << path);
+  }
+
 #ifdef BUILD_POSIX
   // Memory maps stay valid without the descriptor
   close(input_fd);
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index db78a82..74e41b2 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -51,6 +51,10 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
     input_stream.peek();
   }
 
+  if(input_stream.bad()) {
+    FATAL("Cannot read file: " << path);
+  }
+
 #ifdef BUILD_POSIX
   // Memory maps stay valid without the descriptor
   close(input_fd);
diff --git a/src/util/Init.cpp b/src/util/Init.cpp
index a061705..7ee6f6b 100644
--- a/src/util/Init.cpp
+++ b/src/util/Init.cpp
@@ -110,13 +110,17 @@ void System::Init(int requested_log_level) {
   if(config_file.good()) {
     LOGINFO << "Loading config file: " << config_path;
     
-    while (!config_file.eof()) {
+    while (config_file.good()) {
       std::string line;
       std::getline (config_file, line);
       
       ParseUIntIfPossible(line, "opencl_platform", platform_number);
       ParseUIntIfPossible(line, "opencl_device", device_number);
     }
+
+    if (config_file.bad()) {
+      FATAL("Cannot read config file: " << config_path);
+    }
   } else {
 #ifdef BUILD_OPENCL
     LOGINFO << "Could not find a config file, using default OpenCL settings.";
diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index d5124a5..09a3632 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -191,7 +191,7 @@ namespace Conv {
 		unsigned int tensor_count = 0;
 		
 		// Iterate through lists of images and labels
-		while ( !image_list_file.eof() ) {
+		while ( image_list_file.good() ) {
 			std::string image_fname;
 			std::string label_fname;
 			std::getline ( image_list_file, image_fname );
@@ -220,6 +220,10 @@ namespace Conv {
 			
 			tensor_count += 2;
 		}
+
+		if ( image_list_file.bad() || label_list_file.bad() ) {
+			FATAL ( "Cannot read file lists!" );
+		}
 		
 		return tensor_count;
 	}
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 7279a5e..7363a71 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -365,6 +365,12 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
 #endif
       input.read ( ( char* ) data_ptr_, ( elements * sizeof ( datum ) )
                   / sizeof ( char ) );
+
+    if ( !input.good() ) {
+      LOGERROR << "Cannot read tensor from stream!";
+      input.setstate ( std::ios::eofbit | std::ios::failbit );
+      DeleteIfPossible();
+    }
   }
   else if(head_only)
     input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 72a4ae1..58a0bb7 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -305,7 +305,7 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
   file.clear();
   file.seekg (0, std::ios::beg);
 
-  while (! file.eof()) {
+  while (file.good()) {
     std::string line;
     std::getline (file, line);
     
@@ -369,6 +369,10 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
     ParseStringIfPossible (line, "testing", testing_file);
   }
 
+  if (file.bad()) {
+    FATAL ("Cannot read dataset configuration!");
+  }
+
   LOGDEBUG << "Loading dataset with " << classes << " classes";
   LOGDEBUG << "Training tensor: " << training_file;
   LOGDEBUG << "Testing tensor: " << testing_file;
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index d21dee1..e4133e7 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -96,6 +96,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 
 	tensors_ = (tensor_count_testing_ + tensor_count_training_) / 2;
 
+	if (training_stream.bad() || testing_stream.bad()) {
+		FATAL("Cannot read tensors!");
+	}
+
 	// Reset streams
 	training_stream.clear();
 	testing_stream.clear();
@@ -157,6 +161,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
     std::cout << "." << std::flush;
 	}
 
+	if (training_stream.bad() || testing_stream.bad()) {
+		FATAL("Cannot read tensors!");
+	}
+
 	input_maps_ = data_[0].maps();
 	label_maps_ = labels_[0].maps();
 }
@@ -345,7 +353,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
   file.clear();
   file.seekg (0, std::ios::beg);
 
-  while (! file.eof()) {
+  while (file.good()) {
     std::string line;
     std::getline (file, line);
     
@@ -414,6 +422,10 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     ParseStringIfPossible (line, "testing", testing_file);
   }
 
+  if (file.bad()) {
+    FATAL ("Cannot read dataset configuration!");
+  }
+
   LOGDEBUG << "Loading dataset with " << classes << " classes";
   LOGDEBUG << "Training tensor: " << training_file;
   LOGDEBUG << "Testing tensor: " << testing_file;
diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index fecc8d9..829dbb8 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -89,7 +89,7 @@ int main ( int argc, char** argv ) {
   output_file.write((char*)&magic, sizeof(uint64_t)/sizeof(char));
 
   // Iterate through lists of images and labels
-  while ( !image_list_file.eof() ) {
+  while ( image_list_file.good() ) {
     std::string image_fname;
     std::string label_fname;
     std::getline ( image_list_file, image_fname );
@@ -194,5 +194,9 @@ int main ( int argc, char** argv ) {
     compressed_label_tensor.Serialize ( output_file );
   }
 
+  if ( image_list_file.bad() || label_list_file.bad() ) {
+    FATAL ( "Cannot read file lists!" );
+  }
+
   LOGEND;
 }
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index be59f81..3353137 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -85,7 +85,7 @@ int main ( int argc, char** argv ) {
   }
 
   // Iterate through lists of images and labels
-  while ( !image_list_file.eof() ) {
+  while ( image_list_file.good() ) {
     std::string image_fname;
     std::string label_fname;
     std::getline ( image_list_file, image_fname );
@@ -185,5 +185,9 @@ int main ( int argc, char** argv ) {
     label_tensor.Serialize ( output_file );
   }
 
+  if ( image_list_file.bad() || label_list_file.bad() ) {
+    FATAL ( "Cannot read file lists!" );
+  }
+
   LOGEND;
 }
diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 3395dd7..50ab2bd 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -249,6 +249,10 @@ int main (int argc, char* argv[]) {
         std::string command;
         std::getline (script_file, command);
 
+        if (script_file.bad()) {
+          FATAL ("Cannot read " << script_fname);
+        }
+
         if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || script_file.eof())
           break;
       }
-- 
2.43.0


From f92067d80d94a0edbcbf4a89565f2f08794c4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 100/103] fix: report images and tensors that cannot be loaded
 or written

---
 src/util/JPGUtil.cpp | 15 ++++++++++++++-
 src/util/PNGUtil.cpp |  6 ++++--
 src/util/Tensor.cpp  | 28 ++++++++++++++++++++++++----
 3 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index b9ba252..6cfb1eb 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -91,7 +91,15 @@ bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
   
   jpeg_finish_decompress(&cinfo);
   jpeg_destroy_decompress(&cinfo);
+
+  // libjpeg takes a file that cannot be read any further for a short one
+  const bool read_error = ferror(in_file) != 0;
   fclose(in_file);
+
+  if(read_error) {
+    LOGERROR << "Cannot read " << file;
+    return false;
+  }
  
   return true;
 #endif
@@ -153,7 +161,12 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_finish_compress(&cinfo);
-  fclose(out_file);
+
+  if(fclose(out_file) != 0) {
+    LOGERROR << "Cannot write " << file;
+    return false;
+  }
+
   return true;
 #endif
 }
diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index dbf6c11..7626066 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -326,8 +326,10 @@ void PNGWriteToStream ( png_structp png_handle, png_bytep data,
   // We need our stream back
   png_voidp stream_ptr = png_get_io_ptr ( png_handle );
 
-  // Error checking is useless here :(
-  ( ( std::ostream* ) stream_ptr ) -> write ( ( char* ) data, length );
+  std::ostream* stream = ( std::ostream* ) stream_ptr;
+  stream->write ( ( char* ) data, length );
+  if ( !stream->good() )
+    png_error ( png_handle, "Could not write to the stream!" );
 }
 
 
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 7363a71..a849e04 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -654,7 +654,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
     if ( !input_image_file.good() )
       FATAL ( "Cannot load " << filename );
 
-    Conv::PNGUtil::LoadFromStream ( input_image_file, *this );
+    if ( !Conv::PNGUtil::LoadFromStream ( input_image_file, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -666,7 +668,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
        || ( HasExtension ( filename, "JPG" ) )
        || ( HasExtension ( filename, "JPEG" ) )
      ) {
-    Conv::JPGUtil::LoadFromFile ( filename, *this );
+    if ( !Conv::JPGUtil::LoadFromFile ( filename, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -679,6 +683,10 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
       FATAL ( "Cannot load " << filename );
 
     Deserialize ( input_image_file );
+
+    if ( !input_image_file.good() )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -697,7 +705,12 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     // Write png
-    Conv::PNGUtil::WriteToStream ( output_image_file, *this );
+    const bool written = Conv::PNGUtil::WriteToStream ( output_image_file, *this );
+    output_image_file.close();
+
+    if ( !written || !output_image_file.good() )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
@@ -709,7 +722,9 @@ void Tensor::WriteToFile ( const std::string& filename ) {
        || ( HasExtension ( filename, "JPG" ) )
        || ( HasExtension ( filename, "JPEG" ) )
      ) {
-    Conv::JPGUtil::WriteToFile ( filename, *this );
+    if ( !Conv::JPGUtil::WriteToFile ( filename, *this ) )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
@@ -722,6 +737,11 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     Serialize ( output_image_file );
+    output_image_file.close();
+
+    if ( !output_image_file.good() )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
-- 
2.43.0


From aa4fe428ed4367f91d21c1747ab261af0c65d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 101/103] fix: report files the tools and the CSV sink cannot
 write

---
 src/util/CSVStatSink.cpp             |  6 ++++++
 tools/compressTensorStream.cpp       |  8 ++++++++
 tools/makeCompressedTensorStream.cpp |  6 ++++++
 tools/makeTensorStream.cpp           |  6 ++++++
 tools/tensorStreamTool.cpp           | 16 ++++++++++++++++
 tools/tensorTool.cpp                 | 14 ++++++++++++++
 tools/trainNetwork.cpp               | 13 ++++++++++---
 7 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index a76d49b..604f7c3 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -46,6 +46,9 @@ void CSVStatSink::Process(Conv::HardcodedStats &hardcoded_stats, std::vector<Sta
   }
   (*csv_stream_) << "\n";
   (*csv_stream_) << std::flush;
+
+  if(!csv_stream_->good())
+    LOGERROR << "Cannot write CSV file!";
   
 }
   
@@ -90,6 +93,9 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
   }
   (*csv_stream_) << "\n";
   (*csv_stream_) << std::flush;
+
+  if(!csv_stream_->good())
+    LOGERROR << "Cannot write CSV file!";
 }
   
 }
\ No newline at end of file
diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index fc02079..d8572cd 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -65,6 +65,14 @@ int main(int argc, char** argv) {
     
     input_tensor_stream.peek();
   }
+
+  if(input_tensor_stream.bad())
+    FATAL("Cannot read " << input_file_name);
+
+  output_tensor_stream.close();
+  if(!output_tensor_stream.good())
+    FATAL("Cannot write " << output_file_name);
+
   LOGINFO << "Overall ratio: " << 100.0 * (double)compressed_total / (double)uncompressed_total << "%";
   LOGINFO << "Uncompressed: " << uncompressed_total;
   LOGINFO << "Compressed  : " << compressed_total;
diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 829dbb8..2c5e538 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -198,5 +198,11 @@ int main ( int argc, char** argv ) {
     FATAL ( "Cannot read file lists!" );
   }
 
+  output_file.close();
+
+  if ( !output_file.good() ) {
+    FATAL ( "Cannot write output file!" );
+  }
+
   LOGEND;
 }
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 3353137..9b257f3 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -189,5 +189,11 @@ int main ( int argc, char** argv ) {
     FATAL ( "Cannot read file lists!" );
   }
 
+  output_file.close();
+
+  if ( !output_file.good() ) {
+    FATAL ( "Cannot write output file!" );
+  }
+
   LOGEND;
 }
diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..d2a462b 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -25,6 +25,10 @@ int main(int argc, char* argv[]) {
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
 
+  if (!file_in.good()) {
+    FATAL("Cannot open " << argv[1]);
+  }
+
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
@@ -34,6 +38,10 @@ int main(int argc, char* argv[]) {
     LOGINFO << "Tensor loaded: " << tensor;
   }
 
+  if (file_in.bad()) {
+    FATAL("Cannot read " << argv[1]);
+  }
+
   // Compare the number of tensors in the stream to the specified output number
   if (tensors_in_file < t_count) {
     LOGERROR << "There are less than " << t_count << " Tensors in the specified file!";
@@ -53,6 +61,10 @@ int main(int argc, char* argv[]) {
     for (unsigned int t = 0; t < t_count; t++)
       tensors[t].Deserialize(file_in);
 
+    if (!file_in.good()) {
+      FATAL("Cannot read " << argv[1]);
+    }
+
     // Close the istream, open an ostream
     file_in.close();
 
@@ -65,6 +77,10 @@ int main(int argc, char* argv[]) {
 
     file_out.close();
 
+    if (!file_out.good()) {
+      FATAL("Cannot write " << argv[1]);
+    }
+
     LOGINFO << "DONE!";
   }
 
diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 9a268a4..22bf284 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -44,6 +44,10 @@ int main ( int argc, char* argv[] ) {
   // Open tensor stream
   std::ifstream file ( std::string ( argv[1] ), std::ios::in | std::ios::binary );
 
+  if ( !file.good() ) {
+    FATAL ( "Cannot open " << argv[1] );
+  }
+
   // Seek until id is hit
   Conv::Tensor tensor;
 
@@ -51,6 +55,10 @@ int main ( int argc, char* argv[] ) {
     tensor.Deserialize ( file );
   }
 
+  if ( !file.good() ) {
+    FATAL ( "Cannot read tensor " << tid << " of " << argv[1] );
+  }
+
   file.close();
 
   LOGINFO << "Tensor: " << tensor;
@@ -123,6 +131,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
     std::ofstream o ( filename, std::ios::out | std::ios::binary );
     tensor.Serialize ( o );
     o.close();
+
+    if ( !o.good() )
+      std::cout << "Did not work." << std::endl;
   }
 
   else if ( entry.compare ( "bin" ) == 0 ) {
@@ -135,6 +146,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
 
     tensor.Serialize ( o, true );
     o.close();
+
+    if ( !o.good() )
+      std::cout << "Did not work." << std::endl;
   }
 
 #ifdef BUILD_GUI
diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 50ab2bd..4444127 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -382,12 +382,16 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
 
       if (param_file.good()) {
         graph.SerializeParameters (param_file);
-        LOGINFO << "Written parameters to " << param_file_name;
+        param_file.close();
+
+        if (param_file.good()) {
+          LOGINFO << "Written parameters to " << param_file_name;
+        } else {
+          LOGERROR << "Cannot write " << param_file_name;
+        }
       } else {
         LOGERROR << "Cannot open " << param_file_name;
       }
-
-      param_file.close();
     }
   } else if (command.compare (0, 14, "set experiment") == 0) {
     std::string experiment_name = "";
@@ -447,6 +451,9 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
 			}
 			graph_output << "}";
 			graph_output.close();
+			if (!graph_output.good()) {
+				LOGERROR << "Cannot write " << param_file_name;
+			}
 		}
 	}
 	else if (command.compare(0, 5, "wstat") == 0) {
-- 
2.43.0


From 8d26808ac2d17802308045d3c08ccf8a37259a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 102/103] fix: classify images with networks that scale down
 more than 8 times

---
 tools/classifyImage.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index 2d57caa..d7e4e02 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -59,7 +59,7 @@ int main (int argc, char* argv[]) {
   // Load image
   Conv::Tensor original_data_tensor(input_image_fname);
   
-  // Rescale image
+  // Rescale image, the datasets round to multiples of 64 as well
   unsigned int width = original_data_tensor.width();
   unsigned int height = original_data_tensor.height();
   unsigned int original_width = original_data_tensor.width();
@@ -79,6 +79,21 @@ int main (int argc, char* argv[]) {
   if(height & 4)
     height+=4;
   
+  if(width & 8)
+    width+=8;
+  if(height & 8)
+    height+=8;
+  
+  if(width & 16)
+    width+=16;
+  if(height & 16)
+    height+=16;
+  
+  if(width & 32)
+    width+=32;
+  if(height & 32)
+    height+=32;
+  
   Conv::Tensor data_tensor(1, width, height, original_data_tensor.maps());
   Conv::Tensor helper_tensor(1, width, height, 2);
   data_tensor.Clear();
-- 
2.43.0


From 87b5f78b6df98a4a2db854bb63ee482af9fd7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 103/103] fix: benchmark as many parallel inputs as are counted

---
 tools/runBenchmark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/runBenchmark.cpp b/tools/runBenchmark.cpp
index 0820f17..3b70374 100644
--- a/tools/runBenchmark.cpp
+++ b/tools/runBenchmark.cpp
@@ -161,6 +161,7 @@ int main (int argc, char* argv[]) {
   
   // Parse network configuration file
   Conv::ConfigurableFactory* factory = new Conv::ConfigurableFactory(*net_config_stream, 238238, false);
+  factory->InitOptimalSettings();
   
 
   Conv::Tensor data_tensor(factory->optimal_settings().pbatchsize, width, height, INPUTMAPS);
@@ -184,7 +185,6 @@ int main (int argc, char* argv[]) {
 	bool complete = factory->AddLayers(graph, Conv::NetGraphConnection(&input_node), CLASSES);
 	if (!complete)
     FATAL("Failed completeness check, inspect model!");
-	factory->InitOptimalSettings();
 
 	LOGINFO << "Initializing net, this may take a while..." << std::flush;
 	graph.Initialize();
-- 
2.43.0

