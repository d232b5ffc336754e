From 5384e665c7c11aa1a319593a5871d459b915adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 01/17] fix: switching a network to inference left its run
 state at training

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index f8e5557..ccb6a72 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From 7f02255086057e51f526e0464372413c1a693caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 02/17] fix: window fitting checks panicked on oversized
 windows and zero strides

---
 src/tensor.rs                        | 12 ++++++++----
 src/tensor/operations/convolution.rs |  7 ++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..45de83c 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,13 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        // An empty window, a window that is larger than the image or a zero stride never fits
+        if stride == 0 || kernel_shape.di == 0 || kernel_shape.dj == 0 {
+            return false;
+        }
+        if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -487,10 +494,7 @@ impl Tensor {
 
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
-        if (image_shape.di - mask_shape.di) % stride != 0 {
-            return false;
-        }
-        if (image_shape.dj - mask_shape.dj) % stride != 0 {
+        if !Tensor::does_kernel_stride_fit_image(image_shape, mask_shape, stride) {
             return false;
         }
 
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..1d5838b 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -18,11 +18,8 @@ pub fn check_convolution_dimensions(
 
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
-    if (image_shape.di - kernel_shape.di) % stride != 0 {
-        return Err("First dimensions of kernel and shape do not match with stride");
-    }
-    if (image_shape.dj - kernel_shape.dj) % stride != 0 {
-        return Err("Secon dimensions of kernel and shape do not match with stride");
+    if !Tensor::does_kernel_stride_fit_image(image_shape, kernel_shape, stride) {
+        return Err("Dimensions of kernel and shape do not match with stride");
     }
 
     // Check if the output dimensions are correct
-- 
2.43.0


From fbcec595fb175bd17a91cd3816247ddae6e2b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 03/17] fix: kernel gradient summed the gradients of all output
 channels

---
 src/tensor/operations/convolution.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 1d5838b..0e8c4e9 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -273,21 +273,19 @@ pub fn convolution_backprop_kernel(
             for l in 0..kernel_shape.di {
                 let mut convolution_result: f32 = 0.0;
 
-                // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                // Loop over the channel of this kernel and multiply - add
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients.get_data_index(
+                            &TensorIndex { i: i, j: j, k: kernel_channel },
+                        ) as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result += image.data[image_id]
+                            * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
-- 
2.43.0


From 99d52dc01810f84729903b17f1063d47f3c44a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 04/17] fix: convolution input gradient used wrong window
 bounds

---
 src/tensor/operations/convolution.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 0e8c4e9..34450e4 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -212,15 +212,17 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
-                    // Now converting to unsigned
-                    let i_start = i_start.max(0) as u32;
-                    let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
-                    let j_start = j_start.max(0) as u32;
-                    let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    // First output position whose window still covers a (and b)
+                    let i_start = match a < kernel_shape.di {
+                        true => 0,
+                        false => (a - kernel_shape.di) / stride + 1,
+                    };
+                    let i_stop = (a / stride + 1).min(incoming_gradient_shape.di);
+                    let j_start = match b < kernel_shape.dj {
+                        true => 0,
+                        false => (b - kernel_shape.dj) / stride + 1,
+                    };
+                    let j_stop = (b / stride + 1).min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From a9e180951535ac192aebe8d9f86c09c539909764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 05/17] fix: convolutional backprop ignored the relu mask, the
 biases, accumulation and the run mode

---
 src/layer/convolutional.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..3b24245 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -233,28 +233,41 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
         // Relu backprop
-        // This repurposes the relu mask
-        tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
-
-        // Bias gradient
-
-        // Biases don't affect gradient propagation
+        let mut masked_gradient = self.relu_mask.clone();
+        tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
+
+        // Bias gradients: every output of a channel adds its gradient
+        for k in 0..self.output_shape.dk {
+            let bias_gradient = &mut self.bias_gradients[k as usize];
+            let mut total = bias_gradient.get_item(&TensorIndex::zero());
+            for j in 0..self.output_shape.dj {
+                for i in 0..self.output_shape.di {
+                    total += masked_gradient.get_item(&TensorIndex { i, j, k });
+                }
+            }
+            bias_gradient.set_item(&TensorIndex::zero(), total);
+        }
 
         // kernel gradients
         for i in 0..self.kernels.len() {
+            let mut kernel_gradient = Tensor::new(self.kernels[i].get_shape());
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
-                &mut self.kernel_gradients[i],
+                &mut kernel_gradient,
             )?;
+            Tensor::add_to_self(&mut self.kernel_gradients[i], &kernel_gradient);
         }
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &masked_gradient,
             &self.kernels,
             self.stride,
             outgoing_gradient,
@@ -282,6 +295,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From e517f81b70f00afebbb1dc8773792c471cef650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 06/17] fix: dense backprop overwrote the relu mask of the
 forward pass

---
 src/layer/fully_connected.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..f05c460 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -175,13 +175,14 @@ impl Layer for FullyConnectedLayer {
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
             // Apply the relu backrop
-            Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+            let mut masked_gradient = self.relu_mask.clone();
+            Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
             // bias gradient
-            Tensor::add_to_self(&mut self.bias_gradients, &self.relu_mask);
+            Tensor::add_to_self(&mut self.bias_gradients, &masked_gradient);
             // weights gradient
             Tensor::matrix_multiply_transpose_second(
-                &self.relu_mask,
+                &masked_gradient,
                 input,
                 &mut self.weights_gradients_intermediate,
             )?;
@@ -192,7 +193,7 @@ impl Layer for FullyConnectedLayer {
             // outgoing gradient
             Tensor::matrix_multiply_transpose_first(
                 &self.weights,
-                &self.relu_mask,
+                &masked_gradient,
                 outgoing_gradient,
             )?;
             return Ok(());
-- 
2.43.0


From 9debdcad568ebf520b36165667110813cc0b23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 07/17] fix: clearing gradients discarded what backprop needs
 from the forward pass

---
 src/layer/fully_connected.rs | 1 -
 src/layer/max_pool.rs        | 6 +-----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index f05c460..3c4e9f9 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -240,7 +240,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..fcca0a1 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -70,8 +70,6 @@ impl MaxPoolLayer {
             NetworkRunState::Training => {
                 // Allocate a vector of indices to store the origin of the max pool
                 self.max_pool_origin = vec![0; self.output_shape.total_size() as usize];
-                // Fill up all tensors with 0.0
-                self.clear_gradients();
             }
         }
     }
@@ -225,9 +223,7 @@ impl Layer for MaxPoolLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
+        // No parameters, so there are no gradients to clear
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 5282181402773e0eeebc13b35a0e08129b03bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 08/17] fix: convolutional layers accepted kernels and biases
 they cannot run with

---
 src/layer/convolutional.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 3b24245..705862a 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,17 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Kernel depth should match the input depth");
+        }
+        if biases.len() != kernels.len() {
+            return Err("There should be one bias for every kernel");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("Every bias should contain a single element");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From bd12ed0aeca1511bc95040611afac9085707eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 09/17] fix: refilling a layer in training mode kept the old
 training tensors

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 6 +++---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 705862a..de6b422 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -147,6 +147,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index fcca0a1..b95944f 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -97,6 +97,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the origin list
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..ea4f0a5 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,14 +91,14 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From a212f064cc4b65c2e6e92f8c4f86c487ab8bd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 10/17] fix: dense layers announced a wrong input depth and
 panicked on an empty output

---
 src/layer/fully_connected.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 3c4e9f9..11ae795 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -49,11 +49,7 @@ impl FullyConnectedLayer {
     pub fn new(input_size: u32, output_size: u32, name: &String) -> FullyConnectedLayer {
         let mut fcl = FullyConnectedLayer::empty();
         let weights = Tensor::new(TensorShape::new(output_size, input_size, 1));
-        let bias: Tensor = Tensor::new(TensorShape {
-            di: output_size,
-            dj: 1,
-            dk: 1,
-        });
+        let bias: Tensor = Tensor::new(TensorShape::new(output_size, 1, 1));
         fcl.fill_from_state(weights, bias, name).unwrap();
         return fcl;
     }
@@ -210,7 +206,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From 9268a3b8bd524c1bf5dde5e83a812cc881615c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 11/17] fix: softmax backprop refused every shape that is not
 one-dimensional

---
 src/layer/softmax.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index ea4f0a5..790ab7b 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::layer::Layer;
 use crate::network::NetworkRunState;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::Tensor;
 
 use super::SerializedLayer;
@@ -117,19 +117,28 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-        // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        if output.get_shape() != self.shape || incoming_gradient.get_shape() != self.shape {
+            return Err("Output and gradient should have the shape of the layer");
+        }
+        // Sum of softmax * incoming gradient over all elements -> yields 1x1x1 tensors
+        let mut sum = 0.0;
+        for k in 0..self.shape.dk {
+            for j in 0..self.shape.dj {
+                for i in 0..self.shape.di {
+                    let ti = TensorIndex { i, j, k };
+                    sum += output.get_item(&ti) * incoming_gradient.get_item(&ti);
+                }
+            }
+        }
+        self.intermediate1.set_item(&TensorIndex::zero(), sum);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
 
         // Multiply with output
 
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
+        let scalar = self.intermediate1.get_item(&TensorIndex::zero());
+        Tensor::scale(output, scalar, &mut self.intermediate2);
 
         // Element wise multiplication for diagonal elements
         Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
-- 
2.43.0


From 5072fa41b99d242ed21f2dfd8e64e9e07f3411b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 12/17] fix: softmax overflowed for large inputs

---
 src/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 45de83c..f320e69 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -595,9 +595,11 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Shift by the largest input so that the exponentials cannot overflow
+            let max = input.data.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From 6fb96a59506bd7b4dc668d14d50e5e28baf51974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 13/17] fix: loaded tensors could be inconsistent with their
 shape

---
 src/tensor.rs        | 28 ++++++++++++++++++++++++++++
 src/tensor/helper.rs |  5 +++++
 2 files changed, 33 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index f320e69..6cf2f55 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,40 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "StoredTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// A tensor as it was stored, before its consistency is checked
+#[derive(Deserialize)]
+struct StoredTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<StoredTensor> for Tensor {
+    type Error = &'static str;
+
+    fn try_from(stored: StoredTensor) -> Result<Tensor, &'static str> {
+        match stored.shape.checked_total_size() {
+            Some(size) if size as usize == stored.data.len() => {}
+            _ => return Err("Stored data does not contain the correct number of items"),
+        }
+        if stored.strides != TensorStride::new_from_shape(&stored.shape) {
+            return Err("Stored strides do not match the shape");
+        }
+        return Ok(Tensor {
+            strides: stored.strides,
+            shape: stored.shape,
+            data: stored.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 636e185..3cbf8ce 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -41,6 +41,11 @@ impl TensorShape {
         return self.di * self.dj * self.dk;
     }
 
+    // Calculate the total size, or nothing when it does not fit in 32 bits
+    pub fn checked_total_size(self: &Self) -> Option<u32> {
+        return self.di.checked_mul(self.dj)?.checked_mul(self.dk);
+    }
+
     pub fn fits_index(self: &Self, index: &TensorIndex) -> bool {
         // Check if an index fits in a certain shape
         if index.i >= self.di {
-- 
2.43.0


From 0f634f632039ab925a9a6a89fb6cce9a19558cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 14/17] fix: restoring a layer panicked on malformed data

---
 src/layer/convolutional.rs   | 10 +++++-----
 src/layer/fully_connected.rs |  6 +++---
 src/layer/max_pool.rs        |  8 ++++----
 src/layer/softmax.rs         |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index de6b422..b836535 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -176,30 +176,30 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 11ae795..4bd03fd 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -125,17 +125,17 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor = bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index b95944f..2209b4f 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -125,22 +125,22 @@ impl MaxPoolLayer {
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
         let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+            bincode::deserialize(mask_shape_data).map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 790ab7b..acf2e69 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,12 +91,12 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        let shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape = bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
-- 
2.43.0


From d267705b11fc8be930cf1fb9cbf8e06c06e2abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 15/17] fix: layers accepted shapes with more elements than a
 tensor can hold

---
 src/layer/convolutional.rs   |  7 +++++++
 src/layer/fully_connected.rs | 10 ++++++++++
 src/layer/max_pool.rs        |  3 +++
 src/layer/softmax.rs         |  3 +++
 4 files changed, 23 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index b836535..87d787f 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -139,6 +139,13 @@ impl ConvolutionalLayer {
             dk: output_depth,
         };
 
+        if input_shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
+        if output_shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
+
         // All ready for assignment
 
         self.name = name.clone();
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 4bd03fd..f2c0428 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -89,6 +89,16 @@ impl FullyConnectedLayer {
             return Err("The second dimension of bias must be 1");
         }
 
+        // The input shape is only limited by the weights when there are outputs
+        let input_shape = TensorShape {
+            di: weight_shape.dj,
+            dj: 1,
+            dk: weight_shape.dk,
+        };
+        if input_shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
+
         //ready to assign
         self.weights = weights;
         self.bias = bias;
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 2209b4f..0b56188 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -84,6 +84,9 @@ impl MaxPoolLayer {
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &mask_shape, stride) {
             return Err("Mask does not fit in image with given stride");
         }
+        if input_shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
         let (dim0, dim1) = Tensor::get_convolution_dim_fit(&input_shape, &mask_shape, stride);
 
         let output_shape = TensorShape {
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index acf2e69..3e66971 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -70,6 +70,9 @@ impl SoftmaxLayer {
         shape: TensorShape,
         name: &String,
     ) -> Result<(), &'static str> {
+        if shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
         self.shape = shape;
         self.name = name.clone();
         self.update_gradient_and_intermediate_tensors();
-- 
2.43.0


From 070e67d58ac71275548458e52d04940990ed15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 16/17] fix: a load that failed halfway left the network partly
 filled

---
 src/network.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ccb6a72..59594ea 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,7 +95,19 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        // Remember the current state so a failure halfway leaves the network as it was
+        let (input_shape, output_shape) = (self.input_shape, self.output_shape);
+        let number_of_layers = self.layers.len();
+        let number_of_states = self.intermediate_states.len();
+        let number_of_gradients = self.intermediate_gradients.len();
+        if let Err(msg) = sn.populate_network(self) {
+            self.layers.truncate(number_of_layers);
+            self.intermediate_states.truncate(number_of_states);
+            self.intermediate_gradients.truncate(number_of_gradients);
+            self.input_shape = input_shape;
+            self.output_shape = output_shape;
+            return Err(msg.into());
+        }
         return Ok(());
     }
 
-- 
2.43.0


From ee30e87becb83e9ffa2a4caf5e8b1b5690386937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 17/17] Verification hooks: parameter gradient accessors under
 cfg(rn_verif)

---
 src/layer/convolutional.rs   | 8 ++++++++
 src/layer/fully_connected.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 87d787f..7cde6e3 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -364,6 +364,14 @@ impl Layer for ConvolutionalLayer {
     }
 }
 
+// Lets the verification harnesses look at the parameter gradients
+#[cfg(rn_verif)]
+impl ConvolutionalLayer {
+    pub fn verif_gradients(self: &Self) -> (&Vec<Tensor>, &Vec<Tensor>) {
+        return (&self.kernel_gradients, &self.bias_gradients);
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index f2c0428..531b218 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -279,6 +279,14 @@ impl Layer for FullyConnectedLayer {
     }
 }
 
+// Lets the verification harnesses look at the parameter gradients
+#[cfg(rn_verif)]
+impl FullyConnectedLayer {
+    pub fn verif_gradients(self: &Self) -> (&Tensor, &Tensor) {
+        return (&self.weights_gradients, &self.bias_gradients);
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0

