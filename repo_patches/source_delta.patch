From d862db67320f6a249563cd643512152f12968f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:28 +0000
Subject: [PATCH 01/32] fix: MaxPooling pads with -inf so that padding never
 wins over negative inputs

numeric_limits<float>::min() is the smallest positive float, so a padded
window that holds only negative values produced that instead of its maximum
and lost the gradient.
---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..811c124 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, -std::numeric_limits<float>::infinity());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From 6860072d401d26a25210146a1c926217c2456077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 02/32] fix: Dropout backward applies the 1/(1-p) scale of the
 forward pass

The forward pass scales kept elements by 1/(1-p); the gradient did not.
---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 811c124..001ebb7 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -360,7 +360,7 @@ void deepworks::CPUDropoutInputGrad(const Tensor& mask,
     ConstVector m_vec(mask.data(), mask.total());
     Vector      gi_vec(grad_input.data(), grad_input.total());
 
-    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f));
+    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f) / (1 - p));
 }
 
 void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
-- 
2.43.0


From 4e936c72b59c0c71c8542632d096dde71a4ac38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 03/32] fix: BatchNorm2D re-creates its buffers when the input
 shape changes

They were allocated once, so a later batch with more elements wrote past
their end.
---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..9025334 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,10 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
-        nhwc_in  = Tensor({N, H, W, C});
-        nhwc_out = Tensor({N, H, W, C});
-    }
-
-    if (m_input_centered.empty()) {
+    // If input shape was changed need to create new buffers
+    if (nhwc_in.shape() != Shape{N, H, W, C}) {
+        nhwc_in          = Tensor({N, H, W, C});
+        nhwc_out         = Tensor({N, H, W, C});
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From d900d4ab6776decad2e6a8be7ec0ac0b2cde5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 04/32] fix: BatchNorm2D backward accumulates into the input
 gradient

It overwrote it, losing the gradient of every other consumer of the same
placeholder.
---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 9025334..b902013 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -83,8 +83,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
     int C = grad_output_shape[1];
     deepworks::utils::NCHW2NHWC(grad_output, nhwc_out);
 
-    // NB: CPUBatchNorm1DInputGrad expects that input_grad is already initiliazed.
-    deepworks::initializer::zeros(nhwc_in);
+    // NB: CPUBatchNorm1DInputGrad accumulates, so start with what is already in grad_input.
+    deepworks::utils::NCHW2NHWC(grad_input, nhwc_in);
     deepworks::CPUBatchNorm1DInputGrad({m_input_centered.data(), static_cast<int>(grad_output.total()) / C, C},
                                        {m_std.data(),C},
                                        {nhwc_out.data(), static_cast<int>(grad_output.total()) / C, C},
-- 
2.43.0


From a4f3edeca9d88bfa262f5852d2dc2ea36911679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 05/32] fix: xavierUniform uses the Glorot bound sqrt(6 /
 (fan_in + fan_out))

---
 src/initializers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/initializers.cpp b/src/initializers.cpp
index 0c0fe59..baa4595 100644
--- a/src/initializers.cpp
+++ b/src/initializers.cpp
@@ -20,7 +20,7 @@ void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
     DeepWorks_Assert(shape.size() >= 1);
     int inp_features = shape.size() == 2 ? shape[0] : tensor.total() / shape[0];
     int out_features = shape.size() == 2 ? shape[1] : shape[0];
-    auto a = std::sqrt(6.0) / (inp_features + out_features);
+    auto a = std::sqrt(6.0 / (inp_features + out_features));
     std::uniform_real_distribution<float> dist(-a, a);
     std::generate_n(tensor.data(), tensor.total(), [&dist, &gen]() { return dist(gen); });
 }
-- 
2.43.0


From 4eabdc32d5ccf073164611517f2d097acdc4ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 06/32] fix: Tensor::reshape rejects negative dimensions

{-2,-2} was accepted for four elements. The element count is also computed
in size_t.
---
 src/runtime/tensor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..15f10b3 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -95,7 +95,11 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
-    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
+
+    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
     m_descriptor->shape = shape;
-- 
2.43.0


From 7e2b463416e84caab894747c90a57cf7f1611e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 07/32] fix: Tensor computes its element count in size_t

The product of the dimensions overflowed int from 2^31 elements on.
---
 src/runtime/tensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 15f10b3..5cc6624 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -72,7 +72,7 @@ void dw::Tensor::init(const dw::Shape& shape) {
     m_descriptor->strides = calculateStrides(shape);
     m_descriptor->total   = std::accumulate(shape.begin(),
                                             shape.end(),
-                                            1,
+                                            size_t{1},
                                             std::multiplies<>());
 }
 
-- 
2.43.0


From 759316f07500d92c1148e037befe203b3ad82653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 08/32] fix: GraphBuilder visits every placeholder once

A placeholder pushed twice before it was reached (Add(x, x), an output that
also feeds another output, ...) was visited twice, which duplicated the
edges of its producer.
---
 src/model/graphbuilder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..dba1102 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,14 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
-        // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+
+        // NB: Mark node as visited. The same placeholder might be pushed several times
+        // before it's reached, e.g. if it's used as both inputs of the same operation.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From 2a261cd661262f1f38e63d1ab4ebcef375158d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 09/32] fix: model config keeps the user's order of inputs and
 outputs

They were listed in topological order, so a rebuilt or loaded model could
have them permuted.
---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..6cdc54e 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order of inputs/outputs specified by user.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (auto nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (auto nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From 7b8405e10dbaa0b20ac0807ac8cdcb371ca62b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 10/32] fix: backward doesn't modify the grad_outputs passed by
 user

The gradient of an output that also feeds other layers was accumulated into
the user's tensor.
---
 src/runtime/cpu/cpubackend.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 691455d..2b52a29 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -118,7 +118,13 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     const auto& info = m_tgraph.metadata().get<graph::Info>();
     bind(inputs      , info.in_nhs , m_mem);
     bind(outputs     , info.out_nhs, m_mem);
-    bind(grad_outputs, info.out_nhs, m_grad);
+    // NB: Output might have consumers inside the graph, whose gradients are accumulated,
+    // so make a copy in order not to change tensors passed by user.
+    for (size_t i = 0; i < info.out_nhs.size(); ++i) {
+        auto& grad = m_grad[m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>().id];
+        grad = deepworks::Tensor(grad_outputs[i].shape());
+        grad_outputs[i].copyTo(grad);
+    }
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
     auto extract_grad = [this](int id) { return m_grad[id]; };
-- 
2.43.0


From 09834746c82bd80aec661eb4a662270aeaee5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 11/32] fix: loading a truncated model, config or state throws

Failed reads were ignored: missing sizes read as zero, so a cut off file
was accepted with whatever happened to be read before.
---
 src/serialization.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..3c8e686 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -13,10 +13,17 @@ void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
 }
 
+void read_data(char* data, size_t size, std::ifstream& file) {
+    file.read(data, size);
+    if (!file) {
+        DeepWorks_Throw() << "Failed to read the file: unexpected end of data";
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
-    file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    read_data(reinterpret_cast<char*>(&value), sizeof(value), file);
     return value;
 }
 
@@ -32,8 +39,8 @@ T read_sequence(std::ifstream& file) {
     T seq{};
     auto size = read_value<size_t>(file);
     seq.resize(size);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(typename T::value_type));
+    read_data(reinterpret_cast<char*>(seq.data()),
+              size * sizeof(typename T::value_type), file);
     return seq;
 }
 
@@ -42,8 +49,9 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(T));
+    DeepWorks_Assert(size == seq.size() && "Unexpected array size");
+    read_data(reinterpret_cast<char*>(seq.data()),
+              size * sizeof(T), file);
     return seq;
 }
 
@@ -99,8 +107,8 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
                               << "Actual: " << shape;
         }
 
-        file.read(reinterpret_cast<char*>(it->second.data()),
-                  it->second.total() * sizeof(dw::Tensor::Type));
+        read_data(reinterpret_cast<char*>(it->second.data()),
+                  it->second.total() * sizeof(dw::Tensor::Type), file);
     }
 }
 
-- 
2.43.0


From a64d478625ea432f7759fa9072fd073aec2d066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 12/32] fix: save functions report files that can't be created
 or written

Open and write errors were ignored, so a save to a missing directory or a
full disk looked successful.
---
 src/serialization.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 3c8e686..87f2727 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -27,6 +27,13 @@ T read_value(std::ifstream& file) {
     return value;
 }
 
+void check_written(std::ofstream& file) {
+    // NB: Flush to find out whether the data has really been written.
+    if (!file.flush()) {
+        DeepWorks_Throw() << "Failed to write the file";
+    }
+}
+
 template <typename T>
 void write_sequence(const T& seq, std::ofstream& file) {
     write_value(seq.size(), file);
@@ -75,6 +82,7 @@ void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
         file.write(reinterpret_cast<char*>(tensor.data()),
                    tensor.total() * sizeof(dw::Tensor::Type));
     }
+    check_written(file);
 }
 
 void dw::load_state(Model::StateDict& state, const std::string& path) {
@@ -154,6 +162,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
     }
 
     file << "}";
+    check_written(file);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
@@ -265,6 +274,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
         write_sequence(op_info.out_ids, file);
         write_attributes(op_info.attrs, file);
     }
+    check_written(file);
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-- 
2.43.0


From 81de5c666f698899b8f0d80d8b9b03fc66f62f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 13/32] fix: reading an image that can't be opened throws
 instead of crashing

fclose was called with a null pointer.
---
 src/io/image_reader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..b44fc44 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -30,7 +30,6 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     FILE *infile = fopen(path.data(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -101,7 +100,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(path.data(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From b9ae97af053befdde23b5d890d2315f773a2cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 14/32] fix: ReadImage accepts string views that aren't
 null-terminated

---
 src/io/image_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b44fc44..c0862a0 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,7 +28,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
@@ -98,7 +99,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
-- 
2.43.0


From 8d8476e714bd4648031036142b0237aacb448866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 15/32] fix: PNG files shorter than the signature are rejected

The signature was compared with uninitialised memory.
---
 src/io/image_reader.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index c0862a0..d3b82f7 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -109,10 +109,8 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
     png_infop   info_ptr{};
     try {
         char header[8];
-        // FIXME: Handle that properly.
         size_t sz = fread(header, 1, 8, infile);
-        (void)sz;
-        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
+        if (sz != sizeof(header) || png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
             DeepWorks_Throw() << "File is not a PNG file: " << path;
         }
         png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
-- 
2.43.0


From f943a5b05dd448ac23da3d68cd92e290bab6722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 16/32] fix: PNG images with palette or other than 8 bits per
 sample decode properly

Rows were copied as if every sample took one byte: sub-byte depths read past
the row, 16 bit samples were split, palette indices were returned as is.
---
 src/io/image_reader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index d3b82f7..7bff578 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -126,9 +126,19 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
-        int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
+
+        // NB: Convert all formats to 8 bits per sample.
+        auto color_type = png_get_color_type(png_ptr, info_ptr);
+        if (color_type == PNG_COLOR_TYPE_PALETTE) {
+            png_set_palette_to_rgb(png_ptr);
+        }
+        if (color_type == PNG_COLOR_TYPE_GRAY) {
+            png_set_expand_gray_1_2_4_to_8(png_ptr);
+        }
+        png_set_strip_16(png_ptr);
 
         png_read_update_info(png_ptr, info_ptr);
+        int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-- 
2.43.0


From 3db5ac456ad9088c559aa3383fc0d2d141c35bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 17/32] fix: PNG reader releases its rows when decoding fails

The rows leaked, and the row table was assigned between setjmp and longjmp,
so its value was indeterminate in the error path.
---
 src/io/image_reader.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 7bff578..2dde6ef 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,6 +1,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <string>
+#include <vector>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -104,7 +105,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-    png_bytep*  row_pointers = nullptr;
     png_structp png_ptr{};
     png_infop   info_ptr{};
     try {
@@ -146,29 +146,28 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
         }
 
         deepworks::Tensor::Type *dst_data = out_tensor.data();
+        const size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
+        std::vector<png_byte>  pixels(row_bytes * height);
+        std::vector<png_bytep> row_pointers(height);
+        for (int y = 0; y < height; y++) {
+            row_pointers[y] = pixels.data() + y * row_bytes;
+        }
+
         /* read file */
+        // NB: Everything what is used after a jump here must be initialized before setjmp.
         DeepWorks_Assert(!setjmp(png_jmpbuf(png_ptr)) && "Error during read image");
 
-        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
-        for (int y = 0; y < height; y++) {
-            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
-        }
-        png_read_image(png_ptr, row_pointers);
+        png_read_image(png_ptr, row_pointers.data());
         // it's works if we have default hwc layout for tensor
         const size_t elements_per_h_channel = width * channels;
         for (int h = 0; h < height; ++h) {
             std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
         }
-        for (int y = 0; y < height; y++) {
-            free(row_pointers[y]);
-        }
     } catch (...) {
-        free(row_pointers);
         fclose(infile);
         png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
         throw;
     }
-    free(row_pointers);
     fclose(infile);
     png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
 #else
-- 
2.43.0


From 96312b62f98001a8ff8f442ea43d6a60f4b64105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 18/32] fix: corrupt JPEG files raise an exception instead of
 terminating the process

libjpeg's default error handler calls exit().
---
 src/io/image_reader.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 2dde6ef..81372c6 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -7,6 +7,7 @@
 #include <deepworks/utils/assert.hpp>
 
 #ifdef HAVE_JPEG
+#include <csetjmp>
 #include <jpeglib.h>
 #endif
 
@@ -25,10 +26,25 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+struct JpegErrorManager {
+    jpeg_error_mgr base;
+    jmp_buf        jump;
+    char           message[JMSG_LENGTH_MAX];
+};
+
+// NB: Default handler terminates the process.
+void OnJpegError(j_common_ptr cinfo) {
+    auto* err = reinterpret_cast<JpegErrorManager*>(cinfo->err);
+    cinfo->err->format_message(cinfo, err->message);
+    longjmp(err->jump, 1);
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
@@ -45,13 +61,12 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         fclose(infile);
     };
 
-    auto finish_and_destroy = [&]() {
-        (void) jpeg_finish_decompress(&cinfo);
-        destroy();
-    };
-
     try {
-        cinfo.err = jpeg_std_error(&err);
+        cinfo.err = jpeg_std_error(&err.base);
+        err.base.error_exit = OnJpegError;
+        if (setjmp(err.jump)) {
+            DeepWorks_Throw() << "Error during read header of " << path << ": " << err.message;
+        }
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, infile);
 
@@ -82,16 +97,20 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     size_t h = 0;
     // it's works if we have default hwc layout for tensor
     try {
+        if (setjmp(err.jump)) {
+            DeepWorks_Throw() << "Error during read image " << path << ": " << err.message;
+        }
         while (cinfo.output_scanline < cinfo.output_height) {
             (void) jpeg_read_scanlines(&cinfo, buffer, 1);
             std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
             ++h;
         }
+        (void) jpeg_finish_decompress(&cinfo);
     } catch (...) {
-        finish_and_destroy();
+        destroy();
         throw;
     }
-    finish_and_destroy();
+    destroy();
 
 #else
     DeepWorks_Assert(false && "Couldn't find LIBJPEG");
-- 
2.43.0


From d333a90514b59bcc1dee1c764941e00e752bc6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 19/32] fix: layers validate their input shapes before creating
 parameters

Convolution, BatchNorm2D and Linear on an input of unsupported rank read
past the end of the shape while creating their parameters.
---
 include/deepworks/base_op.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index f7f2675..eea4b60 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -31,11 +31,13 @@ struct BaseOp {
     template <typename... Placeholders>
     Placeholder operator()(Placeholders... ins) {
         auto get_shape = [](Placeholder ph) { return ph.shape(); };
+        // NB: outShape validates the inputs, so it must be called before init.
+        auto out_shape = static_cast<D*>(this)->outShape(get_shape(ins)...);
         static_cast<D*>(this)->init(get_shape(ins)...);
 
         Call call{m_info};
         call.pass({ins...});
-        return call.create(static_cast<D*>(this)->outShape(get_shape(ins)...));
+        return call.create(out_shape);
     }
 
     // NB: Generic operator() which works with vector
-- 
2.43.0


From 3203ddfb5562d937e66aacb92ac95e185cacc698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 20/32] fix: accuracy counts hits in an integer, so more than
 2^24 rows are counted

---
 src/metrics.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/metrics.cpp b/src/metrics.cpp
index 35d3e91..ccd14ba 100644
--- a/src/metrics.cpp
+++ b/src/metrics.cpp
@@ -20,15 +20,15 @@ float deepworks::metric::accuracy(const deepworks::Tensor& y_pred,
     ConstMatrix y_pred_mat(y_pred.data(), rows, cols);
     ConstVector y_true_vec(y_true.data(), rows);
 
-    float acc = 0;
+    int correct = 0;
     ConstMatrix::Index pred_col;
     // FIXME: Calculate without loop
     for (int i = 0; i < rows; i++) {
         y_pred_mat.row(i).maxCoeff(&pred_col);
         auto label = y_true_vec[i];
-        acc += pred_col == label;
+        correct += pred_col == label;
     }
-    return acc / rows;
+    return static_cast<float>(correct) / rows;
 }
 
 float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
@@ -41,13 +41,13 @@ float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
 
     ConstMatrix y_pred_mat(y_pred.data(), rows, cols);
     ConstMatrix y_true_mat(y_true.data(), rows, cols);
-    float acc = 0;
+    int correct = 0;
     ConstMatrix::Index pred_col, label_col;
     // FIXME: Calculate without loop
     for (int i = 0; i < rows; i++) {
         y_pred_mat.row(i).maxCoeff(&pred_col);
         y_true_mat.row(i).maxCoeff(&label_col);
-        acc += pred_col == label_col;
+        correct += pred_col == label_col;
     }
-    return acc / rows;
+    return static_cast<float>(correct) / rows;
 }
-- 
2.43.0


From f1597061df9ca01728350c205e5016a3e9a3e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:37 +0000
Subject: [PATCH 21/32] fix: a model starts at the placeholders given as its
 inputs, used or not

---
 src/model/graphbuilder.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index dba1102..848a825 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stack>
 
 #include <ade/util/zip_range.hpp>   // util::indexed
@@ -9,6 +10,12 @@
 
 namespace graph = deepworks::graph;
 
+static bool isInput(const deepworks::Placeholders& ins, const deepworks::Placeholder& ph) {
+    return std::any_of(ins.begin(), ins.end(), [&ph](const deepworks::Placeholder& in) {
+        return &in.impl() == &ph.impl();
+    });
+}
+
 deepworks::GraphBuilder::GraphBuilder(graph::Graph& g)
     : m_graph(g), m_tgraph(m_graph) {
 }
@@ -37,7 +44,7 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     for (auto&& ph : unrolled.all_data) {
         // NB: Input node was connected on previous step.
         auto&& phimpl = ph.impl();
-        if (!phimpl.call) {
+        if (!phimpl.call || isInput(ins, ph)) {
             continue;
         }
 
@@ -50,7 +57,8 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     }
 
     // Get handles associated with plahceholders
-    auto extract = [this](const Placeholder& ph) { return m_data[&ph.impl()]; };
+    // NB: Create the node if there are no operations which use the placeholder.
+    auto extract = [this](const Placeholder& ph) { return getDataNode(ph); };
 
     std::vector<ade::NodeHandle> in_handles;
     in_handles.reserve(ins.size());
@@ -100,7 +108,8 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-        if (!has_call) {
+        // The model also starts from the placeholders specified as inputs by user.
+        if (!has_call || isInput(ins, data)) {
             continue;
         }
 
-- 
2.43.0


From ab70652eec2b898ec1f4efd1d792f6aae992bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:37 +0000
Subject: [PATCH 22/32] fix: outputs that repeat or that are inputs as well are
 filled, and their gradients summed

---
 src/runtime/cpu/cpubackend.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 2b52a29..306f093 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -1,5 +1,8 @@
 #include "runtime/cpu/cpubackend.hpp"
 
+#include <algorithm>
+#include <functional>
+
 #include <deepworks/shape.hpp>
 #include <deepworks/initializers.hpp>
 
@@ -77,8 +80,9 @@ void dwcpu::CPUBackend::bind(const std::vector<deepworks::Tensor>& tensors,
 void dwcpu::CPUBackend::forward(const std::vector<deepworks::Tensor>& inputs,
                                       std::vector<deepworks::Tensor>& outputs) {
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs , info.in_nhs,  m_mem);
+    // NB: Input might be listed among outputs as well, so bind inputs last.
     bind(outputs, info.out_nhs, m_mem);
+    bind(inputs , info.in_nhs,  m_mem);
 
     auto extract = [this](int id) { return m_mem[id]; };
 
@@ -96,6 +100,15 @@ void dwcpu::CPUBackend::forward(const std::vector<deepworks::Tensor>& inputs,
         const auto& cpulayer = cpu_graph.metadata(nh).get<dwcpu::CPUImpl>().impl;
         cpulayer->forward(inps, outs);
     }
+
+    // NB: Fill outputs which aren't bound: the ones which are inputs as well
+    // and the ones listed several times.
+    for (size_t i = 0; i < info.out_nhs.size(); ++i) {
+        const auto& mem = m_mem[m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>().id];
+        if (mem.data() != outputs[i].data()) {
+            mem.copyTo(outputs[i]);
+        }
+    }
 }
 
 void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
@@ -116,14 +129,19 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     }
 
     const auto& info = m_tgraph.metadata().get<graph::Info>();
-    bind(inputs      , info.in_nhs , m_mem);
     bind(outputs     , info.out_nhs, m_mem);
+    bind(inputs      , info.in_nhs , m_mem);
     // NB: Output might have consumers inside the graph, whose gradients are accumulated,
     // so make a copy in order not to change tensors passed by user.
     for (size_t i = 0; i < info.out_nhs.size(); ++i) {
         auto& grad = m_grad[m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>().id];
-        grad = deepworks::Tensor(grad_outputs[i].shape());
-        grad_outputs[i].copyTo(grad);
+        grad = deepworks::Tensor::zeros(grad_outputs[i].shape());
+    }
+    // NB: The same output might be listed several times.
+    for (size_t i = 0; i < info.out_nhs.size(); ++i) {
+        auto& grad = m_grad[m_tgraph.metadata(info.out_nhs[i]).get<graph::Data>().id];
+        std::transform(grad_outputs[i].data(), grad_outputs[i].data() + grad_outputs[i].total(),
+                       grad.data(), grad.data(), std::plus<deepworks::Tensor::Type>());
     }
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
-- 
2.43.0


From cc0b933de1572abb222651a4c3fa62326766fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:18 +0000
Subject: [PATCH 23/32] fix: generated layer names don't repeat names which are
 already in use

---
 src/model/model.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 6cdc54e..5094e6d 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -63,6 +63,13 @@ static void initNodeId(TypedGraph& tgraph) {
         tgraph.metadata(nh).get<Data>().id = idx;
     }
 
+    // NB: Generated names mustn't repeat the names which layers already have.
+    std::unordered_set<std::string> used_names;
+    sorted  = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
+    for (auto nh : ade::util::filter(sorted, is_op{tgraph})) {
+        used_names.insert(tgraph.metadata(nh).get<deepworks::graph::Op>().info.impl().name);
+    }
+
     // NB: Setup op in/out ids.
     sorted  = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
     for (auto it : ade::util::indexed(ade::util::filter(sorted, is_op{tgraph}))) {
@@ -74,10 +81,15 @@ static void initNodeId(TypedGraph& tgraph) {
         // NB: If name wasn't set by user let's generate it
         // according to the type and possition in sorted operation list.
         if (op.info.impl().name.empty()) {
-            std::string name;
+            std::string prefix;
             const auto& type = op.info.impl().type;
-            std::transform(type.begin(), type.end(), std::back_inserter(name), ::tolower);
-            name += std::to_string(idx);
+            std::transform(type.begin(), type.end(), std::back_inserter(prefix), ::tolower);
+
+            auto number = idx;
+            auto name   = prefix + std::to_string(number);
+            while (!used_names.insert(name).second) {
+                name = prefix + std::to_string(++number);
+            }
             op.info.impl().name = name;
         }
 
-- 
2.43.0


From 2162845345772de7d8c0190f09cc20d99b28bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 24/32] fix: save_dot quotes the layer names

---
 src/serialization.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87f2727..3c73351 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <iomanip>
 
 #include <deepworks/serialization.hpp>
 #include <ade/util/zip_range.hpp>
@@ -135,8 +136,9 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
     for (const auto& op : cfg.sorted_ops) {
         // FIXME: Dump more info, attributes, parameters, named buffers...
-        file << op.name << " [shape=box, label=\"" << op.name
-                        << " (" << op.type << ")" << "\" ]" << std::endl;
+        // NB: Names are quoted, because they may contain any characters.
+        file << std::quoted(op.name) << " [shape=box, label="
+             << std::quoted(op.name + " (" + op.type + ")") << " ]" << std::endl;
     }
 
     for (const auto& op : cfg.sorted_ops) {
@@ -146,7 +148,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(in_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << name << " -> \"" << op.name << "\" [ label = \"in_port: "
+            file << name << " -> " << std::quoted(op.name) << " [ label = \"in_port: "
                << port << "\" ]" << std::endl;
         }
 
@@ -156,7 +158,7 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(out_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << op.name << " -> " << name << " [ label = \"out_port: "
+            file << std::quoted(op.name) << " -> " << name << " [ label = \"out_port: "
                << port << "\" ];" << std::endl;
         }
     }
-- 
2.43.0


From 4edb1c72320f3d2ff41fa85431b733bd45bf16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 25/32] fix: iris sample reports a dataset file that can't be
 opened

---
 samples/iris/utility.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/samples/iris/utility.cpp b/samples/iris/utility.cpp
index 74013b4..ffa046e 100644
--- a/samples/iris/utility.cpp
+++ b/samples/iris/utility.cpp
@@ -31,6 +31,9 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
     std::ifstream iris_dataset;
     iris_dataset.open(csv_path);
+    if (!iris_dataset.is_open()) {
+        throw std::runtime_error("Can't open file: " + csv_path);
+    }
 
     std::string iris;
     // read headers
-- 
2.43.0


From ab44c32674e1460647ffd3c3e2bbfa8f9b74ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 26/32] fix: iris sample rejects malformed rows and unknown
 species

---
 samples/iris/utility.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/samples/iris/utility.cpp b/samples/iris/utility.cpp
index ffa046e..16468df 100644
--- a/samples/iris/utility.cpp
+++ b/samples/iris/utility.cpp
@@ -41,13 +41,17 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
     while (std::getline(iris_dataset, iris)) {
         auto features = SplitLineByComma(iris);
+        auto label_it = m_iris2label.find(features.back());
+        if (features.size() != 5 || label_it == m_iris2label.end()) {
+            throw std::runtime_error("Malformed row: \"" + iris + "\" in file: " + csv_path);
+        }
 
         float sepal_length = std::atof(features[0].c_str());
         float sepal_width  = std::atof(features[1].c_str());
         float petal_length = std::atof(features[2].c_str());
         float petal_width  = std::atof(features[3].c_str());
 
-        int label = m_iris2label[features[4]];
+        int label = label_it->second;
 
         m_info.push_back(IrisInfo{sepal_length, sepal_width, petal_length, petal_width, label});
     }
-- 
2.43.0


From b4dd875f686c017795b3e962f326845117d85a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 27/32] fix: cifar10 sample rejects folders that aren't a class

---
 samples/cifar10/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/cifar10/utility.cpp b/samples/cifar10/utility.cpp
index b41c83a..af92df1 100644
--- a/samples/cifar10/utility.cpp
+++ b/samples/cifar10/utility.cpp
@@ -26,7 +26,7 @@ void custom::normalize(dw::Tensor& t, float scale) {
 
 custom::CIFAR10Dataset::CIFAR10Dataset(const std::string& root) {
     for (const auto & dir : fs::directory_iterator(root)) {
-        int label = label2digit[dir.path().filename()];
+        int label = label2digit.at(dir.path().filename());
         for (const auto& filename : fs::directory_iterator(dir.path())) {
             m_info.push_back(custom::CIFAR10Dataset::DataInfo{filename.path(), label});
         }
-- 
2.43.0


From d8bddc8eab570656e05530218b680799f032bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 28/32] fix: labels of cifar100 sample don't depend on the
 listing order of folders

---
 samples/cifar100/utility.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/samples/cifar100/utility.cpp b/samples/cifar100/utility.cpp
index fe681c8..71a6aa6 100644
--- a/samples/cifar100/utility.cpp
+++ b/samples/cifar100/utility.cpp
@@ -15,14 +15,22 @@ void custom::normalize(dw::Tensor& t, float scale) {
 }
 
 custom::CIFAR100Dataset::CIFAR100Dataset(const std::string& root) {
+    // NB: Labels are given in order of class names, the order of
+    // directory_iterator is unspecified.
+    std::vector<fs::path> dirs;
     for (const auto & dir : fs::directory_iterator(root)) {
+        dirs.push_back(dir.path());
+    }
+    std::sort(dirs.begin(), dirs.end());
+
+    for (const auto & dir : dirs) {
         int label;
-        auto res_find = dir2label_.find(dir.path().filename());
+        auto res_find = dir2label_.find(dir.filename());
         if (res_find != dir2label_.end()) {
             label = res_find->second;
         } else {
             label = label_counter_;
-            dir2label_[dir.path().filename()] = label_counter_;
+            dir2label_[dir.filename()] = label_counter_;
             label_counter_++;
         }
 
@@ -30,7 +38,7 @@ custom::CIFAR100Dataset::CIFAR100Dataset(const std::string& root) {
             throw std::logic_error("Unsupported label\n");
         }
 
-        for (const auto& filename : fs::directory_iterator(dir.path())) {
+        for (const auto& filename : fs::directory_iterator(dir)) {
             m_info.push_back(custom::CIFAR100Dataset::DataInfo{filename.path(), label});
         }
     }
-- 
2.43.0


From 34e99f51bb6a209e47f07d63206b4963b59d470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 29/32] fix: Dropout re-creates its mask when the input shape
 changes between passes

---
 src/runtime/cpu/layers/cpudropout.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/cpu/layers/cpudropout.cpp b/src/runtime/cpu/layers/cpudropout.cpp
index 6bc9117..80ba476 100644
--- a/src/runtime/cpu/layers/cpudropout.cpp
+++ b/src/runtime/cpu/layers/cpudropout.cpp
@@ -24,6 +24,10 @@ void deepworks::cpu::CPUDropout::forward(const std::vector<deepworks::Tensor>& i
 
     if (m_info.params().at("mask").is_trainable()) {
         float p = m_info.impl().attrs["p"].get<float>();
+        // If input shape was changed need to create new mask
+        if (m_mask.shape() != input.shape()) {
+            m_mask = Tensor(input.shape());
+        }
         deepworks::CPUDropoutForward(input, m_mask, output, p);
     } else {
         input.copyTo(output);
-- 
2.43.0


From 4963844633b27edfa45f769dad31886591cab674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:13 +0000
Subject: [PATCH 30/32] fix: give every thread a random generator of its own
 (threads raced on the shared one)

---
 src/utils/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/generator.hpp b/src/utils/generator.hpp
index 7e87543..3e36dfd 100644
--- a/src/utils/generator.hpp
+++ b/src/utils/generator.hpp
@@ -6,7 +6,7 @@ namespace deepworks {
 namespace utils {
 
 inline std::mt19937& generator() {
-    static std::mt19937 gen{std::random_device{}()};
+    static thread_local std::mt19937 gen{std::random_device{}()};
     return gen;
 }
 
-- 
2.43.0


From b1a2107941cc120cf08043a9af49a657e6d53db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:06 +0000
Subject: [PATCH 31/32] fix: BatchNorm1D rejects mixed train modes before it
 touches what backward needs (a rejected forward made the next backward run
 out of bounds)

---
 src/runtime/cpu/layers/cpubatchnorm1d.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.cpp b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
index 312162f..37a1b46 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
@@ -33,11 +33,6 @@ void deepworks::cpu::CPUBatchNorm1D::forward(const std::vector<deepworks::Tensor
     const auto& in_shape  = input.shape();
     const auto& out_shape = output.shape();
 
-    // If change batch_size need to create new m_input_centered tensor
-    if (m_input_centered.shape() != input.shape()) {
-        m_input_centered = Tensor(in_shape);
-    }
-
     // Check if model in train mode
     bool gamma_is_trainable = m_info.params().at("gamma").is_trainable();
     bool beta_is_trainable  = m_info.params().at("beta").is_trainable();
@@ -47,6 +42,11 @@ void deepworks::cpu::CPUBatchNorm1D::forward(const std::vector<deepworks::Tensor
     DeepWorks_Assert(gamma_is_trainable == beta_is_trainable &&
                      "Gamma and beta should have same trainable mode");
 
+    // If change batch_size need to create new m_input_centered tensor
+    if (m_input_centered.shape() != input.shape()) {
+        m_input_centered = Tensor(in_shape);
+    }
+
     const auto& gamma_shape           = m_gamma.shape();
     const auto& beta_shape            = m_beta.shape();
     const auto& input_centered_shape  = m_input_centered.shape();
-- 
2.43.0


From 174a4d4b3d6d3f3a58876a65bff80db63cbe01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 32/32] fix: BatchNorm rejects backward without forward (it
 read tensors which don't exist)

---
 src/runtime/cpu/layers/cpubatchnorm1d.cpp | 3 +++
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/runtime/cpu/layers/cpubatchnorm1d.cpp b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
index 37a1b46..9787ca7 100644
--- a/src/runtime/cpu/layers/cpubatchnorm1d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm1d.cpp
@@ -72,6 +72,8 @@ void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tenso
                                               const std::vector<deepworks::Tensor>& /* outputs */,
                                               const std::vector<deepworks::Tensor>& grad_outputs,
                                               std::vector<deepworks::Tensor>& grad_inputs) {
+    DeepWorks_Assert(!m_input_centered.empty() && "Call backward without forward");
+
     const auto& input_centered_shape  = m_input_centered.shape();
     const auto& std_shape             = m_std.shape();
     const auto& gamma_shape           = m_gamma.shape();
@@ -89,6 +91,7 @@ void deepworks::cpu::CPUBatchNorm1D::backward(const std::vector<deepworks::Tenso
 
 void deepworks::cpu::CPUBatchNorm1D::updateGradients(const std::vector<Tensor>& /* inputs */,
                                                      const std::vector<Tensor>& grad_outputs) {
+    DeepWorks_Assert(!m_input_centered.empty() && "Call backward without forward");
 
     const auto& input_centered_shape  = m_input_centered.shape();
     const auto& std_shape             = m_std.shape();
diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index b902013..a010f88 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -75,6 +75,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
                                               const std::vector<deepworks::Tensor>& /* outputs */,
                                               const std::vector<deepworks::Tensor>& grad_outputs,
                                               std::vector<deepworks::Tensor>& grad_inputs) {
+    DeepWorks_Assert(!m_input_centered.empty() && "Call backward without forward");
+
     const auto& input_centered_shape  = m_input_centered.shape();
     const auto& grad_output           = grad_outputs.front();
     const auto& grad_output_shape     = grad_output.shape();
@@ -96,6 +98,8 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
 
 void deepworks::cpu::CPUBatchNorm2D::updateGradients(const std::vector<Tensor>& /* inputs */,
                                                      const std::vector<Tensor>& grad_outputs) {
+    DeepWorks_Assert(!m_input_centered.empty() && "Call backward without forward");
+
     const auto& input_centered_shape  = m_input_centered.shape();
     const auto& grad_output           = grad_outputs.front();
 
-- 
2.43.0

