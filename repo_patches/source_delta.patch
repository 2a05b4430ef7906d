From fcb5162859b4b8ab2a9eba1eaf36cc8aa70cc4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 01/26] fix: exact window indices in ordered non-coincident
 InMemoryDataset

torch.Tensor stores the indices as float32, which rounds those above 2**24
so that windows were repeated and skipped.
---
 ml4gw/dataloading/in_memory_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/in_memory_dataset.py b/ml4gw/dataloading/in_memory_dataset.py
index 04ed706..05431b1 100644
--- a/ml4gw/dataloading/in_memory_dataset.py
+++ b/ml4gw/dataloading/in_memory_dataset.py
@@ -192,7 +192,7 @@ class InMemoryDataset(torch.utils.data.IterableDataset):
             idx = zip(
                 range(num_kernels), itertools.product(*idx), strict=False
             )
-            idx = torch.stack([torch.Tensor(i[1]) for i in idx])
+            idx = torch.stack([torch.tensor(i[1]) for i in idx])
             idx = idx.type(torch.int64).to(device)
         elif self.shuffle:
             # sampling randomly but coincidentally, so we
-- 
2.43.0


From 73a4df632c35265f5b4d781266d17fd5ac80ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 02/26] fix: index each chunk with its own size in
 ChunkedTimeSeriesDataset

The channel offsets were computed from the size of the first chunk only, so
batches from a later chunk of another size mixed up channels and times.
---
 ml4gw/dataloading/chunked_dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..818810a 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -77,9 +77,9 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         # slice kernels out a flattened chunk tensor
         # index-for-index. We'll account for batch/
         # channel indices by introducing offsets later on
-        idx = torch.arange(self.kernel_size, device=self.device)
-        idx = idx.view(1, 1, -1)
-        idx = idx.repeat(self.batch_size, num_channels, 1)
+        kernel_idx = torch.arange(self.kernel_size, device=self.device)
+        kernel_idx = kernel_idx.view(1, 1, -1)
+        kernel_idx = kernel_idx.repeat(self.batch_size, num_channels, 1)
 
         # this will just be a set of aranged channel indices
         # repeated to offset the kernel indices in the
@@ -87,7 +87,6 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         channel_idx = torch.arange(num_channels, device=self.device)
         channel_idx = channel_idx.view(1, -1, 1)
         channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
 
         while True:
             # record the number of rows in the chunk, then
@@ -99,6 +98,10 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 )
             chunk = chunk.reshape(-1)
 
+            # chunks may differ in size, so the offset from one
+            # channel to the next depends on the current chunk
+            idx = kernel_idx + channel_idx * chunk_size
+
             # generate batches from the current chunk
             for _ in range(self.batches_per_chunk):
                 # first sample the indices of which chunk elements
-- 
2.43.0


From 79424f0848e89c4db0b6056aeec5e5faab7d7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 03/26] fix: accept an offset of zero in OnlineAverager

---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From aad53c73e3fce62d945fa2794acde742a4ac2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 04/26] fix: decimate each segment from its own start time in
 Decimator

---
 ml4gw/transforms/decimator.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..b95c001 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -156,11 +156,8 @@ class Decimator(torch.nn.Module):
         idx = torch.tensor([], dtype=torch.long)
 
         for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
-            stop = int(start + (s[1] - s[0]) * self.sample_rate)
+            start = int(s[0] * self.sample_rate)
+            stop = int(s[1] * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
             idx = torch.cat((idx, new_idx))
-- 
2.43.0


From 46748f97b1e40731382834aa100ccc87970dd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 05/26] fix: index relative to the start of the schedule in
 Decimator

---
 ml4gw/transforms/decimator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index b95c001..a390846 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -156,8 +156,8 @@ class Decimator(torch.nn.Module):
         idx = torch.tensor([], dtype=torch.long)
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
+            start = int((s[0] - self.schedule[0, 0]) * self.sample_rate)
+            stop = int((s[1] - self.schedule[0, 0]) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
             idx = torch.cat((idx, new_idx))
@@ -184,8 +184,8 @@ class Decimator(torch.nn.Module):
         segments = []
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
+            start = int((s[0] - self.schedule[0, 0]) * self.sample_rate)
+            stop = int((s[1] - self.schedule[0, 0]) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             idx = torch.arange(
                 start,
-- 
2.43.0


From 30709b537359cd6d64cb5a509fb9cbcf278958c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 06/26] fix: start LeakyIntegrator from zero for any lower
 bound

---
 ml4gw/transforms/integrator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..f7603f9 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -111,8 +111,6 @@ class LeakyIntegrator(torch.nn.Module):
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        offset = torch.minimum(offset, torch.zeros_like(offset))
 
         return raw_sum - offset
-- 
2.43.0


From d4f1799f786382b9e217e11cd42b71f5ede46723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 07/26] fix: keep the fit fduration of FixedWhiten in double
 precision

---
 ml4gw/transforms/whitening.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/whitening.py b/ml4gw/transforms/whitening.py
index 25b8a0c..3421bc3 100644
--- a/ml4gw/transforms/whitening.py
+++ b/ml4gw/transforms/whitening.py
@@ -158,7 +158,7 @@ class FixedWhiten(FittableSpectralTransform):
         self.register_buffer("psd", psd)
 
         # save this as a parameter since it's decided at fit time
-        fduration = torch.zeros((1,))
+        fduration = torch.zeros((1,), dtype=torch.float64)
         self.register_buffer("fduration", fduration)
 
     def fit(
@@ -249,7 +249,7 @@ class FixedWhiten(FittableSpectralTransform):
             psds.append(psd[0, 0])
         psd = torch.stack(psds)
 
-        fduration = torch.Tensor([fduration])
+        fduration = torch.tensor([fduration], dtype=torch.float64)
         self.build(psd=psd, fduration=fduration)
 
     def forward(self, X: TimeSeries3d, crop: bool = True) -> TimeSeries3d:
-- 
2.43.0


From ec4cde8603a40f171b2e03acb9467ae57d98672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 08/26] fix: honour an overlap of zero in normalize_psd

---
 ml4gw/transforms/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..dd78c45 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -54,7 +54,8 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            if overlap is None:
+                overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(nperseg, dtype=torch.float64)
-- 
2.43.0


From 2f0cffc43191301af90baf5dffb1b8faf7fac4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 09/26] fix: keep a fittable transform unbuilt when loading its
 state fails on missing keys

---
 ml4gw/transforms/transform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index dd78c45..08564d1 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -27,14 +27,15 @@ class FittableTransform(torch.nn.Module):
         return super().__call__(*args, **kwargs)
 
     def _load_from_state_dict(self, *args):
-        # keep track of number of error messages to see
-        # if trying to load these weights causes another
-        num_errs = len(args[-1])
+        # keep track of number of missing keys and error messages
+        # to see if trying to load these weights causes another
+        missing_keys, error_msgs = args[-3], args[-1]
+        num_errs = len(missing_keys) + len(error_msgs)
         ret = super()._load_from_state_dict(*args)
 
         # if we didn't create any new errors, then
         # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        if len(missing_keys) + len(error_msgs) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From 6ac1381533ba5cd6f8cc0e4edb5b08e549025ec3 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 10/26] fix: crop to the target size in match_size when more
 than one sample is left over

---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From 4e14f999701a07921fba6c4cff4291d93d3fef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 11/26] fix: pass each decoder the state of its own encoder, or
 none

---
 ml4gw/nn/autoencoder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..18d307b 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -72,7 +72,7 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
+            state = None if states is None else states[i]
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From aa49dc9be4dbd1a31145998b45f47b6047a4f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 12/26] fix: instantiate the output activation of a ConvBlock

---
 ml4gw/nn/autoencoder/convolutional.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..9fea3bb 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -56,10 +56,11 @@ class ConvBlock(Autoencoder):
         )
 
         self.activation = activation()
-        if output_activation is not None:
-            self.output_activation = output_activation
-        else:
-            self.output_activation = activation
+        if output_activation is None:
+            output_activation = activation()
+        elif isinstance(output_activation, type):
+            output_activation = output_activation()
+        self.output_activation = output_activation
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
@@ -109,7 +110,6 @@ class ConvolutionalAutoencoder(Autoencoder):
         #     skip_connection = skip_connection(groups)
         super().__init__(skip_connection=skip_connection)
 
-        output_activation = output_activation or activation
         for i, channels in enumerate(encode_channels):
             # All intermediate layers should decode to
             # the same number of channels. The last decoder
-- 
2.43.0


From c9ae76c6c7f2a4783488460b6766bfb28457c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 13/26] fix: size the innermost decoder for its unskipped input

---
 ml4gw/nn/autoencoder/convolutional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index 9fea3bb..5e16343 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -118,11 +118,10 @@ class ConvolutionalAutoencoder(Autoencoder):
             # case it will just be in_channels anyway)
             decode = in_channels if i else decode_channels
 
-            # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            # the innermost layer decodes its own encoding,
+            # which isn't combined with any skipped state
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From d9f2465c0ef31c8ffb57605526a1f3111ce446af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 14/26] fix: interleave whole groups in ConcatSkipConnect

---
 ml4gw/nn/autoencoder/skip_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..50a54d5 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,7 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        X = torch.split(X, num_channels // self.groups, dim=1)
+        state = torch.split(state, state.size(1) // self.groups, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From 95baff913af0da0f0421c9e6061bd43e30db5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 15/26] fix: allow a single residual layer in ResNet

---
 ml4gw/nn/resnet/resnet_1d.py | 1 +
 ml4gw/nn/resnet/resnet_2d.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..0c77372 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -287,6 +287,7 @@ class ResNet1D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
+        block_size = 64
         residual_layers = [self._make_layer(64, layers[0], kernel_size)]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..02d17fd 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -287,6 +287,7 @@ class ResNet2D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
+        block_size = 64
         residual_layers = [self._make_layer(64, layers[0], kernel_size)]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
-- 
2.43.0


From 64b680b740ebe34f7421dca3ac383f7d3b4a8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 16/26] fix: keep the odd last sample in Heterodyne's time
 series

---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..064bf0d 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.size(-1), dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From 6fc5f2989b469beb47d50a2780d6774615992937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 17/26] fix: normalise the density of the Cosine distribution

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..2793663 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (value.cos() * inside_range * self.norm).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From 59f9ed244514f2a6fdccac577c09b2e2413cf88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 18/26] fix: finite log_prob next to zero distance in
 UniformComovingVolume

---
 ml4gw/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 2793663..134eb26 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -347,9 +347,11 @@ class UniformComovingVolume(dist.Distribution):
         return self._linear_interp_1d(self.cdf, self.distance_grid, u)
 
     def log_prob(self, value: Tensor) -> Tensor:
-        log_prob = self._linear_interp_1d(
-            self.distance_grid, self.log_pdf, value
-        )
+        # Interpolate the density and not its logarithm, which is
+        # not finite where the density vanishes. Between the bounds
+        # and the ends of the grid, extrapolate no lower than the grid
+        pdf = self._linear_interp_1d(self.distance_grid, self.pdf, value)
+        log_prob = pdf.clamp(min=self.pdf.min()).log()
         inside_range = (value >= self.minimum) & (value <= self.maximum)
         log_prob[~inside_range] = torch.as_tensor(
             float("-inf"), device=self.minimum.device
-- 
2.43.0


From 37b991f3b6007e7399dcb8fee2cbb3ecc8bcd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 19/26] fix: keep a spline's own output coordinates across
 calls

---
 ml4gw/transforms/spline_interpolation.py | 35 ++++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..8fc0805 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,19 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix of the output x-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -310,12 +311,12 @@ class SplineInterpolate1D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +433,22 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self, C: Tensor, Bx_out: Tensor, By_out: Tensor
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix of the output x-coordinates.
+            By_out: Basis matrix of the output y-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -514,18 +519,18 @@ class SplineInterpolate2D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
+        else:
+            By_out = self.By_out
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From c8956d8dc33f3f93fdf58574b7bdd6aa208a1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 20/26] fix: leave the caller's frequency range alone in
 SingleQTransform

---
 ml4gw/transforms/qtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..df74e78 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,7 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        self.frange = list(frange or [0, torch.inf])
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From dfd297d324bf9030b9b234e507c69e089c1b2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 21/26] fix: as many time bins as asked for in the spline
 Q-transform

---
 ml4gw/transforms/qtransform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index df74e78..c50f4f9 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -259,9 +259,8 @@ class SingleQTransform(torch.nn.Module):
         idx = torch.arange(len(ntiles))
         self.stack_idx = [idx[Tensor(ntiles) == n] for n in unique_ntiles]
 
-        t_out = torch.arange(
-            0, self.duration, self.duration / self.spectrogram_shape[1]
-        )
+        num_t_bins = self.spectrogram_shape[1]
+        t_out = torch.arange(num_t_bins) * (self.duration / num_t_bins)
         self.qtile_interpolators = torch.nn.ModuleList(
             [
                 SplineInterpolate1D(
-- 
2.43.0


From 5da0776e919bfc78af1c8996ffedc2fef208d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 22/26] fix: allow a search range beyond the highest Q-tile
 frequency

---
 ml4gw/transforms/qtransform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index c50f4f9..1605f4c 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -330,9 +330,12 @@ class SingleQTransform(torch.nn.Module):
             )
 
         if fsearch_range is not None:
-            start = min(torch.argwhere(self.freqs > fsearch_range[0]))
-            stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
-            qtiles = self.qtiles[start:stop]
+            low, high = fsearch_range
+            qtiles = [
+                qtile
+                for freq, qtile in zip(self.freqs, self.qtiles, strict=True)
+                if low < freq <= high
+            ]
         else:
             qtiles = self.qtiles
 
-- 
2.43.0


From 2a31eadb63ec4e068798e785ab11cd76ca817bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:32 +0000
Subject: [PATCH 23/26] fix: order the argument lengths in
 MultiResolutionSpectrogram

---
 ml4gw/transforms/spectrogram.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index 12fc434..b327cd2 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -104,8 +104,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self.register_buffer("time_idxs", time_idxs)
 
     def _check_and_format_kwargs(self, kwargs: dict[str, list]) -> list:
-        lengths = sorted(len(v) for v in kwargs.values())
-        lengths = list(set(lengths))
+        lengths = sorted({len(v) for v in kwargs.values()})
 
         if lengths[-1] > 3:
             warnings.warn(
-- 
2.43.0


From ea4c5c3c92b4e689d7dc484ac18d9e628329082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 24/26] fix: one more dimension than the input in the
 Q-transform's output

---
 ml4gw/transforms/qtransform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 1605f4c..6366e57 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -247,6 +247,7 @@ class SingleQTransform(torch.nn.Module):
             ]
         )
         self.qtiles = None
+        self.leading_shape = None
 
         if self.interpolation_method == "spline":
             self._set_up_spline_interp()
@@ -362,6 +363,7 @@ class SingleQTransform(torch.nn.Module):
         Take the FFT of the input timeseries and calculate the transform
         for each ``QTile``
         """
+        self.leading_shape = X.shape[:-1]
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
@@ -387,7 +389,10 @@ class SingleQTransform(torch.nn.Module):
                 dim=-2,
             )
             # Transpose because the final dimension gets interpolated
-            return self.interpolator(time_interped.mT).mT
+            resampled = self.interpolator(time_interped.mT).mT
+            return resampled.reshape(
+                self.leading_shape + resampled.shape[-2:]
+            )
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -403,7 +408,7 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return torch.squeeze(resampled)
+        return resampled.reshape(self.leading_shape + resampled.shape[-2:])
 
     def forward(
         self,
-- 
2.43.0


From 422fd5b2588781a9c443555a564aa4510f7d1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 25/26] fix: radiate the fraction epsilon of the mass in
 Ringdown

The radiated energy is quadratic in the amplitude, so that a fraction
epsilon of the mass needs an amplitude proportional to its square root.
---
 ml4gw/waveforms/adhoc/ringdown.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 862883f..ea169f7 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -1,4 +1,3 @@
-import numpy as np
 import torch
 
 from ml4gw.constants import PI, C, G, m_per_Mpc
@@ -79,8 +78,7 @@ class Ringdown(torch.nn.Module):
         F_Q = 1 + ((7 / 24) / quality**2)
         g_a = 1 - 0.63 * (1 - spin) ** (3 / 10)
         amplitude = (
-            np.sqrt(5 / 2)
-            * epsilon
+            torch.sqrt(5 / 2 * epsilon)
             * (G * mass / (C) ** 2)
             * quality ** (-0.5)
             * F_Q ** (-0.5)
-- 
2.43.0


From 1bf20f10726eee624256789563679cb022c35e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 26/26] fix: cross polarization of a ringdown is proportional
 to cos(inclination)

For the dominant quadrupole mode the polarizations are proportional to
1 + cos^2 and 2 cos of the inclination; the normalisation F(Q) used here
is the one of these two.
---
 ml4gw/waveforms/adhoc/ringdown.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index ea169f7..0a309b6 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -88,14 +88,13 @@ class Ringdown(torch.nn.Module):
         # calculate cosines with inclination
         cos_i = torch.cos(inclination)
         cos_i2 = cos_i**2
-        sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
         exp_term = torch.exp(-pi * frequency * self.times / quality)
         phase_term = 2 * pi * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
-        a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
+        a_cross = (amplitude / distance) * (2 * cos_i) * exp_term
 
         h_plus = a_plus * torch.cos(phase_term)
         h_cross = a_cross * torch.sin(phase_term)
-- 
2.43.0

