From 09286e8fc9c609120cf613020bd2e9b77237caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 01/40] fix: treat integer geometry as floating point

Integer sizes, positions and centers silently truncated wall coefficients,
array offsets and Sabine estimates, or failed inside the simulator.
---
 src/torchrir/geometry/arrays.py   | 14 +++++++-------
 src/torchrir/geometry/sampling.py |  3 +++
 src/torchrir/models/room.py       |  8 +++++---
 src/torchrir/models/scene.py      |  6 +++---
 src/torchrir/sim/ism/helpers.py   |  4 ++--
 src/torchrir/sim/ism/prepare.py   |  6 +++---
 src/torchrir/util/acoustics.py    |  8 ++++----
 src/torchrir/util/tensor.py       | 13 +++++++++++++
 8 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..4a45554 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -8,7 +8,7 @@ from typing import Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor
+from ..util.tensor import as_float_tensor, as_tensor
 
 
 def binaural_array(
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -82,7 +82,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -139,7 +139,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -159,7 +159,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -257,7 +257,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..608938b 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -8,6 +8,8 @@ from typing import List
 import torch
 from torch import Tensor
 
+from ..util.tensor import as_float_tensor
+
 
 def sample_positions(
     *,
@@ -90,6 +92,7 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
+    room_size = as_float_tensor(room_size)
     min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
     return torch.max(torch.min(positions, max_v), min_v)
diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..e2597ce 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -8,7 +8,7 @@ from typing import Optional, Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_float_tensor, as_tensor, ensure_dim
 
 
 @dataclass(frozen=True)
@@ -30,6 +30,8 @@ class Room:
     def __post_init__(self) -> None:
         """Validate room size and reflection parameters."""
         size = ensure_dim(self.size)
+        if not size.is_floating_point():
+            size = as_float_tensor(size)
         if not torch.all(torch.isfinite(size)):
             raise ValueError("room size must contain finite values")
         if torch.any(size <= 0):
@@ -212,7 +214,7 @@ def _validate_orientation(
 
 
 def _normalize_entity_positions(positions: Tensor, *, name: str) -> Tensor:
-    pos = as_tensor(positions)
+    pos = as_float_tensor(positions)
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     if pos.ndim != 2 or pos.shape[1] not in (2, 3):
@@ -231,6 +233,6 @@ def _normalize_entity_orientation(
 ) -> Optional[Tensor]:
     if orientation is None:
         return None
-    ori = as_tensor(orientation)
+    ori = as_float_tensor(orientation)
     _validate_orientation(ori, n_entities=n_entities, dim=dim, name=name)
     return ori
diff --git a/src/torchrir/models/scene.py b/src/torchrir/models/scene.py
index 0e5c1c4..0b12ba2 100644
--- a/src/torchrir/models/scene.py
+++ b/src/torchrir/models/scene.py
@@ -10,7 +10,7 @@ import torch
 from torch import Tensor
 
 from .room import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor
+from ..util.tensor import as_float_tensor
 
 
 @dataclass(frozen=True)
@@ -54,8 +54,8 @@ class DynamicScene:
     mic_traj: Tensor
 
     def __post_init__(self) -> None:
-        src_traj = as_tensor(self.src_traj)
-        mic_traj = as_tensor(self.mic_traj)
+        src_traj = as_float_tensor(self.src_traj)
+        mic_traj = as_float_tensor(self.mic_traj)
         object.__setattr__(self, "src_traj", src_traj)
         object.__setattr__(self, "mic_traj", mic_traj)
         self._validate_internal()
diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..1083414 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -10,7 +10,7 @@ from torch import Tensor
 from ...models import MicrophoneArray, Room, Source
 from ...util.acoustics import estimate_beta_from_t60
 from ...util.orientation import normalize_orientation, orientation_to_unit
-from ...util.tensor import as_tensor
+from ...util.tensor import as_float_tensor, as_tensor
 
 
 def _prepare_entities(
@@ -35,7 +35,7 @@ def _prepare_entities(
             ori = orientation[0] if which == "source" else orientation[1]
         else:
             ori = orientation
-    pos = as_tensor(pos, device=device, dtype=dtype)
+    pos = as_float_tensor(pos, device=device, dtype=dtype)
     if ori is not None:
         ori = as_tensor(ori, device=device, dtype=dtype)
     return pos, ori
diff --git a/src/torchrir/sim/ism/prepare.py b/src/torchrir/sim/ism/prepare.py
index 3afce79..6ed6867 100644
--- a/src/torchrir/sim/ism/prepare.py
+++ b/src/torchrir/sim/ism/prepare.py
@@ -9,7 +9,7 @@ from torch import Tensor
 
 from ...models import MicrophoneArray, Room, Source
 from ...util.device import infer_device_dtype, resolve_device
-from ...util.tensor import as_tensor, ensure_dim
+from ...util.tensor import as_float_tensor, as_tensor, ensure_dim
 from .helpers import _prepare_entities
 
 
@@ -84,8 +84,8 @@ def _prepare_dynamic_tensors(
     if isinstance(device, str):
         device = resolve_device(device)
 
-    src_traj = as_tensor(src_traj, device=device, dtype=dtype)
-    mic_traj = as_tensor(mic_traj, device=device, dtype=dtype)
+    src_traj = as_float_tensor(src_traj, device=device, dtype=dtype)
+    mic_traj = as_float_tensor(mic_traj, device=device, dtype=dtype)
     device, dtype = infer_device_dtype(
         src_traj, mic_traj, room.size, device=device, dtype=dtype
     )
diff --git a/src/torchrir/util/acoustics.py b/src/torchrir/util/acoustics.py
index 1d4b15a..823cd2b 100644
--- a/src/torchrir/util/acoustics.py
+++ b/src/torchrir/util/acoustics.py
@@ -8,7 +8,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .tensor import as_tensor, ensure_dim, extend_size
+from .tensor import as_float_tensor, as_tensor, ensure_dim, extend_size
 
 _DEF_SPEED_OF_SOUND = 343.0
 
@@ -33,7 +33,7 @@ def estimate_beta_from_t60(
     """
     if t60 <= 0:
         raise ValueError("t60 must be positive")
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
     dim = size.numel()
     if dim == 2:
@@ -69,7 +69,7 @@ def estimate_t60_from_beta(
         t60 = estimate_t60_from_beta(torch.tensor([6.0, 4.0, 3.0]), beta=torch.full((6,), 0.9))
         ```
     """
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
     beta = as_tensor(beta, device=size.device, dtype=size.dtype)
     dim = size.numel()
@@ -140,7 +140,7 @@ def estimate_image_counts_from_tmax(
     """
     if tmax <= 0:
         raise ValueError("tmax must be positive")
-    size = as_tensor(room_size)
+    size = as_float_tensor(room_size)
     size = ensure_dim(size)
     n = torch.ceil((tmax * c) / size).to(torch.int64)
     return n
diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..dc14c32 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -29,6 +29,19 @@ def as_tensor(
     return torch.as_tensor(value, device=device, dtype=dtype)
 
 
+def as_float_tensor(
+    value: Tensor | Iterable[float] | Iterable[Iterable[float]] | float | int,
+    *,
+    device: Optional[torch.device | str] = None,
+    dtype: Optional[torch.dtype] = None,
+) -> Tensor:
+    """Convert a value like ``as_tensor`` but promote integers to floating point."""
+    out = as_tensor(value, device=device, dtype=dtype)
+    if dtype is None and not out.is_floating_point():
+        out = out.to(torch.get_default_dtype())
+    return out
+
+
 def ensure_dim(size: Tensor) -> Tensor:
     """Validate room size dimensionality (2D or 3D)."""
     if size.ndim != 1 or size.numel() not in (2, 3):
-- 
2.43.0


From 43c473878444a9b0382d05498ccdd18a8dd6c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 02/40] fix: circular_array with a normal along -x returned NaN
 positions

---
 src/torchrir/geometry/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 4a45554..0dd1ef6 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -413,7 +413,7 @@ def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
         raise ValueError("normal must be a 3D vector")
     n = normal / torch.linalg.norm(normal)
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From bac542dd2a73eb1e344049c50ea3948bffb0e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 03/40] fix: linear_trajectory with a single step returned NaN

---
 src/torchrir/geometry/trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..31cf3ce 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -9,6 +9,6 @@ from torch import Tensor
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From 9111e701112e1f44a4303bc2073569b24a171207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 04/40] fix: array spacing in metadata was wrong for more than
 25 mics

cdist switches to a matrix-multiply formulation above 25 rows, whose
cancellation error exceeds the spacing of compact arrays.
---
 src/torchrir/io/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..c313f6e 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -192,7 +192,7 @@ def _array_attributes(mics: MicrophoneArray) -> ArrayAttributes:
     center = pos.mean(dim=0)
     spacing = None
     if n_mic >= 2:
-        dists = torch.cdist(pos, pos)
+        dists = torch.cdist(pos, pos, compute_mode="donot_use_mm_for_euclid_dist")
         dists = dists[dists > 0]
         if dists.numel() > 0:
             spacing = float(dists.min().item())
-- 
2.43.0


From 618058ed2ab3123113df10096c130933a95f5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 05/40] fix: coincident source and mic gave NaN with
 directional patterns

---
 src/torchrir/sim/ism/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 1083414..c2c795d 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -76,5 +76,5 @@ def _select_orientation(orientation: Tensor, idx: int, count: int, dim: int) ->
 def _cos_between(vec: Tensor, orientation: Tensor) -> Tensor:
     """Compute cosine between direction vectors and orientation."""
     orientation = normalize_orientation(orientation)
-    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)
+    unit = normalize_orientation(vec)
     return torch.sum(unit * orientation, dim=-1)
-- 
2.43.0


From b80ed8040b7231d19b5d1098a7906b6479c4059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 06/40] fix: dynamic convolution dropped sources the RIRs do
 not cover

Hop mode ignored surplus signal channels and failed with IndexError for a
mono signal; both modes now broadcast mono and reject other mismatches.
---
 src/torchrir/signal/dynamic.py  | 4 +++-
 src/torchrir/signal/internal.py | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..f3df5ed 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -13,7 +13,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .internal import _ensure_dynamic_rirs, _ensure_signal
+from .internal import _ensure_dynamic_rirs, _ensure_signal, _match_sources
 from .static import fft_convolve
 
 
@@ -58,6 +58,7 @@ class DynamicConvolver:
 def _convolve_dynamic_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs.shape[1])
     return _convolve_dynamic_rir_hop(signal, rirs, hop)
 
 
@@ -70,6 +71,7 @@ def _convolve_dynamic_trajectory(
 ) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs.shape[1])
     return _convolve_dynamic_rir_trajectory(signal, rirs, timestamps=timestamps, fs=fs)
 
 
diff --git a/src/torchrir/signal/internal.py b/src/torchrir/signal/internal.py
index faca6e5..72c38e2 100644
--- a/src/torchrir/signal/internal.py
+++ b/src/torchrir/signal/internal.py
@@ -14,6 +14,13 @@ def _ensure_signal(signal: Tensor) -> Tensor:
     raise ValueError("signal must have shape (n_samples,) or (n_src, n_samples)")
 
 
+def _match_sources(signal: Tensor, n_src: int) -> Tensor:
+    """Broadcast a mono signal to all sources and reject other mismatches."""
+    if signal.shape[0] not in (1, n_src):
+        raise ValueError("signal source count does not match rirs")
+    return signal.expand(n_src, -1)
+
+
 def _ensure_static_rirs(rirs: Tensor) -> Tensor:
     """Normalize static RIR shapes to (n_src, n_mic, rir_len)."""
     if rirs.ndim == 1:
-- 
2.43.0


From 5bc45e3df54a043999712964961dcd54adc79f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 07/40] fix: diffuse tail overwrote the last sample when it
 starts past the end

---
 src/torchrir/sim/ism/diffuse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/ism/diffuse.py b/src/torchrir/sim/ism/diffuse.py
index 7344676..69251ea 100644
--- a/src/torchrir/sim/ism/diffuse.py
+++ b/src/torchrir/sim/ism/diffuse.py
@@ -23,8 +23,8 @@ def _apply_diffuse_tail(
 ) -> Tensor:
     """Apply a diffuse reverberation tail after tdiff."""
     nsample = rir.shape[-1]
-    tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)))
-    if tdiff_idx <= 0:
+    tdiff_idx = int(math.floor(tdiff * room.fs))
+    if tdiff_idx <= 0 or tdiff_idx >= nsample:
         return rir
     tail_len = nsample - tdiff_idx
     t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs
-- 
2.43.0


From da33bb992eafcf5abf7cb2f0e9b84337a4be6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 08/40] fix: channel-first audio with more than 8 channels was
 saved transposed

---
 src/torchrir/io/audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..2b58e80 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -115,7 +115,7 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
-    if audio.ndim == 2 and audio.shape[0] <= 8:
+    if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
-- 
2.43.0


From cbf7b1b9540ba90c06ca4d2f75370452a3f5a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 09/40] fix: a second setup_logging call did not apply its
 level and format

---
 src/torchrir/logging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..a446c35 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -6,6 +6,8 @@ from dataclasses import dataclass, replace
 import logging
 from typing import Optional
 
+_HANDLER_NAME = "torchrir.default"
+
 
 @dataclass(frozen=True)
 class LoggingConfig:
@@ -52,11 +54,14 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
     level = config.resolve_level()
     logger.setLevel(level)
     logger.propagate = config.propagate
-    if not logger.handlers:
+    handler = next((h for h in logger.handlers if h.name == _HANDLER_NAME), None)
+    if handler is None and not logger.handlers:
         handler = logging.StreamHandler()
+        handler.name = _HANDLER_NAME
+        logger.addHandler(handler)
+    if handler is not None:
         handler.setLevel(level)
         handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
-        logger.addHandler(handler)
     return logger
 
 
-- 
2.43.0


From 18c05dceab2b5c49e0f227aeeb9bcaf65bfd0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 10/40] fix: get_logger left names merely prefixed with
 torchrir outside its namespace

---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index a446c35..189a217 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -75,7 +75,7 @@ def get_logger(name: Optional[str] = None) -> logging.Logger:
     """
     if not name:
         return logging.getLogger("torchrir")
-    if name.startswith("torchrir"):
+    if name == "torchrir" or name.startswith("torchrir."):
         return logging.getLogger(name)
     return logging.getLogger(f"torchrir.{name}")
 
-- 
2.43.0


From df61f1b1bb252c41d42cb852fdd7439f3464ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 11/40] fix: failed audio mux left temporary files behind or
 replaced the video with nothing

---
 src/torchrir/viz/animation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..07aff27 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -340,8 +340,6 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
-
     cmd = [
         ffmpeg,
         "-y",
@@ -360,17 +358,19 @@ def _add_stereo_audio_to_mp4(
         "-shortest",
         str(tmp_video),
     ]
-    result = subprocess.run(cmd, check=False, capture_output=True, text=True)
-    if result.returncode != 0:
-        LOGGER.warning(
-            "Failed to mux audio into %s: %s",
-            video_path.name,
-            (result.stderr or result.stdout).strip(),
-        )
-    else:
-        tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+        result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+        if result.returncode != 0:
+            LOGGER.warning(
+                "Failed to mux audio into %s: %s",
+                video_path.name,
+                (result.stderr or result.stdout).strip(),
+            )
+        elif not tmp_video.exists():
+            LOGGER.warning("ffmpeg wrote no output for %s", video_path.name)
+        else:
+            tmp_video.replace(video_path)
+    finally:
+        tmp_audio.unlink(missing_ok=True)
+        tmp_video.unlink(missing_ok=True)
-- 
2.43.0


From a53032b67af93b5497945e342e6ed61789a29263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 12/40] fix: long or upper-case omni pattern name wrongly
 demanded an orientation

---
 src/torchrir/sim/directivity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/directivity.py b/src/torchrir/sim/directivity.py
index ab44109..e7639a0 100644
--- a/src/torchrir/sim/directivity.py
+++ b/src/torchrir/sim/directivity.py
@@ -29,5 +29,11 @@ def split_directivity(directivity: str | tuple[str, str]) -> tuple[str, str]:
     if isinstance(directivity, (list, tuple)):
         if len(directivity) != 2:
             raise ValueError("directivity tuple must have length 2")
-        return directivity[0], directivity[1]
-    return directivity, directivity
+        return _canonical(directivity[0]), _canonical(directivity[1])
+    return _canonical(directivity), _canonical(directivity)
+
+
+def _canonical(pattern: str) -> str:
+    """Lower-case a pattern name and map the long omni name to the short one."""
+    pattern = pattern.lower()
+    return "omni" if pattern == "omnidirectional" else pattern
-- 
2.43.0


From fdd98fc590ce58bd4f90b617662d13e6ad42dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 13/40] fix: dataset builder mixtures clipped when only the sum
 of the stems was too loud

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..8016bd7 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -407,7 +407,8 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    mix = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(signal))) for signal in [*stems, mix])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 6956c37c3dd04e79db77a040cede3f17c6427920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 14/40] fix: dataset builder deleted the old dataset before
 checking arguments and source data

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 8016bd7..6a37f17 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -497,18 +497,25 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError("duration_sec must be > 0")
     if rir_samples <= 0:
         raise ValueError("rir_samples must be > 0")
+    if max_order < 0:
+        raise ValueError("max_order must be non-negative")
+    if not (0.0 <= move_start_ratio < move_end_ratio <= 1.0):
+        raise ValueError(
+            "Motion ratios must satisfy 0 <= move_start_ratio < move_end_ratio <= 1."
+        )
+    if moving_speed_min <= 0.0 or moving_speed_max < moving_speed_min:
+        raise ValueError(
+            "moving speed range must satisfy 0 < moving_speed_min <= moving_speed_max."
+        )
 
     min_source_distance_m = 1.8
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    if dataset_root.exists():
-        if not overwrite:
-            raise FileExistsError(
-                f"Dataset root already exists: {dataset_root}. Use overwrite=True."
-            )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
+    if dataset_root.exists() and not overwrite:
+        raise FileExistsError(
+            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -557,6 +564,10 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
+    if dataset_root.exists():
+        shutil.rmtree(dataset_root)
+    dataset_root.mkdir(parents=True, exist_ok=True)
+
     for scene_idx in range(n_scenes):
         scene_id = f"scene_{scene_idx:04d}"
         scene_dir = dataset_root / scene_id
-- 
2.43.0


From d749eafa133cad4293a90015556f95e9e39eeeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 15/40] fix: LibriSpeech utterance order depended on directory
 enumeration order

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..6347fc6 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -101,7 +101,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From 9de769bea4f51817397742dfe3ed779d3dec299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 16/40] fix: an interrupted extraction was taken for a complete
 dataset

---
 src/torchrir/datasets/_archive.py    | 36 +++++++++++++++++++++++++++-
 src/torchrir/datasets/cmu_arctic.py  |  9 +++----
 src/torchrir/datasets/librispeech.py |  9 +++----
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 469032c..07fa5b4 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -3,12 +3,18 @@
 from __future__ import annotations
 
 import os
+import shutil
 import tarfile
 from pathlib import Path
 
 
 def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
     """Extract a tar archive while rejecting unsafe paths and links."""
+    _check_members(tar, dest)
+    tar.extractall(dest.resolve())
+
+
+def _check_members(tar: tarfile.TarFile, dest: Path) -> None:
     root = dest.resolve()
     for member in tar.getmembers():
         if member.issym() or member.islnk():
@@ -18,4 +24,32 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
         if os.path.commonpath([str(root), str(target)]) != str(root):
             raise ValueError(f"unsafe archive member path: {member.name}")
 
-    tar.extractall(root)
+
+def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None:
+    """Extract below dest so that dataset_dir appears complete or not at all."""
+    _check_members(tar, dest)
+    staging = dest / f".{dataset_dir.name}.partial"
+    if staging.exists():
+        shutil.rmtree(staging)
+    staging.mkdir()
+    try:
+        safe_extractall(tar, staging)
+        staged_dir = staging / dataset_dir.relative_to(dest)
+        _merge_tree(staging, dest, skip=staged_dir)
+        if staged_dir.exists():
+            staged_dir.replace(dataset_dir)
+    finally:
+        shutil.rmtree(staging, ignore_errors=True)
+
+
+def _merge_tree(src: Path, dest: Path, *, skip: Path) -> None:
+    """Move everything below src except skip into dest, keeping what is there."""
+    for entry in list(src.iterdir()):
+        target = dest / entry.name
+        if entry == skip:
+            continue
+        if entry.is_dir() and (target.is_dir() or entry in skip.parents):
+            target.mkdir(exist_ok=True)
+            _merge_tree(entry, target, skip=skip)
+        else:
+            entry.replace(target)
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..c780e6b 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -12,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -114,14 +115,14 @@ class CmuArcticDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 6347fc6..5de636f 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -12,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -142,14 +143,14 @@ class LibriSpeechDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+                    extract_dataset(tar, self.root, self._subset_dir)
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_dataset(tar, self.root, self._subset_dir)
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From 852e514590587542a389ba83b9ad2c98e1a5102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 17/40] fix: download=True fetched the archive again although
 the dataset is there

---
 src/torchrir/datasets/cmu_arctic.py  | 2 +-
 src/torchrir/datasets/librispeech.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c780e6b..33170c7 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -108,7 +108,7 @@ class CmuArcticDataset(BaseDataset):
         archive_path = self._base_dir / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
 
-        if not archive_path.exists():
+        if not self._dataset_dir.exists() and not archive_path.exists():
             logger.info("Downloading %s", url)
             _download(url, archive_path)
         if not self._dataset_dir.exists():
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 5de636f..a86350d 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -136,7 +136,7 @@ class LibriSpeechDataset(BaseDataset):
         archive_path = self.root / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
 
-        if not archive_path.exists():
+        if not self._subset_dir.exists() and not archive_path.exists():
             logger.info("Downloading %s", url)
             _download(url, archive_path)
         if not self._subset_dir.exists():
-- 
2.43.0


From 21169009a4447a10c58d293625d3c35414c4a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 18/40] fix: use entity orientations when simulating dynamic
 scenes

ISMSimulator dropped the orientations held by a DynamicScene's sources and
microphones, so a directional pattern on a dynamic scene was always refused.
---
 src/torchrir/sim/simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..795756a 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -76,6 +76,10 @@ class ISMSimulator:
                 nsample=self.nsample,
                 tmax=self.tmax,
                 directivity=self.directivity,
+                orientation=(
+                    normalized_scene.sources.orientation,
+                    normalized_scene.mics.orientation,
+                ),
                 config=cfg,
                 device=self.device,
                 dtype=self.dtype,
-- 
2.43.0


From 8daf0d316ab4d6d564a81d8dae038f872d0f4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 19/40] fix: respect a height range that allows a single height

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 608938b..500232e 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -44,7 +44,7 @@ def sample_positions_with_z_range(
     z_min, z_max = z_range
     z_low = max(margin, float(z_min))
     z_high = min(float(room_size[2].item()) - margin, float(z_max))
-    if z_high <= z_low:
+    if z_high < z_low:
         return positions
     z_vals = [rng.uniform(z_low, z_high) for _ in range(num)]
     positions[:, 2] = torch.tensor(z_vals, dtype=positions.dtype)
@@ -78,7 +78,7 @@ def sample_positions_min_distance(
             z_min, z_max = z_range
             z_low = max(margin, float(z_min))
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
-            if z_high > z_low:
+            if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
         dist = torch.linalg.norm(torch.tensor(point) - center).item()
         if dist >= min_distance:
-- 
2.43.0


From 825e4106abcc78d7753f22b0788a7a5bb63e4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 20/40] fix: refuse a sampling margin that leaves no space in
 the room

---
 src/torchrir/geometry/sampling.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 500232e..3d9e97c 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -11,6 +11,18 @@ from torch import Tensor
 from ..util.tensor import as_float_tensor
 
 
+def _sampling_bounds(
+    room_size: Tensor, margin: float
+) -> tuple[List[float], List[float]]:
+    """Return per-axis sampling bounds that keep the margin to every wall."""
+    dim = room_size.numel()
+    low = [margin] * dim
+    high = [float(room_size[i].item()) - margin for i in range(dim)]
+    if any(hi < lo for lo, hi in zip(low, high)):
+        raise ValueError("margin leaves no space to sample inside the room.")
+    return low, high
+
+
 def sample_positions(
     *,
     num: int,
@@ -20,8 +32,7 @@ def sample_positions(
 ) -> Tensor:
     """Sample random positions within a room with a safety margin."""
     dim = room_size.numel()
-    low = [margin] * dim
-    high = [float(room_size[i].item()) - margin for i in range(dim)]
+    low, high = _sampling_bounds(room_size, margin)
     coords: List[List[float]] = []
     for _ in range(num):
         point = [rng.uniform(low[i], high[i]) for i in range(dim)]
@@ -67,8 +78,7 @@ def sample_positions_min_distance(
     center = center.to(dtype=torch.float32).reshape(-1)
     if center.numel() != dim:
         raise ValueError("center dimension must match room_size.")
-    low = [margin] * dim
-    high = [float(room_size[i].item()) - margin for i in range(dim)]
+    low, high = _sampling_bounds(room_size, margin)
     coords: List[List[float]] = []
     attempts = 0
     while len(coords) < num and attempts < max_attempts:
-- 
2.43.0


From cd52e8a782a4eb42df3103a636447571abad5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 21/40] fix: detect damaged archives whose damage the tar
 reader does not notice

---
 src/torchrir/datasets/_archive.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 07fa5b4..9fa77b2 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -25,9 +25,23 @@ def _check_members(tar: tarfile.TarFile, dest: Path) -> None:
             raise ValueError(f"unsafe archive member path: {member.name}")
 
 
+def _check_stream(tar: tarfile.TarFile) -> None:
+    """Read to the end of the archive so that its checksum is verified.
+
+    tarfile stops silently at the first damaged header and never reaches the
+    checksum behind the last member.
+    """
+    while tar.fileobj is not None and tar.fileobj.read(1024 * 1024):
+        pass
+
+
 def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None:
     """Extract below dest so that dataset_dir appears complete or not at all."""
-    _check_members(tar, dest)
+    try:
+        _check_members(tar, dest)
+    finally:
+        # a damaged stream outranks whatever its garbled members looked like
+        _check_stream(tar)
     staging = dest / f".{dataset_dir.name}.partial"
     if staging.exists():
         shutil.rmtree(staging)
-- 
2.43.0


From 229b7f9828ebd11ed095cbc3850b580f92928d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 22/40] fix: report the speaker of items from an unrestricted
 LibriSpeech subset

---
 src/torchrir/datasets/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/base.py b/src/torchrir/datasets/base.py
index 7d646d5..b1c8ff1 100644
--- a/src/torchrir/datasets/base.py
+++ b/src/torchrir/datasets/base.py
@@ -60,6 +60,8 @@ class BaseDataset(Dataset[DatasetItem]):
         sentence = sentences[idx]
         audio, sample_rate = self.load_audio(sentence.utterance_id)
         speaker = getattr(self, "speaker", None)
+        if speaker is None:
+            speaker = getattr(sentence, "speaker_id", None)
         text = getattr(sentence, "text", None)
         return DatasetItem(
             audio=audio,
-- 
2.43.0


From 2a96f289e1d0a4e67adcb2672092e7cd84711005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 23/40] fix: refuse a dataset folder that contains the source
 data it would delete

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 6a37f17..49878fb 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -516,6 +516,11 @@ def build_dynamic_cmu_arctic_dataset(
         raise FileExistsError(
             f"Dataset root already exists: {dataset_root}. Use overwrite=True."
         )
+    cmu_root_abs = Path(cmu_root).resolve()
+    if dataset_root.resolve() in (cmu_root_abs, *cmu_root_abs.parents):
+        raise ValueError(
+            "cmu_root must not lie inside dataset_root, which the build replaces."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
-- 
2.43.0


From 99bafd63cea6753c44e055ba168221c4051ddf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 24/40] fix: refuse NaN rates, speeds, decay and duration times

---
 src/torchrir/config.py         | 6 +++---
 src/torchrir/models/room.py    | 6 +++---
 src/torchrir/sim/simulators.py | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/config.py b/src/torchrir/config.py
index 8e0d667..6e528cc 100644
--- a/src/torchrir/config.py
+++ b/src/torchrir/config.py
@@ -40,11 +40,11 @@ class SimulationConfig:
 
     def validate(self) -> None:
         """Validate configuration values."""
-        if self.fs is not None and self.fs <= 0:
+        if self.fs is not None and not self.fs > 0:
             raise ValueError("fs must be positive")
         if self.max_order is not None and self.max_order < 0:
             raise ValueError("max_order must be non-negative")
-        if self.tmax is not None and self.tmax <= 0:
+        if self.tmax is not None and not self.tmax > 0:
             raise ValueError("tmax must be positive")
         if self.seed is not None and self.seed < 0:
             raise ValueError("seed must be non-negative")
@@ -56,7 +56,7 @@ class SimulationConfig:
             raise ValueError("image_chunk_size must be positive")
         if self.accumulate_chunk_size <= 0:
             raise ValueError("accumulate_chunk_size must be positive")
-        if self.rir_hpf_fc <= 0:
+        if not self.rir_hpf_fc > 0:
             raise ValueError("rir_hpf_fc must be positive")
         if "n" in self.rir_hpf_kwargs and int(self.rir_hpf_kwargs["n"]) <= 0:
             raise ValueError("rir_hpf_kwargs['n'] must be positive")
diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index e2597ce..f5c5217 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -37,13 +37,13 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
+        if not self.fs > 0:
             raise ValueError("fs must be positive")
-        if self.c <= 0:
+        if not self.c > 0:
             raise ValueError("c must be positive")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
+        if self.t60 is not None and not self.t60 > 0:
             raise ValueError("t60 must be positive")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index 795756a..7420bf1 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -45,7 +45,7 @@ class ISMSimulator:
             raise ValueError("max_order must be non-negative")
         if self.tmax is None and self.nsample is None:
             raise ValueError("tmax or nsample must be provided")
-        if self.tmax is not None and self.tmax <= 0:
+        if self.tmax is not None and not self.tmax > 0:
             raise ValueError("tmax must be positive")
         if self.nsample is not None and self.nsample <= 0:
             raise ValueError("nsample must be positive")
-- 
2.43.0


From 8df8efeb6f0b40f4e44e882a1ad70925e9748b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 25/40] fix: refuse non-finite dataset builder arguments before
 replacing a dataset

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 49878fb..65e3e9a 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -58,6 +58,8 @@ def _as_triplet(values: Sequence[float] | np.ndarray, *, name: str) -> np.ndarra
     arr = np.asarray(values, dtype=np.float64).reshape(-1)
     if arr.shape != (3,):
         raise ValueError(f"{name} must have shape (3,), got {arr.shape}")
+    if not np.all(np.isfinite(arr)):
+        raise ValueError(f"{name} must contain finite values")
     return arr
 
 
@@ -507,6 +509,8 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError(
             "moving speed range must satisfy 0 < moving_speed_min <= moving_speed_max."
         )
+    if not np.all(np.isfinite([octa_edge_m, moving_speed_min, moving_speed_max])):
+        raise ValueError("octa_edge_m and the moving speed range must be finite")
 
     min_source_distance_m = 1.8
     move_start_sec = float(duration_sec) * move_start_ratio
-- 
2.43.0


From b03befea9bb6622a43fc588f65939391c69e1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 26/40] fix: the subtype attribute of a saved tensor was never
 seen

---
 src/torchrir/io/audio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2b58e80..10b3ca8 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -108,6 +108,9 @@ def _save_audio(
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
 
+    if subtype is None:
+        # Backward-compatible fallback for tensors that carry custom attrs.
+        subtype = getattr(audio, "_torchrir_subtype", None)
     audio = audio.detach().cpu().to(torch.float32)
     if normalize:
         if peak <= 0:
@@ -117,9 +120,6 @@ def _save_audio(
             audio = audio / max_val * peak
     if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
-    if subtype is None:
-        # Backward-compatible fallback for tensors that carry custom attrs.
-        subtype = getattr(audio, "_torchrir_subtype", None)
     sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
 
 
-- 
2.43.0


From a6a1f08abda1a3be71560f96bed7f246a76eb3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 27/40] fix: wav-only savers accepted names and formats they
 then could not write as wav

---
 src/torchrir/io/__init__.py | 8 ++++++--
 src/torchrir/io/audio.py    | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/__init__.py b/src/torchrir/io/__init__.py
index b695348..88e0ef3 100644
--- a/src/torchrir/io/__init__.py
+++ b/src/torchrir/io/__init__.py
@@ -28,7 +28,7 @@ class AudioBackend:
 
     name: str
     load: Callable[[Path, str], Tuple[Tensor, int]]
-    save: Callable[[Path, Tensor, int, bool, float, str | None], None]
+    save: Callable[..., None]
     info: Callable[[Path], AudioInfo]
 
 
@@ -43,6 +43,7 @@ def _soundfile_save(
     normalize: bool,
     peak: float,
     subtype: str | None,
+    format: str | None = None,
 ) -> None:
     _save_audio(
         path,
@@ -51,6 +52,7 @@ def _soundfile_save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format=format,
     )
 
 
@@ -153,7 +155,9 @@ def save_wav(
             "Use torchrir.io.audio.save_audio for non-wav formats."
         )
     backend_impl = _resolve_backend(backend)
-    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)
+    backend_impl.save(
+        path, audio, sample_rate, normalize, peak, subtype, format="WAV"
+    )
 
 
 def info_wav(
diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 10b3ca8..b3ab37c 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -104,6 +104,7 @@ def _save_audio(
     normalize: bool = True,
     peak: float = 1.0,
     subtype: str | None = None,
+    format: str | None = None,
 ) -> None:
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
@@ -120,7 +121,7 @@ def _save_audio(
             audio = audio / max_val * peak
     if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
-    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
+    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype, format=format)
 
 
 def save(
@@ -158,6 +159,7 @@ def save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format="WAV",
     )
 
 
-- 
2.43.0


From 4038a6e6cf6536bcd73b3f543f1fcc98063482de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 28/40] fix: 3D scene animations with source labels always
 failed

Axes3D.text needs a z coordinate, so animate_scene_gif/mp4 with plot_3d raised
TypeError and save_scene_gifs/videos never wrote their 3D file by default.
---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 07aff27..d16f186 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -217,7 +217,8 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = (0.0,) * view_dim
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0


From 5e3b814c42de9d9a1f508c19c727fe9dc07fb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 29/40] fix: a failed save left its figure open

save_scene_plots/gifs/videos swallow the error, so every failed scene leaked a
pyplot figure.
---
 src/torchrir/viz/animation.py | 12 ++++++++----
 src/torchrir/viz/utils.py     | 14 ++++++++------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index d16f186..9aea1ff 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -69,8 +69,10 @@ def animate_scene_gif(
         annotate_sources=annotate_sources,
         annotation_lines=annotation_lines,
     )
-    anim.save(out_path, writer="pillow", fps=fps_out)
-    plt.close(fig)
+    try:
+        anim.save(out_path, writer="pillow", fps=fps_out)
+    finally:
+        plt.close(fig)
     return out_path
 
 
@@ -125,8 +127,10 @@ def animate_scene_mp4(
         figsize=_MP4_FIGSIZE_INCHES,
     )
     writer = FFMpegWriter(fps=fps_out)
-    anim.save(out_path, writer=writer, dpi=_MP4_DPI)
-    plt.close(fig)
+    try:
+        anim.save(out_path, writer=writer, dpi=_MP4_DPI)
+    finally:
+        plt.close(fig)
 
     if mux_audio and mixture_path is not None:
         _add_stereo_audio_to_mp4(
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index e9dba86..ac8f91c 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -76,12 +76,14 @@ def _save_axes(ax: Any, path: Path, *, show: bool) -> None:
     import matplotlib.pyplot as plt
 
     fig = ax.figure
-    fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
-    fig.tight_layout()
-    fig.savefig(path, dpi=_STATIC_SAVE_DPI)
-    if show:
-        plt.show()
-    plt.close(fig)
+    try:
+        fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
+        fig.tight_layout()
+        fig.savefig(path, dpi=_STATIC_SAVE_DPI)
+        if show:
+            plt.show()
+    finally:
+        plt.close(fig)
 
 
 def _add_axes_annotation(
-- 
2.43.0


From 278e223fad5528f1c8b3f94967126099b3c6d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 30/40] fix: scene plots failed for positions that are integers
 or track gradients

---
 src/torchrir/viz/scene.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 1743c24..d410a35 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -8,7 +8,7 @@ import torch
 from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_float_tensor, as_tensor, ensure_dim
 from .utils import _add_axes_annotation, _ensure_default_mpl_style
 
 _MIC_COLOR = "tab:orange"
@@ -225,7 +225,7 @@ def _extract_positions(
         pos = entity.positions
     else:
         pos = entity
-    pos = as_tensor(pos)
+    pos = as_float_tensor(pos).detach().cpu()
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     return pos
@@ -260,7 +260,7 @@ def _scatter_positions(
 
 def _as_trajectory(traj: Tensor | Sequence) -> Tensor:
     """Validate and normalize a trajectory tensor."""
-    traj = as_tensor(traj)
+    traj = as_float_tensor(traj).detach().cpu()
     if traj.ndim != 3:
         raise ValueError("trajectory must be of shape (T, N, dim)")
     return traj
-- 
2.43.0


From 8ffa64f37d6419542c841694081f37032445befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 31/40] fix: an unreadable mixture or unstartable encoder
 dropped the 3D scene video

Every other reason for not muxing audio is logged and leaves the silent video;
these two raised out of the 2D export, so the 3D video was never rendered.
---
 src/torchrir/viz/animation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 9aea1ff..819d474 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -320,7 +320,13 @@ def _add_stereo_audio_to_mp4(
         LOGGER.warning("ffmpeg not found. Skip audio mux for %s", video_path.name)
         return
 
-    mixture, sample_rate = sf.read(mixture_path, always_2d=True)
+    try:
+        mixture, sample_rate = sf.read(mixture_path, always_2d=True)
+    except (OSError, RuntimeError) as exc:
+        LOGGER.warning(
+            "mixture file unreadable (%s). Skip audio mux for %s", exc, video_path.name
+        )
+        return
     mixture = np.asarray(mixture, dtype=np.float64)
     n_channels = int(mixture.shape[1])
     if n_channels <= 0:
@@ -376,6 +382,8 @@ def _add_stereo_audio_to_mp4(
             LOGGER.warning("ffmpeg wrote no output for %s", video_path.name)
         else:
             tmp_video.replace(video_path)
+    except (OSError, RuntimeError) as exc:
+        LOGGER.warning("Failed to mux audio into %s: %s", video_path.name, exc)
     finally:
         tmp_audio.unlink(missing_ok=True)
         tmp_video.unlink(missing_ok=True)
-- 
2.43.0


From 5a216363198089c128a9743499b1906e6652366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 32/40] fix: upper-case CUDA requests failed and mps:0 did not
 fall back to the CPU

---
 src/torchrir/util/device.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..8c9e2d6 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -41,18 +41,18 @@ def resolve_device(
 
     if dev.startswith("cuda"):
         if torch.cuda.is_available():
-            return torch.device(device)
+            return torch.device(dev)
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if dev == "mps" or dev.startswith("mps:"):
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return torch.device(dev)
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev == "cpu":
         return torch.device("cpu")
 
-    return torch.device(device)
+    return torch.device(dev)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From be7674ad8c21ee7e13251c6870e29944114483d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 33/40] fix: tables cached by a simulation in inference mode
 broke later simulations that track gradients

---
 src/torchrir/sim/ism/accumulate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/torchrir/sim/ism/accumulate.py b/src/torchrir/sim/ism/accumulate.py
index 6529d0d..a3bb85d 100644
--- a/src/torchrir/sim/ism/accumulate.py
+++ b/src/torchrir/sim/ism/accumulate.py
@@ -128,7 +128,8 @@ def _get_fdl_grid(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tens
     key = (fdl, str(device), dtype)
     cached = _FDL_GRID_CACHE.get(key)
     if cached is None:
-        cached = torch.arange(fdl, device=device, dtype=dtype)
+        with torch.inference_mode(False):
+            cached = torch.arange(fdl, device=device, dtype=dtype)
         _FDL_GRID_CACHE[key] = cached
     return cached
 
@@ -138,7 +139,8 @@ def _get_fdl_offsets(fdl: int, *, device: torch.device) -> Tensor:
     cached = _FDL_OFFSETS_CACHE.get(key)
     if cached is None:
         fdl2 = (fdl - 1) // 2
-        cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2
+        with torch.inference_mode(False):
+            cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2
         _FDL_OFFSETS_CACHE[key] = cached
     return cached
 
@@ -147,7 +149,8 @@ def _get_fdl_window(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Te
     key = (fdl, str(device), dtype)
     cached = _FDL_WINDOW_CACHE.get(key)
     if cached is None:
-        cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)
+        with torch.inference_mode(False):
+            cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)
         _FDL_WINDOW_CACHE[key] = cached
     return cached
 
@@ -162,7 +165,8 @@ def _get_sinc_lut(
         return cached
     fdl2 = (fdl - 1) // 2
     lut_size = (fdl + 1) * lut_gran + 1
-    n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)
-    cached = torch.sinc(n)
+    with torch.inference_mode(False):
+        n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)
+        cached = torch.sinc(n)
     _SINC_LUT_CACHE[key] = cached
     return cached
-- 
2.43.0


From 338f676f705bff1a6c093955d5a2aaff0efc4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 34/40] fix: a plot or animation that raised midway left its
 figure open

---
 src/torchrir/viz/animation.py |  2 ++
 src/torchrir/viz/scene.py     |  8 +++++++-
 src/torchrir/viz/utils.py     | 24 +++++++++++++++++++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 819d474..fd5d72d 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -14,6 +14,7 @@ import torch
 
 from .utils import (
     _add_axes_annotation,
+    _close_figures_on_error,
     _ensure_default_mpl_style,
     _positions_to_cpu,
     _to_cpu,
@@ -141,6 +142,7 @@ def animate_scene_mp4(
     return out_path
 
 
+@_close_figures_on_error
 def _build_scene_animation(
     *,
     room: Sequence[float] | torch.Tensor,
diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index d410a35..8eef2f4 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -9,11 +9,16 @@ from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
 from ..util.tensor import as_float_tensor, as_tensor, ensure_dim
-from .utils import _add_axes_annotation, _ensure_default_mpl_style
+from .utils import (
+    _add_axes_annotation,
+    _close_figures_on_error,
+    _ensure_default_mpl_style,
+)
 
 _MIC_COLOR = "tab:orange"
 
 
+@_close_figures_on_error
 def plot_scene_static(
     *,
     room: Room | Sequence[float] | Tensor,
@@ -58,6 +63,7 @@ def plot_scene_static(
     return ax
 
 
+@_close_figures_on_error
 def plot_scene_dynamic(
     *,
     room: Room | Sequence[float] | Tensor,
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index ac8f91c..57ca73f 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -2,8 +2,9 @@
 
 from __future__ import annotations
 
+from functools import wraps
 from pathlib import Path
-from typing import Any, Optional, Sequence
+from typing import Any, Callable, Optional, Sequence, TypeVar
 
 import torch
 
@@ -33,6 +34,27 @@ def _ensure_default_mpl_style() -> None:
     _MPL_DEFAULT_STYLE_APPLIED = True
 
 
+_F = TypeVar("_F", bound=Callable[..., Any])
+
+
+def _close_figures_on_error(fn: _F) -> _F:
+    """Close the figures ``fn`` opened when it raises instead of returning them."""
+
+    @wraps(fn)
+    def wrapper(*args: Any, **kwargs: Any) -> Any:
+        import matplotlib.pyplot as plt
+
+        before = set(plt.get_fignums())
+        try:
+            return fn(*args, **kwargs)
+        except Exception:
+            for num in set(plt.get_fignums()) - before:
+                plt.close(num)
+            raise
+
+    return wrapper  # type: ignore[return-value]
+
+
 def _to_cpu(value: Any) -> torch.Tensor:
     """Move a value to CPU as a tensor."""
     if torch.is_tensor(value):
-- 
2.43.0


From 992416e5f77ba9a4795119273da0bfff94218b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 35/40] fix: a stale second export list hid AudioInfo and
 save_attribution_file from torchrir.io

---
 src/torchrir/io/__init__.py | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/src/torchrir/io/__init__.py b/src/torchrir/io/__init__.py
index 88e0ef3..8b46e8a 100644
--- a/src/torchrir/io/__init__.py
+++ b/src/torchrir/io/__init__.py
@@ -306,27 +306,3 @@ __all__ = [
     "save_wav",
     "set_audio_backend",
 ]
-
-
-__all__ = [
-    "AudioData",
-    "AudioBackend",
-    "build_metadata",
-    "get_audio_backend",
-    "info",
-    "info_audio",
-    "info_wav",
-    "list_audio_backends",
-    "load",
-    "load_audio",
-    "load_audio_data",
-    "load_wav",
-    "save_scene_audio",
-    "save_scene_metadata",
-    "save_audio",
-    "save_audio_data",
-    "save_metadata_json",
-    "save",
-    "save_wav",
-    "set_audio_backend",
-]
-- 
2.43.0


From 44538b7f86e71b7a7f256ff43b3e205ba7695751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 36/40] fix: loading sources from a speaker whose utterances
 are all empty never returned

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 2 ++
 src/torchrir/datasets/utils.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 65e3e9a..4d8f34a 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -537,6 +537,8 @@ def build_dynamic_cmu_arctic_dataset(
         test_ids = ds.available_sentences()
         if not test_ids:
             raise RuntimeError(f"No utterances found for speaker '{speaker}'")
+        if not any(len(ds.load_audio(t.utterance_id)[0]) for t in test_ids):
+            raise RuntimeError(f"All utterances of speaker '{speaker}' are empty")
         _, sr = ds.load_audio(test_ids[0].utterance_id)
         if sample_rate is None:
             sample_rate = int(sr)
diff --git a/src/torchrir/datasets/utils.py b/src/torchrir/datasets/utils.py
index 75b1940..da7e739 100644
--- a/src/torchrir/datasets/utils.py
+++ b/src/torchrir/datasets/utils.py
@@ -74,6 +74,8 @@ def load_dataset_sources(
 
         while target_samples is None or total < target_samples:
             if idx >= len(sentences):
+                if total == 0:
+                    raise RuntimeError(f"all utterances are empty for speaker {speaker}")
                 rng.shuffle(sentences)
                 idx = 0
             sentence = sentences[idx]
-- 
2.43.0


From d4fbd3041ac5b3b72f72e107bc7c78c9358fce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 37/40] fix: refuse a non-positive hop in hop-mode dynamic
 convolution

A negative hop silently returned an all-zero signal and a hop of 0 raised
ZeroDivisionError.
---
 src/torchrir/signal/dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index f3df5ed..9d392f6 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -49,6 +49,8 @@ class DynamicConvolver:
         if self.mode == "hop":
             if self.hop is None:
                 raise ValueError("hop must be provided for hop mode")
+            if self.hop <= 0:
+                raise ValueError("hop must be positive")
             return _convolve_dynamic_hop(signal, rirs, self.hop)
         return _convolve_dynamic_trajectory(
             signal, rirs, timestamps=self.timestamps, fs=self.fs
-- 
2.43.0


From 5aca67687d355887f801a043c82467965f6ce8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 38/40] fix: refuse decreasing timestamps in trajectory-mode
 convolution

Unsorted timestamps could be answered with some samples filtered twice.
---
 src/torchrir/signal/dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 9d392f6..a9d701c 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -123,6 +123,8 @@ def _convolve_dynamic_rir_trajectory(
             raise ValueError("timestamps must be 1D and match number of RIR steps")
         if ts[0].item() != 0:
             raise ValueError("first timestamp must be 0")
+        if not bool((ts[1:] >= ts[:-1]).all()):
+            raise ValueError("timestamps must be non-decreasing")
         w_ini = (ts * fs).to(torch.long)
     else:
         step_fs = n_samples / t_steps
-- 
2.43.0


From 8b612bae22d081e93d70e8042f8a322c69999f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 39/40] fix: refuse NaN durations and non-positive rooms or
 sound speeds in the acoustic estimates

NaN passed the <= 0 tests (giving lossless walls for a NaN T60), and a zero
room side or sound speed gave meaningless image counts.
---
 src/torchrir/util/acoustics.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/util/acoustics.py b/src/torchrir/util/acoustics.py
index 823cd2b..b586bc7 100644
--- a/src/torchrir/util/acoustics.py
+++ b/src/torchrir/util/acoustics.py
@@ -31,10 +31,11 @@ def estimate_beta_from_t60(
         beta = estimate_beta_from_t60(torch.tensor([6.0, 4.0, 3.0]), t60=0.4)
         ```
     """
-    if t60 <= 0:
+    if not t60 > 0:
         raise ValueError("t60 must be positive")
     size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
+    _check_positive_size(size)
     dim = size.numel()
     if dim == 2:
         lx, ly = size.tolist()
@@ -71,6 +72,7 @@ def estimate_t60_from_beta(
     """
     size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
+    _check_positive_size(size)
     beta = as_tensor(beta, device=size.device, dtype=size.dtype)
     dim = size.numel()
     if dim == 2:
@@ -118,9 +120,9 @@ def attenuation_db_to_time_sabine(att_db: float, t60: float) -> float:
         t = attenuation_db_to_time_sabine(att_db=60.0, t60=0.4)
         ```
     """
-    if t60 <= 0:
+    if not t60 > 0:
         raise ValueError("t60 must be positive")
-    if att_db <= 0:
+    if not att_db > 0:
         raise ValueError("att_db must be positive")
     return (att_db / 60.0) * t60
 
@@ -138,9 +140,17 @@ def estimate_image_counts_from_tmax(
         nb_img = estimate_image_counts_from_tmax(0.3, torch.tensor([6.0, 4.0, 3.0]))
         ```
     """
-    if tmax <= 0:
+    if not tmax > 0:
         raise ValueError("tmax must be positive")
+    if not c > 0:
+        raise ValueError("c must be positive")
     size = as_float_tensor(room_size)
     size = ensure_dim(size)
+    _check_positive_size(size)
     n = torch.ceil((tmax * c) / size).to(torch.int64)
     return n
+
+
+def _check_positive_size(size: Tensor) -> None:
+    if not bool((size > 0).all()):
+        raise ValueError("room size must be positive")
-- 
2.43.0


From 322180a12a8a8aeb13b5202d0fa26740196037fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 40/40] fix: refuse zero or NaN directions, normals and NaN
 sizes in the array builders

They silently gave NaN microphone positions.
---
 src/torchrir/geometry/arrays.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 0dd1ef6..8b1fc5c 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -41,7 +41,7 @@ def linear_array(
     """Create an equally spaced linear microphone array."""
     if num <= 0:
         raise ValueError("num must be positive")
-    if spacing <= 0:
+    if not spacing > 0:
         raise ValueError("spacing must be positive")
     center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
@@ -58,7 +58,10 @@ def linear_array(
         )
         if direction_vec.numel() != dim:
             raise ValueError("direction must match center dimensionality")
-        direction_vec = direction_vec / torch.linalg.norm(direction_vec)
+        norm = torch.linalg.norm(direction_vec)
+        if not norm > 0:
+            raise ValueError("direction must be non-zero")
+        direction_vec = direction_vec / norm
 
     offsets = (
         torch.arange(num, device=center_t.device, dtype=center_t.dtype)
@@ -80,7 +83,7 @@ def circular_array(
     """Create an equally spaced circular microphone array."""
     if num <= 0:
         raise ValueError("num must be positive")
-    if radius <= 0:
+    if not radius > 0:
         raise ValueError("radius must be positive")
     center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
@@ -137,7 +140,7 @@ def polyhedron_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a regular polyhedron microphone array (3D only)."""
-    if radius <= 0:
+    if not radius > 0:
         raise ValueError("radius must be positive")
     center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
@@ -157,7 +160,7 @@ def eigenmike_em32(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
-    if radius <= 0:
+    if not radius > 0:
         raise ValueError("radius must be positive")
     center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
@@ -255,7 +258,7 @@ def eigenmike_em64(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
-    if radius <= 0:
+    if not radius > 0:
         raise ValueError("radius must be positive")
     center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
@@ -411,7 +414,10 @@ def eigenmike_em64(
 def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
     if normal.numel() != 3:
         raise ValueError("normal must be a 3D vector")
-    n = normal / torch.linalg.norm(normal)
+    norm = torch.linalg.norm(normal)
+    if not norm > 0:
+        raise ValueError("normal must be non-zero")
+    n = normal / norm
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
     if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
-- 
2.43.0

