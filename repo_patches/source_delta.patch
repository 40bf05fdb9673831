From 8aea125c5761da5eb506d6432068a0069349c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 01/16] fix: use integer division in
 rank_extent_from_tile_metadata

---
 fv3gfs/util/partitioner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..e4d3bd3 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -734,10 +734,14 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
-    return extent_from_metadata(dims, tile_extent, layout_factors)
+    layout_factors = utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    return_extents = []
+    # must use integer division, multiplying by a float 1 / layout_factor can
+    # round down to just below an integer and then lose a point when cast to int
+    for dim, extent, layout_factor in zip(dims, tile_extent, layout_factors):
+        n_interface = 1 if dim in constants.INTERFACE_DIMS else 0
+        return_extents.append(int((extent - n_interface) // layout_factor) + n_interface)
+    return tuple(return_extents)
 
 
 def extent_from_metadata(
-- 
2.43.0


From 59dec8609363eaae4610ec0438c651fc03484524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 02/16] fix: rotate vector components in place in
 Boundary.rotate

---
 fv3gfs/util/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/boundary.py b/fv3gfs/util/boundary.py
index faf1785..724e981 100644
--- a/fv3gfs/util/boundary.py
+++ b/fv3gfs/util/boundary.py
@@ -20,12 +20,12 @@ class Boundary:
         if self.n_clockwise_rotations % 4 == 0:
             pass
         elif self.n_clockwise_rotations % 4 == 1:
-            y_data[:], x_data[:] = -x_data[:], y_data[:]
+            y_data[:], x_data[:] = -x_data[:], y_data[:].copy()
         elif self.n_clockwise_rotations % 4 == 2:
             y_data[:] = -y_data[:]
             x_data[:] = -x_data[:]
         elif self.n_clockwise_rotations % 4 == 3:
-            y_data, x_data = x_data[:], -y_data[:]
+            y_data[:], x_data[:] = x_data[:].copy(), -y_data[:]
 
     def send_view(self, quantity: Quantity, n_points: int):
         """Return a sliced view of points which should be sent at this boundary.
-- 
2.43.0


From c5e3df38f0fb467c34c0be4fbe009cfcc1b6a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 03/16] fix: flip the horizontal axis of shared edges whatever
 the dimension order

synchronize_vector_interfaces named only the horizontal dimension when rotating
the edge data, so with a leading vertical dimension the vertical axis was
reversed on rotated tile edges.
---
 fv3gfs/util/communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..31d8d30 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
-- 
2.43.0


From 1b8b507104c216c1dc49c6be6e44190702aabf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 04/16] fix: order the axes of rotated shared edges like the
 receiving component

---
 fv3gfs/util/communicator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 31d8d30..1a7e118 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -577,12 +577,19 @@ class CubedSphereCommunicator(Communicator):
                 ),
             }
         )
+        south_dims = [d for d in x_quantity.dims if d != constants.Y_INTERFACE_DIM]
+        west_dims = [d for d in y_quantity.dims if d != constants.X_INTERFACE_DIM]
+        south_axis = south_dims.index(constants.X_DIM)
+        west_axis = west_dims.index(constants.Y_DIM)
         south_data = rotate_scalar_data(
             south_data,
-            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
+            south_dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
+        if south_boundary.n_clockwise_rotations % 2 == 1:
+            # received by the y-component, which may have another order of axes
+            south_data = x_quantity.np.moveaxis(south_data, south_axis, west_axis)
         if south_boundary.n_clockwise_rotations in (3, 2):
             south_data = -south_data
         west_data = y_quantity.view.southwest.sel(
@@ -595,10 +602,13 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
+            west_dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
+        if west_boundary.n_clockwise_rotations % 2 == 1:
+            # received by the x-component, which may have another order of axes
+            west_data = y_quantity.np.moveaxis(west_data, west_axis, south_axis)
         if west_boundary.n_clockwise_rotations in (1, 2):
             west_data = -west_data
         send_requests = [
-- 
2.43.0


From bdc7f188ccca0094f50858e17780d8f85e30fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 05/16] fix: keep the receive state's time when the scattered
 state has none

---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 1a7e118..850562d 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -259,7 +259,7 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            return self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
 
@@ -270,16 +270,16 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            return self.comm.bcast(None, root=constants.ROOT_RANK)
 
         if recv_state is None:
             recv_state = {}
         if self.rank == constants.ROOT_RANK:
-            scatter_root()
+            time = scatter_root()
         else:
-            scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
+            time = scatter_client()
+        if time is not None:
+            recv_state["time"] = time
         return recv_state
 
 
-- 
2.43.0


From b2a5338c938f2984c19bc8ab8f742cf060cc9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 06/16] fix: count negative slice bounds from the end of the
 compute domain

---
 fv3gfs/util/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..e701e3c 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -558,8 +558,8 @@ def shift_slice(slice_in, shift, extent):
 def shift_index(current_value, shift, extent):
     if current_value is None:
         new_value = None
+    elif current_value < 0:  # counts back from the end of the compute domain
+        new_value = max(extent + current_value, 0) + shift
     else:
         new_value = current_value + shift
-        if new_value < 0:
-            new_value = extent + new_value
     return new_value
-- 
2.43.0


From be42a07138d7e1e1ef11bde8a789203f7ea00916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 07/16] fix: default bounds of backwards slices of quantity
 views

---
 fv3gfs/util/_boundary_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fv3gfs/util/_boundary_utils.py b/fv3gfs/util/_boundary_utils.py
index 1eab376..ea5ea5e 100644
--- a/fv3gfs/util/_boundary_utils.py
+++ b/fv3gfs/util/_boundary_utils.py
@@ -14,6 +14,9 @@ def shift_boundary_slice_tuple(dims, origin, extent, boundary_type, slice_tuple)
 
 
 def bound_default_slice(slice_in, start=None, stop=None):
+    if slice_in.step is not None and slice_in.step < 0:
+        # a backwards slice goes from the last to the first point by default
+        start, stop = stop - 1, start - 1 if start > 0 else None
     if slice_in.start is not None:
         start = slice_in.start
     if slice_in.stop is not None:
-- 
2.43.0


From dc66b4b1a328c1d519442ade707bf444026e503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 08/16] fix: raise IndexError when a view is given too many
 indices

---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index e701e3c..9122de2 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -181,7 +181,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From 6c81388e416e0a5f37cf7a010b72482d7363abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 09/16] fix: initialize quantities from numbers and lists

---
 fv3gfs/util/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 9122de2..f430fa3 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -272,6 +272,9 @@ class Quantity:
                 storage attribute is disabled and will raise an exception. Will raise
                 a TypeError if this is given with a gt4py storage type as data
         """
+        if isinstance(data, (int, float, list)):
+            data = np.asarray(data)
+
         if origin is None:
             origin = (0,) * len(dims)  # default origin at origin of array
         else:
@@ -282,9 +285,7 @@ class Quantity:
         else:
             extent = tuple(extent)
 
-        if isinstance(data, (int, float, list)):
-            data = np.asarray(data)
-        elif gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
+        if gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
             if gt4py_backend is not None:
                 raise TypeError(
                     "cannot select gt4py backend with keyword argument "
-- 
2.43.0


From 1353b8ca5fee5b60e20d1927dd14233c97c501c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 10/16] fix: allow writing to view[:] of zero-dimensional
 quantities

---
 fv3gfs/util/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index f430fa3..df97ffc 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -74,6 +74,8 @@ class BoundaryArrayView:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
+        if len(self._origin) == 0 and index == slice(None, None, None):
+            index = ()
         self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
@@ -173,6 +175,8 @@ class BoundedArrayView:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
+        if len(self.origin) == 0 and index == slice(None, None, None):
+            index = ()
         self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
-- 
2.43.0


From 4ca49fabccef808aaa39bddbf8db8cfa766192f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 11/16] fix: refuse states with other attributes before storing
 any of their data

---
 fv3gfs/util/zarr_monitor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..8d630f4 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -93,6 +93,9 @@ class ZarrMonitor:
                 f"provided state is missing keys {missing_names} "
                 "that were present in earlier states"
             )
+        # must be done for all names before storing any of them
+        for name, quantity in state.items():
+            self._writers[name].ensure_compatible(quantity)
 
     def _ensure_writers_are_consistent(self, state):
         if self._writers is None:
@@ -171,7 +174,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -212,7 +214,9 @@ class _ZarrVariableWriter:
             **quantity.attrs,
         }
 
-    def _ensure_compatible_attrs(self, new_quantity):
+    def ensure_compatible(self, new_quantity):
+        if self.array is None:
+            return
         new_attrs = self._get_attrs(new_quantity)
         if dict(self.array.attrs) != new_attrs:
             raise ValueError(
@@ -268,12 +272,14 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             self.array.attrs["units"] = self._encoding_units
             self.array.attrs["calendar"] = self._encoding_calendar
 
-    def _encode_time(self, time):
-        if time.calendar != self._encoding_calendar:
+    def ensure_compatible(self, time):
+        if self.array is not None and time.calendar != self._encoding_calendar:
             raise ValueError(
                 f"Calendar type of time, {time.calendar}, does not match the original "
                 f"calendar encoding, {self._encoding_calendar}."
             )
+
+    def _encode_time(self, time):
         return cftime.date2num(
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
-- 
2.43.0


From 7bb1240f7dc217858d20ffdc5bf78e9b2da15ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 12/16] fix: restore the stream and close its copy when
 captured code raises

---
 fv3gfs/util/_capture_stream.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..14b0ee3 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -13,13 +13,18 @@ def capture_stream(stream):
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
 
-    with tempfile.NamedTemporaryFile() as out:
-        # overwrite the streams fileno with a the pipe to be read by the forked
-        # process below
-        os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+    try:
+        with tempfile.NamedTemporaryFile() as out:
+            # overwrite the streams fileno with a the pipe to be read by the forked
+            # process below
+            os.dup2(out.fileno(), stream.fileno())
+            try:
+                yield out_stream
+            finally:
+                # restore the original file handle
+                os.dup2(orig_file_handle, stream.fileno())
+                # print logging info
+                out.seek(0)
+                out_stream.write(out.read())
+    finally:
+        os.close(orig_file_handle)
-- 
2.43.0


From 766ab736488285d146f72764f33de47491d3d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 13/16] fix: flush a captured stream before and after the
 capture

---
 fv3gfs/util/_capture_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 14b0ee3..976b3fb 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -9,6 +9,8 @@ def capture_stream(stream):
 
     out_stream = io.BytesIO()
 
+    stream.flush()  # what was written before is not part of the capture
+
     # parent process:
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
@@ -21,6 +23,8 @@ def capture_stream(stream):
             try:
                 yield out_stream
             finally:
+                # what is still buffered belongs to the capture
+                stream.flush()
                 # restore the original file handle
                 os.dup2(orig_file_handle, stream.fileno())
                 # print logging info
-- 
2.43.0


From acb403f6493914de8989321e9d50bf49f35d65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 14/16] fix: only decode the time of a stored state, not
 quantities with units like days

---
 fv3gfs/util/_xarray.py | 4 ++++
 fv3gfs/util/io.py      | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..199226d 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,10 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_cf(*args, **kwargs):
+    return xr.decode_cf(*args, **kwargs)
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..1beb6dc 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -46,10 +46,12 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        # only the time is decoded, units of quantities can look like those of a time
+        ds = xr.open_dataset(f, decode_times=False)
         for name, value in ds.data_vars.items():
             if name == "time":
-                out_dict[name] = _extract_time(value)
+                decoded = xr.decode_cf(ds[["time"]], use_cftime=True)
+                out_dict[name] = _extract_time(decoded["time"])
             else:
                 out_dict[name] = Quantity.from_data_array(value)
     return out_dict
-- 
2.43.0


From 240b3ff725882096a48db5e845debd86ac186e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 15/16] fix: write state files whose file objects can not seek,
 such as remote ones

---
 fv3gfs/util/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 1beb6dc..a5c913e 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -15,9 +15,10 @@ def write_state(state: dict, filename: str) -> None:
     """
     if "time" not in state:
         raise ValueError('state must include a value for "time"')
-    ds = xr.to_dataset(state)
+    # remote files opened for writing can not seek, so write the finished bytes
+    contents = xr.to_dataset(state).to_netcdf()
     with filesystem.open(filename, "wb") as f:
-        ds.to_netcdf(f)
+        f.write(contents)
 
 
 def _extract_time(value: xr.DataArray) -> cftime.datetime:
-- 
2.43.0


From b7b4f5a85b39be6db2e7bb4e25ceb62137909790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 16/16] fix: keep a zero-dimensional quantity writeable after
 its values are read

values marked the array returned by view[:] as read-only. For a quantity without
dimensions this is the data itself, which could then no longer be written.
---
 fv3gfs/util/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index df97ffc..4ada5e9 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -447,7 +447,8 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        # a new view, so that data itself stays writeable when view[:] is data
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0

