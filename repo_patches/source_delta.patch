From b99979dc79059e428a121a6fce4afc233482dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 01/56] fix: ColorCode.check_if_logical_error never reported a
 logical error

---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From 19b408e34afd24f297863d4352c696b871a2fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 02/56] fix: StabilizerCode accepted logical X-operators
 anti-commuting with several or no logical Z-operators

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..cf56a5a 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -157,7 +157,7 @@ class StabilizerCode:
             raise InvalidStabilizerCodeError(msg)
 
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
+        if not (np.all(np.sum(commutations, axis=0) == 1) and np.all(np.sum(commutations, axis=1) == 1)):
             msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From 3dfef40cb308cb6b1a99020e525c25c2ae0222fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 03/56] fix: StabilizerCode accepted generators that do not
 commute

---
 src/mqt/qecc/codes/stabilizer_code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index cf56a5a..20cbe31 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -122,6 +122,10 @@ class StabilizerCode:
 
     def _check_code_correct(self) -> None:
         """Check if the code is correct. Throws an exception if not."""
+        if not all_commute(self.symplectic_matrix, self.symplectic_matrix):
+            msg = "The stabilizer generators must commute with each other."
+            raise InvalidStabilizerCodeError(msg)
+
         if self.Lz is not None or self.Lx is not None:
             if self.Lz is None:
                 msg = "If logical X-operators are given, logical Z-operators must also be given."
-- 
2.43.0


From 1c4c0b61ed5b04ef41dea0d91aa955441d830a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 04/56] fix: StabilizerCode.stabilizer_equivalent called every
 Pauli equivalent to a stabilizer

---
 src/mqt/qecc/codes/stabilizer_code.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 20cbe31..da49285 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -101,7 +101,10 @@ class StabilizerCode:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
         v1 = pauli_to_binary(p1)
         v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        m1 = np.vstack((self.generators, v1))
+        m2 = np.vstack((self.generators, v2))
+        m3 = np.vstack((self.generators, v1, v2))
+        return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From cf29520f1518648ad1e33d2ebef1794da9562d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 05/56] fix: stabilizer membership test crashed for CSS codes
 without checks of that type

---
 src/mqt/qecc/codes/css_code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..8618a67 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -105,6 +105,8 @@ class CSSCode(StabilizerCode):
     def check_if_x_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
         assert self.Hx is not None
+        if self.Hx.shape[0] == 0:
+            return not np.any(pauli)
         return bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))
 
     def check_if_logical_z_error(self, residual: npt.NDArray[np.int8]) -> bool:
@@ -114,6 +116,8 @@ class CSSCode(StabilizerCode):
     def check_if_z_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
         assert self.Hz is not None
+        if self.Hz.shape[0] == 0:
+            return not np.any(pauli)
         return bool(mod2.rank(np.vstack((self.Hz, pauli))) == mod2.rank(self.Hz))
 
     def stabilizer_eq_x_error(self, error_1: npt.NDArray[np.int8], error_2: npt.NDArray[np.int8]) -> bool:
-- 
2.43.0


From a2d1a0d6916632d9b82623823dd2e913d9f2c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 06/56] fix: CSSCode.is_self_dual accepted codes whose Z checks
 only span part of the X checks

---
 src/mqt/qecc/codes/css_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 8618a67..c246c87 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -143,7 +143,8 @@ class CSSCode(StabilizerCode):
         if self.Hx is None or self.Hz is None:
             return False
         return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
+            self.Hx.shape[0] == self.Hz.shape[0]
+            and mod2.rank(self.Hx) == mod2.rank(self.Hz) == mod2.rank(np.vstack([self.Hx, self.Hz]))
         )
 
     @staticmethod
-- 
2.43.0


From c5c076ab500779417fad5e31e9c8a5f57ca01184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 07/56] fix: quasi single-shot simulator works without analog
 information

---
 .../simulators/quasi_single_shot_v2.py                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..750aba7 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -150,6 +150,7 @@ class QssSimulator:
         channel_probs[self.check_block_size :] = np.array(self.syndr_err_channel.tolist() * (self.repetitions))
 
         # If we do ATG decoding, initialize sigma (syndrome noise strength)
+        self.sigma = 0.0
         if self.analog_tg:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
@@ -173,7 +174,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +196,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
-- 
2.43.0


From bd8de7d04bb72d903beb29a82df003fbe103703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 08/56] fix: result files with separate X and Z noise go into
 their own directory

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..17bc831 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -155,7 +155,7 @@ def create_outpath(
         if "sigma" in kwargs:
             path += f"per_{kwargs['data_err_rate']:.3e}_sigma_{kwargs['sigma']:.3e}/"
         if "z_sigma" in kwargs:
-            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}"
+            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}/"
     else:
         path += f"per_{kwargs['data_err_rate']:.3e}_ser_{kwargs['syndr_err_rate']:.3e}/"
 
-- 
2.43.0


From 25207fc80f7331359ddbf93063c54bac6fc929fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 09/56] fix: single-shot simulator can write its results file

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..709ba3d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -700,7 +700,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From 7028cf6dfbb19c0fb2f47c6d71084c264a452a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 10/56] fix: single-stage decoding works without analog
 information

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 709ba3d..1987910 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -132,6 +132,8 @@ class SingleShotSimulator:
         self.z_syndr_error_channel = full_z_syndr_err_chnl[2] + full_z_syndr_err_chnl[1]  # z+y
 
         # if we want to decode with analog syndrome noise and an analog decoder
+        self.sigma_x = 0.0
+        self.sigma_z = 0.0
         if self.analog_info or self.analog_tg:
             self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
             self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
-- 
2.43.0


From bcb3f58a43f10aaa16588843836c5f9903c4419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 11/56] fix: windows after a completed run are decoded with
 their own channel again

---
 .../simulators/memory_experiment_v2.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..caff36a 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -124,6 +124,10 @@ def decode_multiround(
 
         decoder = get_updated_decoder(decoding_method, decoder, new_channel, h3d)
 
+    elif decoding_method == "bposd":
+        # the decoder object is reused and may still hold the channel of the last round of a previous run
+        decoder = get_updated_decoder(decoding_method, decoder, channel_probs, h3d)
+
     decoded = decoder.decode(diff_syndrome.flatten("F"))
 
     if decoding_method == "bposd":
-- 
2.43.0


From f2da91136e398b2eaf3a98d060dee48a68e9d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 12/56] fix: merging result files works for relative input
 paths

---
 .../utils/data_utils.py                       | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 17bc831..e2b1c77 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -365,16 +365,14 @@ def merge_json_files(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                file_path = folder_path / filename
-                with file_path.open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -405,15 +403,14 @@ def merge_json_files_x(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -444,8 +441,7 @@ def merge_json_files_z(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
 
         if not folder_path.is_dir():
             continue
@@ -453,7 +449,7 @@ def merge_json_files_z(input_path: str) -> None:
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -484,15 +480,14 @@ def merge_json_files_xz(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From 1848443815ec5dc2dcfcfed09447e10745c6b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 13/56] fix: combining X and Z results keeps the merged X
 counts

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index e2b1c77..29853ac 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -517,7 +517,8 @@ def _combine_xz_data(xdata: dict[str, Any] | None, zdata: dict[str, Any] | None)
         # print(xdata)
         xdata["x_runs"] = xdata.pop("nr_runs")
         zdata["z_runs"] = zdata.pop("nr_runs")
-        xdata.update(zdata)
+        # the records may contain entries of a single file for the other side, these must not replace merged ones
+        xdata.update({key: value for key, value in zdata.items() if key.startswith("z_") or key not in xdata})
         return xdata
     if xdata:
         xdata["x_runs"] = xdata.pop("nr_runs")
-- 
2.43.0


From a99fbfed945df5cc8fe1ff6a0cd8b8ff55d43852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 14/56] fix: storing the parameters of a sparse product code
 converts the matrices once

---
 .../code_construction/sparse_code_constructor.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..87e0034 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -210,4 +210,4 @@ def create_code(
         _compute_distances(hx.todense(), hz.todense(), codename)
 
     else:
-        _store_code_params(hx.todense(), hz.todense(), codename)
+        _store_code_params(hx, hz, codename)
-- 
2.43.0


From 765e24c0642a4ecce19a0e5370ff03c1a6d77595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 15/56] fix: sparse product codes are stored also when no
 logical operators are computed

---
 .../code_construction/sparse_code_constructor.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 87e0034..4f2bf04 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -205,6 +205,8 @@ def create_code(
     if compute_logicals:
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
 
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
-- 
2.43.0


From cad96e5b2de74414dcb5183caa06352798497d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 16/56] fix: generating the Z lookup table of a self-dual code
 first left it empty

---
 src/mqt/qecc/ft_stateprep/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..d2bbd19 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -387,7 +387,7 @@ class LutDecoder:
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
         if self.code.is_self_dual():
-            self.z_lut = self.x_lut
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From 87397282dfed83152305316847ba5b0196cc8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 17/56] fix: lookup tables are shared only between identical
 check matrices

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d2bbd19..d1fb94b 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,7 +386,7 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.x_lut = self.z_lut
 
     @staticmethod
-- 
2.43.0


From 528eea62fa3b36def1249afb6d0dba76623646f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 18/56] fix: lookup-table decoding accepts syndromes of any
 integer type

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d1fb94b..78ed62c 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -361,13 +361,13 @@ class LutDecoder:
         """Decode the X errors given a syndrome."""
         if len(self.x_lut) == 0:
             self.generate_x_lut()
-        return self.x_lut[syndrome.tobytes()]
+        return self.x_lut[syndrome.astype(np.int8).tobytes()]
 
     def decode_z(self, syndrome: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
         """Decode the Z errors given a syndrome."""
         if len(self.z_lut) == 0:
             self.generate_z_lut()
-        return self.z_lut[syndrome.tobytes()]
+        return self.z_lut[syndrome.astype(np.int8).tobytes()]
 
     def generate_x_lut(self) -> None:
         """Generate the lookup table for the X errors."""
-- 
2.43.0


From 9450cf5b9ad2145827287ee639cc8844d0952aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 19/56] fix: solving a lights-out pattern no longer switches
 off the lights of the caller's list

---
 src/mqt/qecc/cc_decoder/decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index deb4294..a1a99d8 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -77,6 +77,7 @@ class LightsOut:
     def validate_model(self, model: ModelRef, lights: list[bool]) -> bool:
         """Validate the model by checking if pressing the switches turns off all lights."""
         assert self.switch_vars is not None
+        lights = list(lights)  # the caller keeps its pattern
         for i, var in enumerate(self.switch_vars):
             if model[var]:
                 # flip all lights that are controlled by this switch
-- 
2.43.0


From 6e1d53c3b32698efb6ca2f7bd9e6632d98f31410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 20/56] fix: two-flag measurement gadgets of weight seven and
 more than eight used flags that do not exist

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..a8dd450 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1425,17 +1425,19 @@ def measure_stab_two_flagged(
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
 
     cnots = 2
-    flags = 2
+    flags = 2  # the next flag to be coupled
+    released = 2  # the next flag to be decoupled and measured
     for q in stab[2:-2]:
         _ancilla_cnot(qc, q, ancilla, z_measurement)
         cnots += 1
         if cnots % 2 == 0 and cnots < len(stab) - 2:
             _flag_init(qc, flag_reg[flags], z_measurement)
             _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            flags += 1
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            _ancilla_cnot(qc, flag_reg[released], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[released], meas_reg[released], z_measurement)
+            released += 1
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1444,8 +1446,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[released], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[released], meas_reg[released], z_measurement)
+        released += 1
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1454,8 +1457,8 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[released], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[released], meas_reg[released], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From 903b319d957eea7961af90d2790ed4562f2aa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 21/56] fix: flagged measurements of weight one measured
 nothing and of weight three failed for two faults

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index a8dd450..ce4cfa6 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1333,12 +1333,13 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
-    if t == 1:
-        _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
+    # too few couplings for a fault on the ancilla to spread to more than one data qubit (up to the stabilizer)
+    if (w < 2 and t == 1) or (w < 4 and t == 2):
+        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
-        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
+    if t == 1:
+        _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
     if w == 4 and t == 2:
-- 
2.43.0


From ea9233eb8f1cc022f270b654aedfba459d992f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 22/56] fix: simulated preparation circuits keep every Hadamard
 and contain every qubit

---
 src/mqt/qecc/ft_stateprep/simulation.py | 33 +++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 78ed62c..3428046 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -101,7 +101,7 @@ class NoisyNDFTStatePrepSimulator:
         """
         initialized = [False for _ in self.circ.qubits]
         stim_circuit = stim.Circuit()
-        ctrls = []
+        ctrls: list[int] = []  # Qubits in |0> waiting for a Hadamard gate
 
         def idle_error(used_qubits: list[int]) -> None:
             for q in self.circ.qubits:
@@ -109,6 +109,15 @@ class NoisyNDFTStatePrepSimulator:
                 if initialized[qubit] and qubit not in used_qubits:
                     stim_circuit.append_operation("DEPOLARIZE1", [self.circ.find_bit(q)[0]], [2 * self.p / 3])
 
+        def initialize(qubit: int) -> None:
+            if qubit in ctrls:
+                ctrls.remove(qubit)
+                stim_circuit.append_operation("H", [qubit])
+                stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            else:
+                stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            initialized[qubit] = True
+
         dag = circuit_to_dag(self.circ)
         layers = dag.layers()
         used_qubits: list[int] = []
@@ -125,7 +134,6 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
                     if initialized[qubit]:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
@@ -133,21 +141,19 @@ class NoisyNDFTStatePrepSimulator:
                             idle_error([qubit])
                         else:
                             used_qubits.append(qubit)
+                    elif qubit in ctrls:
+                        ctrls.remove(qubit)
+                    else:
+                        ctrls.append(qubit)
 
                 elif gate.operation.name == "cx":
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
                     if not initialized[ctrl]:
-                        if ctrl in ctrls:
-                            stim_circuit.append_operation("H", [ctrl])
-                            stim_circuit.append_operation("Z_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        else:
-                            stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        initialized[ctrl] = True
+                        initialize(ctrl)
                     if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
-                        initialized[target] = True
+                        initialize(target)
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
@@ -158,6 +164,8 @@ class NoisyNDFTStatePrepSimulator:
 
                 elif gate.operation.name == "measure":
                     anc = self.circ.find_bit(gate.qubits[0])[0]
+                    if anc in ctrls:
+                        initialize(anc)
                     stim_circuit.append_operation("X_ERROR", [anc], [2 * self.p / 3])
                     stim_circuit.append_operation("MR", [anc])
                     if anc in targets:
@@ -174,6 +182,11 @@ class NoisyNDFTStatePrepSimulator:
                     if measured[anc] == 2:
                         self._reused_qubits += 1
 
+        # Prepare the qubits that take part in no gate
+        for qubit, is_initialized in enumerate(initialized):
+            if not is_initialized and (qubit in ctrls or measured[qubit] == 0):
+                initialize(qubit)
+
         return stim_circuit
 
     def measure_stabilizers(self) -> None:
-- 
2.43.0


From ec736e7c0106d88b4e0a690cc0a1c9213d1e962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 23/56] fix: simulator measures the data qubits also when an
 ancilla is measured more than twice or a qubit is idle

---
 src/mqt/qecc/ft_stateprep/simulation.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 3428046..60cbc06 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -77,13 +77,8 @@ class NoisyNDFTStatePrepSimulator:
         self.data_measurements = []
         self.n_measurements = 0
         self.p = p
-        self._reused_qubits = 0
         self.stim_circ = self.to_stim_circ()
-        self.num_qubits = (
-            self.stim_circ.num_qubits
-            - (len(self.x_verification_measurements) + len(self.z_verification_measurements))
-            + self._reused_qubits
-        )
+        self.num_qubits = self.code.n
         self.measure_stabilizers()
         if self.zero_state:
             self.measure_z()
@@ -179,8 +174,6 @@ class NoisyNDFTStatePrepSimulator:
                         used_qubits.append(anc)
                     initialized[anc] = False
                     measured[anc] += 1
-                    if measured[anc] == 2:
-                        self._reused_qubits += 1
 
         # Prepare the qubits that take part in no gate
         for qubit, is_initialized in enumerate(initialized):
-- 
2.43.0


From de93153900a61814596229bdab751db50f7dec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 24/56] fix: simulated logical error rate is the ratio of
 failures to accepted runs over all batches

The rate was the mean of the ratios of the batches, which counts a batch of
which every run was discarded as a batch without failures, and the number of
shots reported was one batch too many when no minimum number of errors was
requested.
---
 src/mqt/qecc/ft_stateprep/simulation.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 60cbc06..82447ef 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -237,36 +237,33 @@ class NoisyNDFTStatePrepSimulator:
             min_errors: The minimum number of errors to find before stopping.
         """
         batch = min(shots_per_batch, shots)
-        p_l = 0.0
-        r_a = 0.0
-
         num_logical_errors = 0
+        num_accepted = 0
 
         if self.zero_state:
             self.decoder.generate_x_lut()
         else:
             self.decoder.generate_z_lut()
 
-        i = 1
-        while i <= int(np.ceil(shots / batch)) or at_least_min_errors:
+        i = 0
+        while i < int(np.ceil(shots / batch)) or at_least_min_errors:
+            i += 1
             num_logical_errors_batch, discarded_batch = self._simulate_batch(batch)
 
             logging.log(
                 logging.INFO,
                 f"Batch {i}: {num_logical_errors_batch} logical errors and {discarded_batch} discarded shots. {batch - discarded_batch} shots used.",
             )
-            p_l_batch = num_logical_errors_batch / (batch - discarded_batch) if discarded_batch != batch else 0.0
-            p_l = ((i - 1) * p_l + p_l_batch) / i
-
-            r_a_batch = 1 - discarded_batch / batch
 
             # Update statistics
             num_logical_errors += num_logical_errors_batch
-            r_a = ((i - 1) * r_a + r_a_batch) / i
+            num_accepted += batch - discarded_batch
 
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
-            i += 1
+
+        p_l = num_logical_errors / num_accepted if num_accepted > 0 else 0.0
+        r_a = num_accepted / (i * batch)
 
         return p_l / self.code.k, r_a, num_logical_errors, i * batch
 
-- 
2.43.0


From a24861cb83b6828cee0b76aff685ce2143a66aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 25/56] fix: keep the column order when the heuristic synthesis
 makes the checks triangular

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index ce4cfa6..5f32432 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -229,7 +229,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         if np.all(costs_unused >= 0) or len(used_qubits) == checks.shape[1]:  # no more reductions possible
             if not used_qubits:  # local minimum => get out by making matrix triangular
                 logging.warning("Local minimum reached. Making matrix triangular.")
-                checks = mod2.reduced_row_echelon(checks)[0]
+                checks = mod2.row_echelon(checks, full=True)[0]
                 costs = np.array([
                     [np.sum((checks[:, i] + checks[:, j]) % 2) for j in range(checks.shape[1])]
                     for i in range(checks.shape[1])
-- 
2.43.0


From 513ca5d963b02ad026f6414d6c0004a795c868ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 26/56] fix: redundant checks in the optimal state preparation
 synthesis

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 5f32432..c445c25 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -306,7 +306,7 @@ def _generate_circ_with_bounded_depth(
                 )
             )
 
-    s.add(_final_matrix_constraint(columns))
+    s.add(_final_matrix_constraint(columns, mod2.rank(checks)))
 
     if s.check() == z3.sat:
         m = s.model()
@@ -364,8 +364,8 @@ def _generate_circ_with_bounded_gates(
         for col in range(n):
             s.add(z3.Implies(targets[d - 1] != col, _symbolic_vector_eq(columns[d, :, col], columns[d - 1, :, col])))
 
-    # assert that final check matrix has n-checks.shape[0] zero columns
-    s.add(_final_matrix_constraint(columns))
+    # assert that final check matrix has n-rank(checks) zero columns
+    s.add(_final_matrix_constraint(columns, mod2.rank(checks)))
 
     if s.check() == z3.sat:
         m = s.model()
@@ -1164,11 +1164,11 @@ def _column_addition_constraint(
     return z3.And(constraints)
 
 
-def _final_matrix_constraint(columns: npt.NDArray[z3.BoolRef | bool]) -> z3.BoolRef:
+def _final_matrix_constraint(columns: npt.NDArray[z3.BoolRef | bool], rank: int) -> z3.BoolRef:
     assert len(columns.shape) == 3
     return z3.PbEq(
         [(z3.Not(z3.Or(list(columns[-1, :, col]))), 1) for col in range(columns.shape[2])],
-        columns.shape[2] - columns.shape[1],
+        columns.shape[2] - rank,
     )
 
 
-- 
2.43.0


From ae3b46d5d17b5bf6c16970fd90034ac6be7d253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 27/56] fix: do not search for a preparation circuit with
 parameter 0

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index c445c25..fbbabd9 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -424,7 +424,7 @@ def _optimal_circuit(
     # Solving a SAT instance is much faster than proving unsat in this case
     # so we iterate backwards until we find an unsat instance or hit a timeout
     logging.info("Trying to minimize param")
-    while True:
+    while curr_param > 1:
         logging.info(f"Trying param {curr_param - 1}")
         opt_res = _run_with_timeout(fun, curr_param - 1, timeout=max_timeout)
         if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):
-- 
2.43.0


From d5c2b7486f1ac2b1513c174e9e6b52b0a957e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 28/56] fix: propagate a fault through the gate in front of
 which it occurs

_propagate_error skipped the first CNOT, so the fault set missed errors that a single fault causes.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index fbbabd9..33de2a6 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1185,7 +1185,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From 3571951a81c469b40ddfd4ee803f2670ca6cff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 29/56] fix: remove exactly the Hadamards before computing the
 fault set

The front layer also holds CNOTs whose qubits have no Hadamard.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 33de2a6..c759b1a 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -92,8 +92,7 @@ class StatePrepCircuit:
         if num_errors == 1:
             logging.info("Computing fault set for 1 error.")
             dag = circuit_to_dag(self.circ)
-            for node in dag.front_layer():  # remove hadamards
-                dag.remove_op_node(node)
+            dag.remove_all_ops_named("h")  # remove hadamards
             fault_list = []
             # propagate every error before a control
             nodes = list(dag.topological_op_nodes())
-- 
2.43.0


From 7c902264c8bee446b0d95823c8964b629dfbc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 30/56] fix: compute the empty fault set of a circuit without
 CNOTs

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index c759b1a..5071651 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -99,7 +99,7 @@ class StatePrepCircuit:
             for i in range(len(nodes)):
                 error = _propagate_error(nodes[i:], dag.num_qubits(), x_errors=x_errors)
                 fault_list.append(error)
-            faults = np.array(fault_list, dtype=np.int8)
+            faults = np.array(fault_list, dtype=np.int8).reshape(-1, self.num_qubits)
             faults = np.unique(faults, axis=0)
 
             if x_errors and self.x_fault_sets_unreduced[1] is None:
-- 
2.43.0


From ba0573430e313b923fdb25b99983ec45af552ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 31/56] fix: hook errors are the suffixes of the measured
 stabilizer

The removed qubits have to stay removed: a fault on the ancilla spreads to all later qubits.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 5071651..79dfcbb 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1611,5 +1611,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From 99623381ceec2d3fe8c0f232d8f5aa5334a55369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 32/56] fix: do not return an unverified circuit when no
 verification was found

gate_optimal_verification_stabilizers returns no layers when a search fails; the circuit built from them verified nothing.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 79dfcbb..7d11a43 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -699,12 +699,17 @@ def _verification_circuit(
     full_fault_tolerance: bool = True,
 ) -> QuantumCircuit:
     logging.info("Finding verification stabilizers for the state preparation circuit")
+    msg = "No verification stabilizers were found for some of the errors."
     layers_1 = verification_stabs_fun(sp_circ, sp_circ.zero_state, None)
+    if len(layers_1) < sp_circ.max_errors:
+        raise RuntimeError(msg)
     measurements_1 = [measurement for layer in layers_1 for measurement in layer]
 
     if full_fault_tolerance:
         additional_errors = _hook_errors(measurements_1)
         layers_2 = verification_stabs_fun(sp_circ, not sp_circ.zero_state, additional_errors)
+        if len(layers_2) < sp_circ.max_errors:
+            raise RuntimeError(msg)
         measurements_2 = [measurement for layer in layers_2 for measurement in layer]
     else:
         measurements_2 = []
-- 
2.43.0


From e0e37246e069c4c3a0507cfdb679e22a978d49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 33/56] fix: reject empty parity-check matrices instead of
 dereferencing them

---
 include/Code.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Code.hpp b/include/Code.hpp
index 3801275..5ef907f 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -36,7 +36,11 @@ struct ParityCheckMatrix {
     ParityCheckMatrix(const ParityCheckMatrix& m)          = delete;
     ParityCheckMatrix& operator=(const ParityCheckMatrix&) = delete;
 
-    explicit ParityCheckMatrix(gf2Mat& mat) : pcm(std::make_unique<gf2Mat>(mat)) {}
+    explicit ParityCheckMatrix(gf2Mat& mat) : pcm(std::make_unique<gf2Mat>(mat)) {
+        if (mat.empty() || mat.front().empty()) {
+            throw QeccException("[PCM::ctor] - Cannot construct pcm, matrix empty");
+        }
+    }
 
     explicit ParityCheckMatrix(const std::string& filePath) {
         if (filePath.empty()) {
-- 
2.43.0


From 0812aeab646151a3cc6367df38f31d31f81a5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 34/56] fix: two-sided syndrome without X checks raises instead
 of crashing

---
 include/Code.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Code.hpp b/include/Code.hpp
index 5ef907f..16e54b0 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -224,6 +224,9 @@ public:
         if (xerr.empty() || zerr.empty() || xerr.size() != getN() || zerr.size() != getN()) {
             throw QeccException("Cannot compute syndrome, err empty or wrong size");
         }
+        if (!hX) {
+            throw QeccException("hX not set, cannot compute two-sided syndrome");
+        }
 
         gf2Vec xsyndr((*hZ->pcm).size(), false);
         Utils::rectMatrixMultiply(*hZ->pcm, xerr, xsyndr);
-- 
2.43.0


From 20611b2850e7dbecb6c88813bd98f45f0e83276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 35/56] fix: row-space test rejects zero vectors of the wrong
 length

---
 src/Utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index fc39d5f..93d966e 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -19,12 +19,12 @@
 bool Utils::isVectorInRowspace(const gf2Mat& inmat, const gf2Vec& vec) {
     assertMatrixPresent(inmat);
     assertVectorPresent(vec);
-    if (std::none_of(vec.begin(), vec.end(), [](const bool val) { return val; })) { // all zeros vector trivial
-        return true;
-    }
     if (vec.size() != inmat.at(0).size()) {
         throw QeccException("Cannot check if in rowspace, dimensions of matrix and vector do not match");
     }
+    if (std::none_of(vec.begin(), vec.end(), [](const bool val) { return val; })) { // all zeros vector trivial
+        return true;
+    }
     const auto matrix    = getTranspose(inmat); // v is in rowspace of M <=> v is in col space of M^T
     auto       matrixCsc = Utils::toCsc(matrix);
 
-- 
2.43.0


From 46cd3192c0dc1d767b586bc3daf6b85f9809726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 36/56] fix: isStabilizer rejects wrong sizes and codes without
 X checks

---
 include/Code.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/Code.hpp b/include/Code.hpp
index 16e54b0..485e28e 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -260,6 +260,9 @@ public:
      * @return
      */
     [[nodiscard]] bool isStabilizer(const gf2Vec& xest, const gf2Vec& zest) const {
+        if (!hX) {
+            throw QeccException("hX not set, cannot check if vector is a stabilizer");
+        }
         return Utils::isVectorInRowspace(*hX->pcm, xest) && Utils::isVectorInRowspace(*hZ->pcm, zest);
     }
 
@@ -271,9 +274,15 @@ public:
      * @return
      */
     [[nodiscard]] bool isStabilizer(const gf2Vec& est) const {
+        if (est.size() != getN() && est.size() != 2U * getN()) {
+            throw QeccException("Cannot check if vector is a stabilizer, wrong size");
+        }
         if (std::all_of(est.begin(), est.end(), [](int i) { return !static_cast<bool>(i); })) { // trivial case, all 0 vector
             return true;
         }
+        if (!hX) {
+            throw QeccException("hX not set, cannot check if vector is a stabilizer");
+        }
         if (est.size() > getN()) {
             std::vector<bool> xEst;
             xEst.reserve(getN());
-- 
2.43.0


From b64ce671af7d4e5a664bf1161122676c12702df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 37/56] fix: connected components of a node set were split or
 incomplete

---
 src/UFDecoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..474f42b 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -316,8 +316,8 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
 
             std::queue<std::size_t> stack;
             stack.push(c);
-            while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
+            while (!stack.empty()) { // use BFS-like algorithm to compute connected component containing node 'c'
+                auto curr = stack.front();
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-- 
2.43.0


From c820f7ddffc44b7ea0ee4e8d1e5ff14a195bd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 38/56] fix: two-sided union-find decoding uses the checks and
 syndrome part it belongs to

---
 include/Decoder.hpp   |  2 +-
 include/UFDecoder.hpp | 12 +++++------
 src/UFDecoder.cpp     | 48 +++++++++++++++++++++----------------------
 src/UFHeuristic.cpp   |  6 +++---
 4 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..53e6ae1 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,7 +88,7 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
     }
     virtual void reset() {};
diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..682886b 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -19,12 +19,12 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 474f42b..f073ee1 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -25,7 +25,7 @@ void UFDecoder::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecode(xSyndr, this->getCode()->gethZ());
@@ -63,18 +63,18 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
                components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
                 // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                singleClusterSmallestFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                singleClusterRandomFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                singleQubitRandomFirstGrowth(components, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -82,7 +82,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
         auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
         estims.emplace_back(compEstimate.begin(), compEstimate.end());
@@ -114,7 +114,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
+    auto ccomps = getConnectedComps(nodeSet, pcm);
     return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
         bool const res = isValidComponent(comp, syndrome, pcm);
         if (!res) {
@@ -142,11 +142,11 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -166,7 +166,7 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
+    if (computeInteriorBitNodes(nodeSet, pcm).empty()) {
         return {};
     }
 
@@ -186,7 +186,7 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
                 }
             }
         } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
+            const auto nbrs = pcm->getNbrs(it);
             for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
                 if (!used.at(n - getCode()->getN())) {
                     redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
@@ -221,9 +221,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -234,8 +234,8 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
  * Grows the node set by the neighbours of the single smallest cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                  ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : ccomps) {
@@ -246,7 +246,7 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
     }
 
     for (auto node : smallestComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -255,8 +255,8 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
  * Grows the node set by the neighbours of a single random cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -267,7 +267,7 @@ void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
     chosenComponent = *it;
 
     for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -284,8 +284,8 @@ void UFDecoder::reset() {
  * Grows the node set by the neighbours of a single random qubit
  * @param comps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(comps, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -295,7 +295,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
+    const auto& nbrs = pcm->getNbrs(*chosenComponent.begin());
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
@@ -305,7 +305,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -321,7 +321,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
                             stack.push(n);
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..4e2f1d1 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -48,13 +48,13 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecoding(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
         this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
+        doDecoding(zSyndr, this->getCode()->gethX());
         this->result.decodingTime += xres.decodingTime;
         std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
         std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
@@ -73,7 +73,7 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-        while (!invalidComponents.empty() && invalidComponents.size() < (this->getCode()->gethZ()->pcm->size() + getCode()->gethZ()->pcm->front().size())) {
+        while (!invalidComponents.empty() && invalidComponents.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             // Step 1 growth
             std::vector<std::pair<std::size_t, std::size_t>> fusionEdges;
             std::unordered_map<std::size_t, bool>            presentMap; // for step 4
-- 
2.43.0


From ecb0d8f0ebeb605e636a5eeb68a05db4597d7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 39/56] fix: union-find growth terminates on saturated clusters
 and unsupported modes

---
 include/UFDecoder.hpp |  2 ++
 src/UFDecoder.cpp     | 42 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index 682886b..9b7548f 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -26,5 +26,7 @@ private:
     void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
     void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
     void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] static bool                        hasNbrOutside(std::size_t node, const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getGrowableComps(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index f073ee1..d326147 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -60,12 +60,10 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
         }
 
         while (containsInvalidComponents(components, syndr, invalidComponents, pcm) &&
-               components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
+               !getGrowableComps(components, pcm).empty()) {
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components, pcm);
-            } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
                 singleClusterSmallestFirstGrowth(components, pcm);
@@ -217,6 +215,32 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
     return res;
 }
 
+/**
+ * Checks if a node of the given set has a neighbour that is not in the set
+ * @param node
+ * @param nodeSet
+ * @return
+ */
+bool UFDecoder::hasNbrOutside(const std::size_t node, const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    const auto nbrs = pcm->getNbrs(node);
+    return !std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end());
+}
+
+/**
+ * Computes the connected components of the node set that can still grow, i.e., that are not a whole component of the Tanner graph
+ * @param nodeSet
+ * @return
+ */
+std::vector<std::set<std::size_t>> UFDecoder::getGrowableComps(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
+    std::vector<std::set<std::size_t>> res;
+    for (const auto& comp : getConnectedComps(nodeSet, pcm)) {
+        if (std::any_of(comp.begin(), comp.end(), [&](const auto node) { return hasNbrOutside(node, nodeSet, pcm); })) {
+            res.emplace_back(comp);
+        }
+    }
+    return res;
+}
+
 /**
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
@@ -235,7 +259,7 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_p
  * @param nodeSet
  */
 void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                  ccomps = getConnectedComps(nodeSet, pcm);
+    auto                  ccomps = getGrowableComps(nodeSet, pcm);
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : ccomps) {
@@ -256,7 +280,7 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet,
  * @param nodeSet
  */
 void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                          ccomps = getConnectedComps(nodeSet, pcm);
+    auto                          ccomps = getGrowableComps(nodeSet, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -285,17 +309,19 @@ void UFDecoder::reset() {
  * @param comps
  */
 void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
-    auto                          ccomps = getConnectedComps(comps, pcm);
+    auto                          ccomps = getGrowableComps(comps, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
     const std::size_t             chosenIdx = d(gen);
     auto                          it        = ccomps.begin();
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = pcm->getNbrs(*chosenComponent.begin());
+    // grow by the first node that has neighbours outside of the node set
+    const auto chosenNode = std::find_if(chosenComponent.begin(), chosenComponent.end(), [&](const auto node) { return hasNbrOutside(node, comps, pcm); });
+    const auto& nbrs      = pcm->getNbrs(*chosenNode);
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
-- 
2.43.0


From fe52cf049809e97591bb9a49c61895b19723ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 40/56] fix: union-find heuristic terminates for checks without
 qubits

---
 src/UFHeuristic.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 4e2f1d1..15a86b1 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -146,7 +146,12 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
                 const auto& compNode = getNodeFromIdx(compId);
                 auto        iter     = compNode->boundaryVertices.begin();
                 while (iter != compNode->boundaryVertices.end()) {
-                    const auto& nbrs     = pcm->getNbrs(*iter);
+                    const auto& nbrs = pcm->getNbrs(*iter);
+                    if (nbrs.empty()) {
+                        // a vertex without neighbours cannot be in the boundary
+                        iter = compNode->boundaryVertices.erase(iter);
+                        continue;
+                    }
                     auto*       currNode = getNodeFromIdx(*iter);
                     const auto& currRoot = TreeNode::Find(currNode);
                     for (const auto& nbr : nbrs) {
@@ -347,6 +352,7 @@ bool UFHeuristic::isValidComponent(const std::size_t& compId, const std::unique_
     std::size_t i = 0U;
     for (const auto& checkVertex : compNode->checkVertices) {
         const auto& nbrs = pcm->getNbrs(checkVertex);
+        valid.at(i)      = nbrs.empty(); // a check without neighbours cannot be covered by growing further
         for (const auto& nbr : nbrs) {
             if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
                 valid.at(i) = true;
-- 
2.43.0


From aa849a49848475f69ba9478765b8d2fcf2e4c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 41/56] fix: isStabilizer rejects Z parts of the wrong length

---
 include/Code.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Code.hpp b/include/Code.hpp
index 485e28e..f5db0c6 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -260,6 +260,9 @@ public:
      * @return
      */
     [[nodiscard]] bool isStabilizer(const gf2Vec& xest, const gf2Vec& zest) const {
+        if (xest.size() != getN() || zest.size() != getN()) {
+            throw QeccException("Cannot check if vector is a stabilizer, wrong size");
+        }
         if (!hX) {
             throw QeccException("hX not set, cannot check if vector is a stabilizer");
         }
-- 
2.43.0


From b7ca80012bcc3f2039fce1ddd0104ea31265c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 42/56] fix: circuit encoders keep idle qubits of the input
 circuit

---
 src/ecc/Ecc.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..36475e3 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -7,7 +7,6 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     auto cRegs = qcOriginal->getCregs();
     for (auto const& [regName, regBits] : cRegs) {
-- 
2.43.0


From a0e29208a30da66a176c2467190868b41774408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 43/56] fix: circuit encoders keep the order of the classical
 registers

---
 src/ecc/Ecc.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 36475e3..187406d 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -8,9 +8,12 @@
 namespace ecc {
 void Ecc::initMappedCircuit() {
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
-    auto cRegs = qcOriginal->getCregs();
-    for (auto const& [regName, regBits] : cRegs) {
-        qcMapped->addClassicalRegister(regBits.second, regName);
+    // registers are created in the order of their bits, so every classical bit
+    // keeps its index
+    const auto& cRegs = qcOriginal->getCregs();
+    while (qcMapped->getNcbits() < qcOriginal->getNcbits()) {
+        const auto regName = qcOriginal->getClassicalRegister(qcMapped->getNcbits());
+        qcMapped->addClassicalRegister(cRegs.at(regName).second, regName);
     }
     for (auto const& [regBits, regName] : ecc.classicalRegisters) {
         qcMapped->addClassicalRegister(regBits, regName);
-- 
2.43.0


From ec386956d5df859fd43e90c1f864221e9e05cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 44/56] fix: phase gates and controlled Y of the three-qubit
 code

---
 src/ecc/Q3Shor.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ecc/Q3Shor.cpp b/src/ecc/Q3Shor.cpp
index 42490cc..6d296a2 100644
--- a/src/ecc/Q3Shor.cpp
+++ b/src/ecc/Q3Shor.cpp
@@ -80,10 +80,17 @@ void Q3Shor::addOperation(const qc::Controls& controls,
     const auto numTargets  = targets.size();
     const auto numControls = controls.size();
     const auto numQubits   = qcOriginal->getNqubits();
+    // Gates act on all three copies of a qubit, but their phases must be applied
+    // only once.
+    const bool isPhase = type == qc::S || type == qc::Sdg || type == qc::T || type == qc::Tdg;
+    const auto copyType = type == qc::Y ? qc::X : type;
     for (std::size_t j = 0; j < numTargets; j++) {
         auto i = targets[j];
         if (numControls > 0) {
             qcMapped->emplace_back<qc::StandardOperation>(controls, i, type);
+            if (isPhase) {
+                continue;
+            }
             qc::Controls controls2;
             qc::Controls controls3;
             for (const auto& ct : controls) {
@@ -93,15 +100,18 @@ void Q3Shor::addOperation(const qc::Controls& controls,
                         qc::Control{static_cast<Qubit>(ct.qubit + 2 * numQubits), ct.type});
             }
             qcMapped->emplace_back<qc::StandardOperation>(
-                    controls2, static_cast<Qubit>(i + numQubits), type);
+                    controls2, static_cast<Qubit>(i + numQubits), copyType);
             qcMapped->emplace_back<qc::StandardOperation>(
-                    controls3, static_cast<Qubit>(i + 2 * numQubits), type);
+                    controls3, static_cast<Qubit>(i + 2 * numQubits), copyType);
         } else {
             qcMapped->emplace_back<qc::StandardOperation>(i, type);
+            if (isPhase) {
+                continue;
+            }
             qcMapped->emplace_back<qc::StandardOperation>(
-                    static_cast<Qubit>(i + numQubits), type);
+                    static_cast<Qubit>(i + numQubits), copyType);
             qcMapped->emplace_back<qc::StandardOperation>(
-                    static_cast<Qubit>(i + 2 * numQubits), type);
+                    static_cast<Qubit>(i + 2 * numQubits), copyType);
         }
     }
 }
-- 
2.43.0


From 29a812058b21434af0b323243d190264e9030637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 45/56] fix: five-qubit code resets its ancilla for every
 logical qubit

---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8506117 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From fffa9c60291446f5131582754b1d1564337ea0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 46/56] fix: five-qubit code measures into the classical bits
 asked for

---
 src/ecc/Q5Laflamme.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8506117..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -158,8 +158,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From 625f38f22b8977baffc25838eb670413b13082c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 47/56] fix: five-qubit code decodes and re-encodes without
 measuring the encoded state

---
 include/ecc/Q5Laflamme.hpp |  3 ---
 src/ecc/Q5Laflamme.cpp     | 37 +++++++++++++++++++++++--------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/ecc/Q5Laflamme.hpp b/include/ecc/Q5Laflamme.hpp
index 87e2cbb..1e2112b 100644
--- a/include/ecc/Q5Laflamme.hpp
+++ b/include/ecc/Q5Laflamme.hpp
@@ -39,8 +39,5 @@ protected:
                     {qc::X, qc::I, qc::X, qc::Z, qc::Z}, // c2
                     {qc::Z, qc::X, qc::I, qc::X, qc::Z}  // c3
             }};
-
-    static constexpr std::array<Qubit, 8> DECODING_CORRECTION_VALUES = {
-            1, 2, 4, 7, 8, 11, 13, 14}; // values with odd amount of '1' bits
 };
 } // namespace ecc
diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 2333f16..4add0b4 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -12,9 +12,25 @@
 #include <utility>
 namespace ecc {
 void Q5Laflamme::writeEncoding() {
+    if (!isDecoded) {
+        return;
+    }
+    const auto nQubits = qcOriginal->getNqubits();
+    if (gatesWritten) {
+        // the data qubits hold a decoded state: undo the decoding
+        isDecoded = false;
+        for (std::size_t i = 0; i < nQubits; i++) {
+            for (std::size_t j = 1; j < ecc.nRedundantQubits; j++) {
+                qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
+            }
+            for (std::size_t j = 1; j < ecc.nRedundantQubits; j++) {
+                qcMapped->cx(static_cast<Qubit>(i + j * nQubits), static_cast<Qubit>(i));
+            }
+        }
+        return;
+    }
     Ecc::writeEncoding();
 
-    const auto nQubits  = qcOriginal->getNqubits();
     const auto ancStart = static_cast<Qubit>(nQubits * ecc.nRedundantQubits);
     const auto clEncode = qcOriginal->getNcbits() + N_CORRECTING_BITS; // encode
     const auto controlRegister =
@@ -104,23 +120,16 @@ void Q5Laflamme::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const QubitCount nQubits    = qcOriginal->getNqubits();
-    const size_t     clAncStart = qcOriginal->getNcbits();
+    const QubitCount nQubits = qcOriginal->getNqubits();
 
     for (std::size_t i = 0; i < nQubits; i++) {
-        // #|####
-        // 0|1111
-        // odd amount of 1's -> x.at(0) = 1
-        // measure from index 1 (not 0) to 4, =qubit 2 to 5
+        // the parity of all data qubits is the encoded value: collect it in the
+        // first qubit, then disentangle the others from it
         for (std::size_t j = 1; j < ecc.nRedundantQubits; j++) {
-            qcMapped->measure(static_cast<Qubit>(i + j * nQubits),
-                              clAncStart + j - 1);
+            qcMapped->cx(static_cast<Qubit>(i + j * nQubits), static_cast<Qubit>(i));
         }
-        const auto controlRegister =
-                std::make_pair(static_cast<Qubit>(clAncStart), N_CORRECTING_BITS);
-        for (Qubit const value : DECODING_CORRECTION_VALUES) {
-            qcMapped->classicControlled(qc::X, static_cast<Qubit>(i), controlRegister,
-                                        value);
+        for (std::size_t j = 1; j < ecc.nRedundantQubits; j++) {
+            qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
         }
     }
     isDecoded = true;
-- 
2.43.0


From c8f95b23dcaaf4a4d196ebbe898a7e53bc0f9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 48/56] fix: seven-qubit code measures into the classical bits
 asked for

---
 src/ecc/Q7Steane.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From 5a3277208d5babd0a5d8877b9c5c8862b01a671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 49/56] fix: seven-qubit code decodes and re-encodes without
 measuring the encoded state

---
 include/ecc/Q7Steane.hpp |  3 ---
 src/ecc/Q7Steane.cpp     | 38 ++++++++++++++------------------------
 2 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/include/ecc/Q7Steane.hpp b/include/ecc/Q7Steane.hpp
index 7377976..dca69fd 100644
--- a/include/ecc/Q7Steane.hpp
+++ b/include/ecc/Q7Steane.hpp
@@ -37,8 +37,5 @@ protected:
 
     static constexpr std::size_t N_REDUNDANT_QUBITS = 7;
     static constexpr std::size_t N_CORRECTING_BITS  = 3;
-
-    static constexpr std::array<Qubit, 4> DECODING_CORRECTION_VALUES = {
-            1, 2, 4, 7}; // values with odd amount of '1' bits
 };
 } // namespace ecc
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..0082c19 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -19,13 +19,17 @@ void Q7Steane::writeEncoding() {
     }
     isDecoded          = false;
     const auto nQubits = qcOriginal->getNqubits();
-    // reset data qubits if necessary
     if (gatesWritten) {
+        // the data qubits hold a decoded state: undo the decoding
         for (std::size_t i = 0; i < nQubits; i++) {
             for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
-                qcMapped->reset(static_cast<Qubit>(i + j * nQubits));
+                qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
+            }
+            for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
+                qcMapped->cx(static_cast<Qubit>(i + j * nQubits), static_cast<Qubit>(i));
             }
         }
+        return;
     }
     measureAndCorrectSingle(true);
 }
@@ -94,30 +98,16 @@ void Q7Steane::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const auto nQubits    = qcOriginal->getNqubits();
-    const auto clAncStart = qcOriginal->getNcbits();
-
-    // use exiting registers qeccX and qeccZ for decoding
-    const auto controlRegister =
-            std::make_pair(static_cast<Qubit>(clAncStart), N_CORRECTING_BITS);
-
-    for (Qubit i = 0; i < nQubits; i++) {
-        // #|###|###
-        // 0|111|111
-        // odd amount of 1's -> x.at(0) = 1
-        // measure from index 1 (not 0) to 6, =qubit 2 to 7
+    const auto nQubits = qcOriginal->getNqubits();
 
-        qcMapped->measure(static_cast<Qubit>(i + 1 * nQubits), clAncStart);
-        qcMapped->measure(static_cast<Qubit>(i + 2 * nQubits), clAncStart + 1);
-        qcMapped->measure(static_cast<Qubit>(i + 3 * nQubits), clAncStart + 2);
-        for (auto value : DECODING_CORRECTION_VALUES) {
-            qcMapped->classicControlled(qc::X, i, controlRegister, value);
+    for (std::size_t i = 0; i < nQubits; i++) {
+        // the parity of all data qubits is the encoded value: collect it in the
+        // first qubit, then disentangle the others from it
+        for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
+            qcMapped->cx(static_cast<Qubit>(i + j * nQubits), static_cast<Qubit>(i));
         }
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), clAncStart);
-        qcMapped->measure(static_cast<Qubit>(i + 5 * nQubits), clAncStart + 1);
-        qcMapped->measure(static_cast<Qubit>(i + 6 * nQubits), clAncStart + 2);
-        for (auto value : DECODING_CORRECTION_VALUES) {
-            qcMapped->classicControlled(qc::X, i, controlRegister, value);
+        for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
+            qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
         }
     }
     isDecoded = true;
-- 
2.43.0


From 477ef36d0f46c4a62181468465d3682c7f359973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 50/56] fix: controlled gates of the seven-qubit code

---
 include/ecc/Q7Steane.hpp |  3 +--
 src/ecc/Q7Steane.cpp     | 55 ++++++++++++++++++----------------------
 2 files changed, 26 insertions(+), 32 deletions(-)

diff --git a/include/ecc/Q7Steane.hpp b/include/ecc/Q7Steane.hpp
index dca69fd..445e037 100644
--- a/include/ecc/Q7Steane.hpp
+++ b/include/ecc/Q7Steane.hpp
@@ -32,8 +32,7 @@ protected:
 
     void mapGate(const qc::Operation& gate) override;
 
-    void addSOperation(const qc::Controls& controls, const qc::Targets& targets,
-                       qc::OpType type);
+    void addSOperation(const qc::Targets& targets, qc::OpType type);
 
     static constexpr std::size_t N_REDUNDANT_QUBITS = 7;
     static constexpr std::size_t N_CORRECTING_BITS  = 3;
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 0082c19..68a629d 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -113,38 +113,20 @@ void Q7Steane::writeDecoding() {
     isDecoded = true;
 }
 
-void Q7Steane::addSOperation(const qc::Controls& controls,
-                             const qc::Targets&  targets,
-                             const qc::OpType    type) {
-    const auto numTargets  = targets.size();
-    const auto numControls = controls.size();
-    const auto numQubits   = qcOriginal->getNqubits();
+void Q7Steane::addSOperation(const qc::Targets& targets,
+                             const qc::OpType   type) {
+    const auto numTargets = targets.size();
+    const auto numQubits  = qcOriginal->getNqubits();
 
     for (std::size_t k = 0; k < numTargets; k++) {
         auto i = targets[k];
-        if (numControls > 0) {
-            for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
-                qc::Controls controls2;
-                for (const auto& ct : controls) {
-                    controls2.emplace(static_cast<Qubit>(ct.qubit + j * numQubits),
-                                      ct.type);
-                }
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        controls2, static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        controls2, static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        controls2, static_cast<Qubit>(i + j * numQubits), type);
-            }
-        } else {
-            for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        static_cast<Qubit>(i + j * numQubits), type);
-            }
+        for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
+            qcMapped->emplace_back<qc::StandardOperation>(
+                    static_cast<Qubit>(i + j * numQubits), type);
+            qcMapped->emplace_back<qc::StandardOperation>(
+                    static_cast<Qubit>(i + j * numQubits), type);
+            qcMapped->emplace_back<qc::StandardOperation>(
+                    static_cast<Qubit>(i + j * numQubits), type);
         }
     }
 }
@@ -162,6 +144,10 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
     case qc::H:
     case qc::Y:
     case qc::Z:
+        // only gates with a single control are transversal
+        if (gate.getNcontrols() > 1U || (gate.getNcontrols() == 1U && gate.getType() == qc::H)) {
+            gateNotAvailableError(gate);
+        }
         for (auto i : gate.getTargets()) {
             if (gate.getNcontrols() != 0U) {
                 const auto& ctrls = gate.getControls();
@@ -173,6 +159,12 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
                     }
                     qcMapped->emplace_back<qc::StandardOperation>(
                             ctrls2, static_cast<Qubit>(i + j * nQubits), gate.getType());
+                    // seven physical Y's are the negative of the logical Y
+                    if (gate.getType() == qc::Y) {
+                        for (const auto& ct : ctrls) {
+                            qcMapped->z(static_cast<Qubit>(ct.qubit + j * nQubits));
+                        }
+                    }
                 }
             } else {
                 for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
@@ -185,7 +177,10 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         // locigal S = 3 physical S's
     case qc::S:
     case qc::Sdg:
-        addSOperation(gate.getControls(), gate.getTargets(), gate.getType());
+        if (gate.getNcontrols() != 0U) {
+            gateNotAvailableError(gate);
+        }
+        addSOperation(gate.getTargets(), gate.getType());
         break;
     case qc::Measure:
         if (!isDecoded) {
-- 
2.43.0


From 7b7d5991cbe7e152be2c697cd2fbc2d372cbfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 51/56] fix: controlled gates of the nine-qubit Shor code

---
 src/ecc/Q9Shor.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ecc/Q9Shor.cpp b/src/ecc/Q9Shor.cpp
index 4ba521c..abc3f29 100644
--- a/src/ecc/Q9Shor.cpp
+++ b/src/ecc/Q9Shor.cpp
@@ -185,7 +185,37 @@ void Q9Shor::mapGate(const qc::Operation& gate) {
     for (std::size_t t = 0; t < gate.getNtargets(); t++) {
         auto i = gate.getTargets()[t];
 
-        if (gate.getNcontrols() != 0U) {
+        if (gate.getNcontrols() > 1U) {
+            gateNotAvailableError(gate);
+        } else if (gate.getNcontrols() == 1U && type != qc::Z) {
+            // Only the controlled X is transversal. The value of the control qubit is
+            // the parity of its first three data qubits in the X basis, therefore each
+            // of them controls the logical operation on the target. Errors would
+            // spread, so correct them first.
+            measureAndCorrect();
+            const auto& ct = *gate.getControls().begin();
+            for (std::size_t j = 0; j < 3; j++) {
+                const auto control =
+                        qc::Control{static_cast<Qubit>(ct.qubit + j * nQubits), ct.type};
+                qcMapped->h(control.qubit);
+                // logical Z
+                for (std::size_t k = 0; k < 3; k++) {
+                    qcMapped->cx(control, static_cast<Qubit>(i + k * nQubits));
+                }
+                if (type == qc::Y) {
+                    // logical Y = i * logical X * logical Z
+                    qcMapped->cz(control, static_cast<Qubit>(i));
+                    qcMapped->cz(control, static_cast<Qubit>(i + 3 * nQubits));
+                    qcMapped->cz(control, static_cast<Qubit>(i + 6 * nQubits));
+                    if (ct.type == qc::Control::Type::Pos) {
+                        qcMapped->s(control.qubit);
+                    } else {
+                        qcMapped->sdg(control.qubit);
+                    }
+                }
+                qcMapped->h(control.qubit);
+            }
+        } else if (gate.getNcontrols() != 0U) {
             // Q9Shor code: put H gate before and after each control point, i.e. "cx
             // 0,1" becomes "h0; cz 0,1; h0"
             const auto& controls = gate.getControls();
-- 
2.43.0


From 5ff30218199bce2fadafe72a317268ca55f77db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 52/56] fix: nine-qubit surface code decodes without
 overwriting user bits or collapsing the state

---
 include/ecc/Q9Surface.hpp |  2 ++
 src/ecc/Q9Surface.cpp     | 27 ++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 77c537c..a2553d7 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -23,6 +23,8 @@ public:
               std::move(qc), measureFq) {}
 
 protected:
+    void writeEncoding() override;
+
     void measureAndCorrect() override;
 
     void writeDecoding() override;
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..2b2362d 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -11,6 +11,23 @@
 #include <stdexcept>
 #include <utility>
 namespace ecc {
+void Q9Surface::writeEncoding() {
+    if (!isDecoded || !gatesWritten) {
+        Ecc::writeEncoding();
+        return;
+    }
+    // the data qubits hold a decoded state: undo the decoding
+    isDecoded          = false;
+    const auto nQubits = qcOriginal->getNqubits();
+    for (std::size_t i = 0; i < nQubits; i++) {
+        for (auto j : LOGICAL_X) {
+            qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
+        }
+        qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
+        qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
+    }
+}
+
 void Q9Surface::measureAndCorrect() {
     if (isDecoded) {
         return;
@@ -106,13 +123,13 @@ void Q9Surface::writeDecoding() {
     }
     const auto nQubits = qcOriginal->getNqubits();
     for (std::size_t i = 0; i < nQubits; i++) {
-        // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        // the parity of 0, 4, 8 is the encoded value: collect it in the first
+        // qubit, then disentangle the others from it
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
+        for (auto j : LOGICAL_X) {
+            qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
+        }
     }
     isDecoded = true;
 }
-- 
2.43.0


From f49bbb158c23b22ca8e1194f12f60c69c55fb4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 53/56] fix: nine-qubit surface code corrects every syndrome

---
 include/ecc/Q9Surface.hpp |  6 ++++
 src/ecc/Q9Surface.cpp     | 59 +++++++++++++++++++++++++--------------
 2 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index a2553d7..734e7bc 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -51,5 +51,11 @@ private:
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
     static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
             {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+
+    void writeCorrections(qc::OpType                                                   op,
+                          const std::array<Qubit, N_REDUNDANT_QUBITS>&                 qubits,
+                          const std::array<std::set<std::size_t>, N_REDUNDANT_QUBITS>& checks,
+                          const std::array<Qubit, ANCILLA_WIDTH>&                      ancillas,
+                          const std::set<Qubit>& uncorrected, std::size_t clStart);
 };
 } // namespace ecc
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 2b2362d..101acad 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -9,6 +9,7 @@
 #include <array>
 #include <cstddef>
 #include <stdexcept>
+#include <set>
 #include <utility>
 namespace ecc {
 void Q9Surface::writeEncoding() {
@@ -86,34 +87,50 @@ void Q9Surface::measureAndCorrect() {
         }
 
         // correction
-        auto controlRegister =
-                std::make_pair(static_cast<Qubit>(clAncStart), ANCILLA_WIDTH);
-        for (std::size_t q = 0; q < qubitCorrectionZ.size(); q++) {
-            if (uncorrectedZQubits.count(static_cast<Qubit>(q)) == 0) {
-                std::size_t mask = 0;
-                for (std::size_t c = 0; c < Z_ANCILLA_QUBITS.size(); c++) {
-                    if (qubitCorrectionZ.at(q).count(Z_ANCILLA_QUBITS.at(c)) > 0) {
-                        mask |= (static_cast<std::size_t>(1U) << c);
+        writeCorrections(qc::Z, qubits, qubitCorrectionZ, Z_ANCILLA_QUBITS,
+                         uncorrectedZQubits, clAncStart);
+        writeCorrections(qc::X, qubits, qubitCorrectionX, X_ANCILLA_QUBITS,
+                         uncorrectedXQubits, clAncStart + ANCILLA_WIDTH);
+
+        gatesWritten = true;
+    }
+}
+
+void Q9Surface::writeCorrections(
+        const qc::OpType                                             op,
+        const std::array<Qubit, N_REDUNDANT_QUBITS>&                 qubits,
+        const std::array<std::set<std::size_t>, N_REDUNDANT_QUBITS>& checks,
+        const std::array<Qubit, ANCILLA_WIDTH>&                      ancillas,
+        const std::set<Qubit>& uncorrected, const std::size_t clStart) {
+    const auto controlRegister =
+            std::make_pair(static_cast<Qubit>(clStart), ANCILLA_WIDTH);
+    std::set<std::size_t>            correctedMasks;
+    std::array<Qubit, ANCILLA_WIDTH> singleCheckQubits = {};
+    for (std::size_t q = 0; q < checks.size(); q++) {
+        if (uncorrected.count(static_cast<Qubit>(q)) == 0) {
+            std::size_t mask = 0;
+            for (std::size_t c = 0; c < ancillas.size(); c++) {
+                if (checks.at(q).count(ancillas.at(c)) > 0) {
+                    mask |= (static_cast<std::size_t>(1U) << c);
+                    if (checks.at(q).size() == 1) {
+                        singleCheckQubits.at(c) = qubits.at(q);
                     }
                 }
-                qcMapped->classicControlled(qc::Z, qubits.at(q), controlRegister, mask);
             }
+            correctedMasks.insert(mask);
+            qcMapped->classicControlled(op, qubits.at(q), controlRegister, mask);
         }
-        controlRegister = std::make_pair(
-                static_cast<Qubit>(clAncStart + ANCILLA_WIDTH), ANCILLA_WIDTH);
-        for (std::size_t q = 0; q < qubitCorrectionX.size(); q++) {
-            if (uncorrectedXQubits.count(static_cast<Qubit>(q)) == 0) {
-                std::size_t mask = 0;
-                for (std::size_t c = 0; c < X_ANCILLA_QUBITS.size(); c++) {
-                    if (qubitCorrectionX.at(q).count(X_ANCILLA_QUBITS.at(c)) > 0) {
-                        mask |= (static_cast<std::size_t>(1U) << c);
-                    }
+    }
+    // syndromes that no single error causes, e.g., the random outcomes when the
+    // encoded state is prepared: correct each violated check on its own
+    for (std::size_t mask = 1; mask < (1U << ANCILLA_WIDTH); mask++) {
+        if (correctedMasks.count(mask) == 0) {
+            for (std::size_t c = 0; c < ancillas.size(); c++) {
+                if ((mask & (static_cast<std::size_t>(1U) << c)) != 0) {
+                    qcMapped->classicControlled(op, singleCheckQubits.at(c), controlRegister, mask);
                 }
-                qcMapped->classicControlled(qc::X, qubits.at(q), controlRegister, mask);
             }
         }
-
-        gatesWritten = true;
     }
 }
 
-- 
2.43.0


From 4c17731d33640115fbcc68c664ef9b1db3b6da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 54/56] fix: logical Hadamard of the nine-qubit surface code

---
 include/ecc/Q9Surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 734e7bc..3b26060 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -49,8 +49,8 @@ private:
     std::set<Qubit>                                         uncorrectedZQubits = {0, 8};
     static constexpr std::array<Qubit, 3>                   LOGICAL_X          = {2, 4, 6};
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
-    static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
-            {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+    static constexpr std::array<std::pair<Qubit, Qubit>, 6> SWAP_INDICES       = {
+            {{0, 6}, {0, 8}, {0, 2}, {1, 3}, {1, 7}, {1, 5}}}; // rotation by 90 degrees, maps X-checks to Z-checks
 
     void writeCorrections(qc::OpType                                                   op,
                           const std::array<Qubit, N_REDUNDANT_QUBITS>&                 qubits,
-- 
2.43.0


From 421fc3caf82da230dcac7b60c475c8c23ec2d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 55/56] fix: 18-qubit surface code does not measure into user
 bits when decoding

---
 src/ecc/Q18Surface.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..dfb7f32 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -79,7 +79,6 @@ void Q18Surface::writeDecoding() {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
-- 
2.43.0


From f583405dc7e7554c2c20e4b83c1b0db84a8f2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 56/56] fix: logical Z of the 18-qubit surface code

---
 include/ecc/Q18Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ecc/Q18Surface.hpp b/include/ecc/Q18Surface.hpp
index 4d564d9..7221c6e 100644
--- a/include/ecc/Q18Surface.hpp
+++ b/include/ecc/Q18Surface.hpp
@@ -34,7 +34,7 @@ public:
     constexpr static std::array<Qubit, 4> ANCILLA_QUBITS_DECODE = {8, 13, 15, 20};
     constexpr static Qubit                X_INFORMATION         = 14;
     constexpr static std::array<Qubit, 3> LOGICAL_X             = {5, 10, 15};
-    constexpr static std::array<Qubit, 3> LOGICAL_Z             = {20, 25, 30};
+    constexpr static std::array<Qubit, 3> LOGICAL_Z             = {5, 10, 15};
 
     //{a,{b,c}} == qubit a is checked by b and c
     std::map<std::size_t, std::vector<std::size_t>> qubitCorrectionX = {
-- 
2.43.0

