From 0f0e5609b007ea0785273a54e400fe04963bf5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 01/31] fix: ignore magnitude of DOF displacements and ART
 directions

Directions were wrapped into the unit cell before being normalized, so a
direction vector longer than half a cell changed direction (or vanished).
---
 ramannoodle/pmodel/_interpolation.py | 7 ++++++-
 ramannoodle/structure/_reference.py  | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..9d33172 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -451,7 +451,12 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
-            displacement = self.ref_structure.get_frac_displacement(cart_displacement)
+            verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
+            # Magnitude is ignored, so scale before periodic boundary conditions are
+            # applied.
+            displacement = self.ref_structure.get_frac_displacement(
+                cart_displacement / (np.linalg.norm(cart_displacement) * 10.0)
+            )
 
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
         except TypeError as exc:
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..2255a43 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -297,7 +297,7 @@ class ReferenceStructure:
         :
             (Å) Array with shape (3,).
         """
-        direction = apply_pbc_displacement(direction)
+        # A direction can have any magnitude, so it must not be wrapped.
         try:
             return np.array([direction]) @ self._lattice
         except ValueError as exc:
@@ -338,8 +338,8 @@ class ReferenceStructure:
             (fractional) Array with shape (3,).
         """
         verify_ndarray_shape("direction", cart_direction, (3,))
-        displacement = np.array([cart_direction]) @ np.linalg.inv(self.lattice)
-        return apply_pbc_displacement(displacement[0])
+        # A direction can have any magnitude, so it must not be wrapped.
+        return (np.array([cart_direction]) @ np.linalg.inv(self.lattice))[0]
 
     def get_atom_indexes(self, atom_symbols: str | list[str]) -> list[int]:
         """Return atom indexes with matching symbols.
-- 
2.43.0


From 83a94084adf8d6fb42de361f199851cecbb92162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 02/31] fix: judge orthogonality of equivalent displacements in
 Cartesian space

Degrees of freedom are orthogonal in Cartesian space. Testing fractional
coordinates added overlapping DOFs in cells with unequal or non-orthogonal
axes, so models no longer reproduced the supplied polarizabilities.
---
 ramannoodle/structure/_reference.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 2255a43..195ce48 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -223,9 +223,13 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Angles between displacements are meaningful in Cartesian space only.
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
-                [item.flatten() for item in orthogonal_displacements],
+                (candidate_displacement @ self._lattice).flatten(),
+                [
+                    (item @ self._lattice).flatten()
+                    for item in orthogonal_displacements
+                ],
             )
 
             # If new orthogonal displacement discovered
-- 
2.43.0


From cfb7eedbbd461e33065b1d237e0e4bb77b3d205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 03/31] fix: give imaginary modes read from vasprun.xml
 negative wavenumbers

The sign was taken after the square root, so it was always positive. The
OUTCAR reader already returns negative wavenumbers for imaginary modes.
---
 ramannoodle/io/vasp/vasprun.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..4df56a1 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -343,9 +343,11 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array([float(i) for i in element.text.split()])
-    eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
-    return eigenvalues
+    # Eigenvalues are negated squared frequencies, so positive eigenvalues correspond to
+    # imaginary modes, which are assigned negative wavenumbers.
+    wavenumbers = np.sqrt(np.abs(eigenvalues)) * 1 / 0.0299792458
+    wavenumbers *= np.sign(-eigenvalues)
+    return wavenumbers
 
 
 def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
-- 
2.43.0


From 59f268c943267f0b6e155b19e84a48a1975a9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 04/31] fix: apply POSCAR scale factor to Cartesian coordinates
 and cell volume

Cartesian coordinates are scaled by the scale factor, and a negative scale
factor gives the cell volume. Both were ignored, giving wrong structures.
---
 ramannoodle/io/vasp/poscar.py  | 51 ++++++++++++++++++++++++++--------
 ramannoodle/io/vasp/xdatcar.py |  8 ++++--
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..29737b2 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,8 +15,8 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
-    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+def _read_scale_factor_and_lattice(file: TextIO) -> tuple[float, NDArray[np.float64]]:
+    """Read scale factor and (scaled) lattice vectors (in angstroms) from POSCAR.
 
     Raises
     ------
@@ -40,7 +40,23 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    if scale_factor < 0:  # Negative scale factors specify the cell volume
+        volume = abs(float(np.linalg.det(np.array(lattice))))
+        if volume == 0:
+            raise InvalidFileException("lattice has zero volume")
+        scale_factor = float(np.cbrt(-scale_factor / volume))
+
+    return scale_factor, np.array(lattice) * scale_factor
+
+
+def _read_lattice(file: TextIO) -> NDArray[np.float64]:
+    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    return _read_scale_factor_and_lattice(file)[1]
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,9 +96,14 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO,
+    lattice: NDArray[np.float64],
+    num_atoms: int,
+    scale_factor: float = 1.0,
 ) -> NDArray[np.float64]:
-    """Read atomic symbols from a VASP POSCAR file.
+    """Read fractional positions from a VASP POSCAR file.
+
+    The scale factor applies to Cartesian coordinates as well as to the lattice.
 
     Raises
     ------
@@ -116,7 +137,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +164,11 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return positions
 
 
@@ -167,10 +190,12 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +219,12 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..2d341d9 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -9,7 +9,7 @@ from ramannoodle.io._utils import verify_trajectory, pathify
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.dynamics._trajectory import Trajectory
 from ramannoodle.io.vasp.poscar import (
-    _read_lattice,
+    _read_scale_factor_and_lattice,
     _read_atomic_symbols,
     _read_positions,
     _get_lattice_str,
@@ -43,11 +43,13 @@ def read_positions_ts(
     filepath = pathify(filepath)
     positions_ts = []
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
             try:
-                positions = _read_positions(file, lattice, len(atomic_symbols))
+                positions = _read_positions(
+                    file, lattice, len(atomic_symbols), scale_factor
+                )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
                 if "missing first character in coordinate format:" in str(exc):
-- 
2.43.0


From 1011c97f1f6bb57e6af091eeb15eaa485fefc490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 05/31] fix: do not hand out internal arrays of Raman spectra

Modifying the returned (documented) copy changed the spectrum itself.
---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From 9fd299f053faaae9f80898e46d5f2b0e2fb38699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 06/31] fix: rotate (1,0,0) onto antiparallel targets in
 get_rotations

Targets along (-1,0,0) were given the identity rotation.
---
 ramannoodle/pmodel/torch/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index ef3cc49..f10f704 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -61,6 +61,9 @@ def get_rotations(targets: Tensor) -> Tensor:
 
     # a==b implies s==0, which implies rotation should be identity/
     rotations[s == 0] = torch.eye(3)
+    # If target is antiparallel, we rotate 180 degrees about z.
+    antiparallel = torch.logical_and(s == 0, c < 0)
+    rotations[antiparallel] = torch.diag(torch.tensor([-1.0, -1.0, 1.0]))
 
     return rotations
 
-- 
2.43.0


From 200c9b0804085517a5eb8d730e76a3430565538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 07/31] fix: reject truncated or malformed OUTCAR blocks

Rows with missing numbers gave silently truncated arrays (or a bare
ValueError) where InvalidFileException is documented.
---
 ramannoodle/io/_utils.py      | 15 +++++++++++++++
 ramannoodle/io/vasp/outcar.py | 31 +++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 5d39667..9a7904d 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -33,6 +33,21 @@ def _skip_file_until_line_contains(file: TextIO, content: str) -> str:
     raise NoMatchingLineFoundException(content)
 
 
+def _parse_vector(text: str | None) -> list[float]:
+    """Parse the first three numbers of a line (or xml element) text.
+
+    :meta private:
+
+    Raises
+    ------
+    ValueError
+    """
+    vector = [float(item) for item in (text or "").split()[0:3]]
+    if len(vector) != 3:
+        raise ValueError(f"vector has wrong number of components: {len(vector)} != 3")
+    return vector
+
+
 def pathify(filepath: str | Path) -> Path:
     """Convert filepath to Path.
 
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..244a31a 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -6,6 +6,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ramannoodle.io._utils import (
+    _parse_vector,
     _skip_file_until_line_contains,
     pathify,
     _read_polarizability_dataset,
@@ -80,7 +81,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
@@ -102,12 +103,14 @@ def _read_eigenvector(
                 break
             if "X" in line:
                 continue
-            vector = [float(item) for item in line.split()[3:]]
+            vector = _parse_vector(" ".join(line.split()[3:]))
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
-        return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
+    if len(eigenvector) != num_atoms:
+        raise InvalidFileException("eigenvector is incomplete")
+    return np.array(eigenvector)
 
 
 def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
@@ -127,7 +130,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_parse_vector(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +157,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_parse_vector(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +188,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_parse_vector(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -234,9 +237,12 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            lattice.append(_get_lattice_vector_from_outcar_line(line))
+            vector = _get_lattice_vector_from_outcar_line(line)
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
+        if vector.shape != (3,):
+            raise InvalidFileException(f"lattice could not be parsed: {line}")
+        lattice.append(vector)
 
     return np.array(lattice)
 
@@ -291,7 +297,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (
+                NoMatchingLineFoundException,
+                TypeError,
+                IndexError,
+                ValueError,
+            ) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
@@ -469,7 +480,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_parse_vector(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -490,7 +501,7 @@ def _read_timestep(file: TextIO) -> float:
         raise InvalidFileException("timestep not found") from exc
     try:
         return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+    except (IndexError, TypeError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
 
-- 
2.43.0


From 08bc7eb2dc9951294f7ea40bc5522dc4da9799e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 08/31] fix: reject truncated POSCAR and XDATCAR files

A POSCAR ending after 'Selective dynamics' raised IndexError and an XDATCAR
without configurations gave an array without atoms.
---
 ramannoodle/io/vasp/poscar.py  | 2 ++
 ramannoodle/io/vasp/xdatcar.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 29737b2..d2b77ae 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -118,6 +118,8 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
+        if len(label.strip()) == 0 or label[0].strip() == "":
+            raise InvalidFileException(f"no coordinate format: '{label}'")
     if label[0].lower() == "c":
         cart_mode = True
     elif label[0].lower() != "d":
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index 2d341d9..6526757 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -55,6 +55,8 @@ def read_positions_ts(
                 if "missing first character in coordinate format:" in str(exc):
                     break
                 raise exc
+        if len(positions_ts) == 0:
+            raise InvalidFileException("no positions found")
         return np.array(positions_ts)
 
 
-- 
2.43.0


From 2d86d33650dd8351279295effe047ec75b7d8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 09/31] fix: reject malformed numbers and incomplete tensors in
 vasprun.xml

These raised a bare ValueError or gave arrays of the wrong shape where
InvalidFileException is documented.
---
 ramannoodle/io/vasp/vasprun.py | 73 ++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 4df56a1..fe569cb 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -8,7 +8,11 @@ import defusedxml.ElementTree as ET
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import pathify, _read_polarizability_dataset
+from ramannoodle.io._utils import (
+    _parse_vector,
+    pathify,
+    _read_polarizability_dataset,
+)
 from ramannoodle.exceptions import InvalidFileException, UserError
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
 from ramannoodle.dynamics._phonon import Phonons
@@ -30,6 +34,26 @@ def _get_root_element(file: TextIO) -> Element:
         raise InvalidFileException("root xml element could not be found") from exc
 
 
+def _parse_vectors(varray: Element) -> NDArray[np.float64]:
+    """Parse three-component vectors from the children of a varray Element.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    vectors = []
+    for child in varray:
+        if child.text is None:
+            raise InvalidFileException("varray child text not found")
+        try:
+            vectors.append(_parse_vector(child.text))
+        except ValueError as exc:
+            raise InvalidFileException(
+                f"varray could not be parsed: {child.text}"
+            ) from exc
+    return np.array(vectors)
+
+
 def _parse_atomic_symbols(root: Element) -> list[str]:
     """Parse atomic symbols from a vasprun.xml Element.
 
@@ -60,13 +84,7 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
     ------
     InvalidFileException
     """
-    positions = []
-    for child in structure_varray:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
-    return np.array(positions)
+    return _parse_vectors(structure_varray)
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -82,13 +100,10 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
     polarizability_element = root.find("./calculation/varray[@name='dielectric_dft']")
     if polarizability_element is None:
         raise InvalidFileException("polarizability not found")
-    polarizability = []
-    for child in polarizability_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
-    return np.array(polarizability)
+    polarizability = _parse_vectors(polarizability_element)
+    if polarizability.shape != (3, 3):
+        raise InvalidFileException("polarizability is incomplete")
+    return polarizability
 
 
 def _parse_lattice(root: Element) -> NDArray[np.float64]:
@@ -104,13 +119,10 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
     if varray_element is None:
         raise InvalidFileException("lattice not found")
 
-    lattice = []
-    for child in varray_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
-    return np.array(lattice)
+    lattice = _parse_vectors(varray_element)
+    if lattice.shape != (3, 3):
+        raise InvalidFileException("lattice is incomplete")
+    return lattice
 
 
 def read_positions_and_polarizability(
@@ -292,7 +304,10 @@ def _parse_timestep(root: Element) -> float:
     text = element.text
     if text is None:
         raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    try:
+        return float(text.strip())
+    except ValueError as exc:
+        raise InvalidFileException(f"timestep could not be parsed: {text}") from exc
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -342,7 +357,10 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
         raise InvalidFileException("eigenvalues not found")
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    try:
+        eigenvalues = np.array([float(i) for i in element.text.split()])
+    except ValueError as exc:
+        raise InvalidFileException("eigenvalues could not be parsed") from exc
     # Eigenvalues are negated squared frequencies, so positive eigenvalues correspond to
     # imaginary modes, which are assigned negative wavenumbers.
     wavenumbers = np.sqrt(np.abs(eigenvalues)) * 1 / 0.0299792458
@@ -367,8 +385,11 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     for v in element:
         if v.text is None:
             raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
-        cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
+        try:
+            cart_eigenvector = np.array([float(i) for i in v.text.split()])
+            cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
+        except ValueError as exc:
+            raise InvalidFileException("eigenvector could not be parsed") from exc
         eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
 
     return np.array(eigenvectors)
-- 
2.43.0


From c03919bb0b09763b6983089577dae47b78cc10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 10/31] fix: do not hand out internal symmetry operations of
 structures

Modifying the returned transformations changed later results.
---
 ramannoodle/structure/_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 195ce48..2bae876 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -237,7 +237,7 @@ class ReferenceStructure:
                 result.append(
                     {
                         "displacements": [candidate_displacement],
-                        "transformations": [(rotation, translation)],
+                        "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
                 orthogonal_displacements.append(candidate_displacement)
@@ -264,7 +264,7 @@ class ReferenceStructure:
                             candidate_displacement
                         )
                         result[collinear_result]["transformations"].append(
-                            (rotation, translation)
+                            (rotation.copy(), translation.copy())
                         )
 
         return result
-- 
2.43.0


From c2ff856f5327a7b42c17879b4f3c6fd57cea92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 11/31] fix: do not hand out internal basis vectors of ARTModel

Modifying the returned directions changed the model.
---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..7913a8f 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -368,7 +368,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
-- 
2.43.0


From 2f41ac7723437decce17961332a5cb9695f8d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 12/31] fix: reject OUTCAR files with missing or negative
 numbers of ions

---
 ramannoodle/io/vasp/outcar.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 244a31a..0878fa7 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -76,6 +76,15 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     try:
         line = _skip_file_until_line_contains(file, "ions per type")
         atomic_numbers = [int(item) for item in line.split()[4:]]
+        if any(number < 0 for number in atomic_numbers):
+            raise ValueError("negative number of ions")
+        # Symbols may be listed repeatedly, but each must have a number of ions.
+        if (
+            len(atomic_numbers) == 0
+            or len(atomic_numbers) > len(potcar_symbols)
+            or set(potcar_symbols[: len(atomic_numbers)]) != set(potcar_symbols)
+        ):
+            raise ValueError("wrong number of ion types")
 
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
-- 
2.43.0


From e0451bb47cd8e8ff0708981a93f027b02e022f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 13/31] fix: reject negative ion counts in POSCAR files

---
 ramannoodle/io/vasp/poscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index d2b77ae..b8d7875 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -88,6 +88,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
             int_counts.append(int(count))
         except ValueError as err:
             raise InvalidFileException(f"could not parse counts: {line}") from err
+        if int_counts[-1] < 0:
+            raise InvalidFileException(f"negative ion counts: {line}")
 
     result = []
     for symbol, int_count in zip(symbols, int_counts):
-- 
2.43.0


From 29cbf6a65765673518728f8711e1f284d5a0adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 14/31] fix: reject XDATCAR files with missing lines between
 configurations

---
 ramannoodle/io/vasp/xdatcar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index 6526757..9fea2fa 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -46,13 +46,15 @@ def read_positions_ts(
         scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
+            start = file.tell()
             try:
                 positions = _read_positions(
                     file, lattice, len(atomic_symbols), scale_factor
                 )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
-                if "missing first character in coordinate format:" in str(exc):
+                file.seek(start)
+                if file.read().strip() == "":  # end of file
                     break
                 raise exc
         if len(positions_ts) == 0:
-- 
2.43.0


From 8b58153eb7f9d731b908eebd7f4d221bd4a49450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 15/31] fix: reject vasprun.xml files with missing rows or
 unknown elements

---
 ramannoodle/io/vasp/vasprun.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index fe569cb..ab10a57 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -68,14 +68,20 @@ def _parse_atomic_symbols(root: Element) -> list[str]:
 
     atomic_symbols = []
     for child in set_element:
+        if len(child) == 0:
+            raise InvalidFileException("atom has no symbol")
         atomic_symbol = child[0].text
         if atomic_symbol is None:
             raise InvalidFileException("child has no text")
+        if atomic_symbol.strip() not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atom symbol: {atomic_symbol}")
         atomic_symbols.append(atomic_symbol.strip())
     return atomic_symbols
 
 
-def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
+def _parse_positions(
+    structure_varray: Element, num_atoms: int
+) -> NDArray[np.float64]:
     """Parse atomic fractional positions from a vasprun.xml Element.
 
     This function reads the positions from the initial structure.
@@ -84,7 +90,10 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
     ------
     InvalidFileException
     """
-    return _parse_vectors(structure_varray)
+    positions = _parse_vectors(structure_varray)
+    if positions.shape != (num_atoms, 3):
+        raise InvalidFileException("positions are incomplete")
+    return positions
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -157,7 +166,8 @@ def read_positions_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        num_atoms = len(_parse_atomic_symbols(root))
+        positions = _parse_positions(structure_varray, num_atoms)
         polarizability = _parse_polarizability(root)
         return positions, polarizability
 
@@ -199,7 +209,7 @@ def read_structure_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -254,7 +264,8 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        num_atoms = len(_parse_atomic_symbols(root))
+        positions = _parse_positions(structure_varray, num_atoms)
         return positions
 
 
@@ -287,7 +298,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -336,7 +347,8 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(_parse_positions(structure_varray))
+            num_atoms = len(_parse_atomic_symbols(root))
+            positions_ts.append(_parse_positions(structure_varray, num_atoms))
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -422,10 +434,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        ref_positions = _parse_positions(structure_varray)
+        ref_positions = _parse_positions(structure_varray, len(atomic_symbols))
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
+        if len(wavenumbers) != len(eigenvectors):
+            raise InvalidFileException("wrong number of eigenvalues or eigenvectors")
         displacements = eigenvectors / np.sqrt(atomic_weights)[:, np.newaxis]
 
         return Phonons(ref_positions, wavenumbers, displacements)
-- 
2.43.0


From d5904fa860f705cd3b8c32d9c4108d16080753e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 16/31] fix: convert pymatgen trajectories stored as
 displacements

---
 ramannoodle/io/pymatgen.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index 81d0354..ea003cd 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -185,4 +185,10 @@ def construct_trajectory(
             pymatgen_trajectory,
             "pymatgen.core.trajectory.Trajectory",
         ) from exc
-    return Trajectory(pymatgen_trajectory.coords, timestep)
+    positions_ts = pymatgen_trajectory.coords
+    if pymatgen_trajectory.coords_are_displacement:  # relative to previous positions
+        if pymatgen_trajectory.base_positions is None:
+            raise ValueError("pymatgen_trajectory must have base positions")
+        displacements = np.cumsum(pymatgen_trajectory.coords, axis=0)
+        positions_ts = pymatgen_trajectory.base_positions + displacements
+    return Trajectory(positions_ts, timestep)
-- 
2.43.0


From a6751052b351ea1fb0b0315ae3ab61e7cf257f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 17/31] fix: compare list lengths by value

---
 ramannoodle/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..a18b272 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,8 +119,8 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
-        raise ValueError(f"{name} has wrong length: {len(array)} != length")
+    if length is not None and len(array) != length:
+        raise ValueError(f"{name} has wrong length: {len(array)} != {length}")
 
 
 def verify_positions(name: str, array: NDArray[Any]) -> None:
-- 
2.43.0


From 8a172247b007c75aed79c57191fed5dedd77a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 18/31] fix: dummy models without degrees of freedom refuse to
 predict too

---
 ramannoodle/pmodel/_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 9d33172..44836de 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -210,6 +210,8 @@ class InterpolationModel(PolarizabilityModel):
             Model is a dummy model.
 
         """
+        if self._is_dummy_model:
+            raise UserError("dummy model cannot calculate polarizabilities")
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
-- 
2.43.0


From 9e0df59beae4fe62667acc1ae6e6af6c6c486bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 19/31] fix: interpolation models refuse positions that only
 broadcast to the right shape

---
 ramannoodle/pmodel/_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 44836de..7211118 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -212,6 +212,9 @@ class InterpolationModel(PolarizabilityModel):
         """
         if self._is_dummy_model:
             raise UserError("dummy model cannot calculate polarizabilities")
+        verify_ndarray_shape(
+            "positions", positions_batch, (None, self._ref_structure.num_atoms, 3)
+        )
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
-- 
2.43.0


From 45fc1df1ddbfa25337f1cf6f215f45a0fdeafad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 20/31] fix: displacements of the wrong shape are refused
 instead of broadcast

---
 ramannoodle/structure/_displace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 184450c..0444bbb 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -55,6 +55,9 @@ def get_displaced_positions(
         cart_displacement = cart_displacement / float(np.linalg.norm(cart_displacement))
     except TypeError as err:
         raise get_type_error("cart_displacement", cart_displacement, "ndarray") from err
+    verify_ndarray_shape(
+        "cart_displacement", cart_displacement, (ref_structure.num_atoms, 3)
+    )
     verify_ndarray_shape("amplitudes", amplitudes, (None,))
 
     positions = []
@@ -145,6 +148,7 @@ def get_ast_displaced_positions(
         cart_direction = cart_direction / float(np.linalg.norm(cart_direction))
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
+    verify_ndarray_shape("cart_direction", cart_direction, (3,))
     cart_displacement = ref_structure.positions * 0
     try:
         cart_displacement[atom_index] = cart_direction
-- 
2.43.0


From 6496879aaeb5f0999d587ce27cae77f9ba08f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 21/31] fix: degrees of freedom for the wrong number of atoms
 are refused instead of broadcast

---
 ramannoodle/pmodel/_interpolation.py | 6 +++++-
 ramannoodle/structure/_reference.py  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 7211118..67515d7 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -456,7 +456,11 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
-            verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
+            verify_ndarray_shape(
+                "cart_displacement",
+                cart_displacement,
+                (self._ref_structure.num_atoms, 3),
+            )
             # Magnitude is ignored, so scale before periodic boundary conditions are
             # applied.
             displacement = self.ref_structure.get_frac_displacement(
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 2bae876..3107839 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -201,6 +201,7 @@ class ReferenceStructure:
             in fractional coordinates.
 
         """
+        verify_ndarray_shape("displacement", displacement, (self.num_atoms, 3))
         displacement = apply_pbc_displacement(displacement)
         # Scale the displacement for numerical reasons.
         displacement = displacement / (np.linalg.norm(displacement) * 10)
-- 
2.43.0


From a36e383f1c0ecf3fa964efbdb012eb1cc1dff7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 22/31] fix: files and structures with a single atom are
 refused by larger models

---
 ramannoodle/pmodel/_interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 67515d7..1ced683 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -571,6 +571,9 @@ class InterpolationModel(PolarizabilityModel):
         for i, structure in enumerate(pymatgen_structures):
             positions = pymatgen_io.get_positions(structure)
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
@@ -681,6 +684,9 @@ class InterpolationModel(PolarizabilityModel):
                 polarizability = np.zeros((3, 3))
 
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
-- 
2.43.0


From 842a74b52c18a0ac886f373d70016cb5c686dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 23/31] fix: do not let unmask overwrite the caller's mask

---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 1ced683..8bedf5f 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
-- 
2.43.0


From 157caa51ba07b6e01919ced7a8f90087585c12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 24/31] fix: atomic Raman tensors refuse polarizabilities that
 do not match the structures

---
 ramannoodle/pmodel/_art.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 7913a8f..6ea0deb 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -279,6 +279,11 @@ class ARTModel(InterpolationModel):
         displacements, amplitudes = super()._get_displacement_amplitudes_pymatgen(
             pymatgen_structures
         )
+        if self._is_dummy_model:
+            polarizabilities = np.zeros((amplitudes.size, 3, 3))
+        verify_ndarray_shape(
+            "polarizabilities", polarizabilities, (amplitudes.size, 3, 3)
+        )
 
         # Check whether only one atom is displaced.
         _displacement = displacements[0].copy()
-- 
2.43.0


From 00c1581c2fd59d345f7456a37047667940874d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 25/31] fix: map displacements correctly in structures
 symmetric within symprec only

---
 ramannoodle/structure/_reference.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 3107839..8362b82 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -27,6 +27,7 @@ def _compute_permutation_matrices(
     rotations: NDArray[np.float64],
     translations: NDArray[np.float64],
     positions: NDArray[np.float64],
+    tolerance: float = 1e-5,
 ) -> NDArray[np.float64]:
     """Expresses a series of rotation/translations as permutation matrices."""
     # Ensure no atom is at unit cell boundary by shifting
@@ -41,13 +42,16 @@ def _compute_permutation_matrices(
                 transform_positions(
                     positions, rotation, translation + center_of_mass_shift
                 ),
+                tolerance,
             )
         )
     return np.array(permutation_matrices)
 
 
 def _get_positions_permutation_matrix(
-    reference_positions: NDArray[np.float64], permuted_positions: NDArray[np.float64]
+    reference_positions: NDArray[np.float64],
+    permuted_positions: NDArray[np.float64],
+    tolerance: float = 1e-5,
 ) -> NDArray[np.float64]:
     """Calculate a permutation matrix between reference and permuted positions.
 
@@ -57,6 +61,8 @@ def _get_positions_permutation_matrix(
         (fractional) Array with shape (N,3)
     permuted_positions
         (fractional) Array with shape (N,3).
+    tolerance
+        (fractional) Distance within which positions are considered identical.
 
     """
     # Compute pairwise distance matrix.
@@ -67,7 +73,7 @@ def _get_positions_permutation_matrix(
         displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1
     )
     distance_matrix = np.sqrt(np.sum(displacement**2, axis=-1))
-    permutation_matrix = (distance_matrix < 1e-5).T
+    permutation_matrix = (distance_matrix < tolerance).T
 
     return permutation_matrix
 
@@ -120,8 +126,12 @@ class ReferenceStructure:
 
         self._rotations = self._symmetry_dict["rotations"]
         self._translations = self._symmetry_dict["translations"]
+        # Atoms mapped onto each other can be up to symprec apart.
+        tolerance = 1e-5
+        if symprec > tolerance:
+            tolerance = symprec * float(np.linalg.norm(np.linalg.inv(lattice)))
         self._permutation_matrices = _compute_permutation_matrices(
-            self._rotations, self._translations, self._positions
+            self._rotations, self._translations, self._positions, tolerance
         )
 
     @property
@@ -213,14 +223,20 @@ class ReferenceStructure:
         for rotation, translation, permutation_matrix in zip(
             self._rotations, self._translations, self._permutation_matrices
         ):
+            # Atoms without a counterpart would be displaced arbitrarily.
+            if not permutation_matrix.any(axis=1).all():
+                continue
 
             # Transform, permute, then get candidate displacement
             candidate_positions = transform_positions(
                 ref_positions, rotation, translation
             )
             candidate_positions = permutation_matrix @ candidate_positions
+            # Measure from the transformed (undisplaced) reference positions, which
+            # can be up to symprec away from the reference positions themselves.
             candidate_displacement = calc_displacement(
-                self._positions,
+                permutation_matrix
+                @ transform_positions(self._positions, rotation, translation),
                 candidate_positions,
             )
 
-- 
2.43.0


From d01558b9e9aaeb544c2948b040fddb7baa6ec722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:20 +0000
Subject: [PATCH 26/31] fix: refuse empty lists of pymatgen structures

---
 ramannoodle/io/pymatgen.py           | 2 ++
 ramannoodle/pmodel/_interpolation.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index ea003cd..de7b321 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -128,6 +128,8 @@ def construct_polarizability_dataset(
 
     """
     verify_list_len("pymatgen_structures", pymatgen_structures, None)
+    if len(pymatgen_structures) == 0:
+        raise ValueError("pymatgen_structures is empty")
     verify_ndarray_shape(
         "polarizabilities", polarizabilities, (len(pymatgen_structures), 3, 3)
     )
diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 8bedf5f..602a406 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -566,6 +566,9 @@ class InterpolationModel(PolarizabilityModel):
         if not PYMATGEN_PRESENT:
             raise get_pymatgen_missing_error()
 
+        if len(pymatgen_structures) == 0:
+            raise ValueError("pymatgen_structures is empty")
+
         # Calculate displacements and basis vector
         displacements = []
         for i, structure in enumerate(pymatgen_structures):
-- 
2.43.0


From b4d1e1838af39a2ab971e264dde93ad8b9b4ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:20 +0000
Subject: [PATCH 27/31] fix: compare the structure of every polarizability file
 with the first one

---
 ramannoodle/io/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 9a7904d..ef82470 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -162,8 +162,9 @@ def _read_polarizability_dataset(
                 raise IncompatibleStructureException(
                     f"incompatible atomic positions: {filepath}"
                 )
-        lattice = read_lattice
-        atomic_numbers = read_atomic_numbers
+        else:
+            lattice = read_lattice
+            atomic_numbers = read_atomic_numbers
         positions_list.append(positions)
         polarizabilities.append(polarizability)
 
-- 
2.43.0


From f1b58dfb18847b34fdd069914eda2ad072dee49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:20 +0000
Subject: [PATCH 28/31] fix: keep fractional displacements when reference
 positions are integers

---
 ramannoodle/pmodel/_art.py         | 2 +-
 ramannoodle/structure/_displace.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 6ea0deb..fff12f1 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -184,7 +184,7 @@ class ARTModel(InterpolationModel):
             "polarizabilities", polarizabilities, (amplitudes.size, 3, 3)
         )
 
-        displacement = self._ref_structure.positions * 0
+        displacement = self._ref_structure.positions * 0.0
         displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
 
         # Checks amplitudes and displacements
diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 0444bbb..0a92ed4 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -149,7 +149,7 @@ def get_ast_displaced_positions(
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
     verify_ndarray_shape("cart_direction", cart_direction, (3,))
-    cart_displacement = ref_structure.positions * 0
+    cart_displacement = ref_structure.positions * 0.0
     try:
         cart_displacement[atom_index] = cart_direction
     except ValueError as err:
-- 
2.43.0


From 2b7ee6ca0ebbd9d02296993b933fa8318fded813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:20 +0000
Subject: [PATCH 29/31] fix: convolve spectra on integer wavenumber grids

---
 ramannoodle/spectrum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/utils.py b/ramannoodle/spectrum/utils.py
index a5a796c..087b528 100644
--- a/ramannoodle/spectrum/utils.py
+++ b/ramannoodle/spectrum/utils.py
@@ -54,7 +54,7 @@ def convolve_spectrum(
         raise get_type_error("width", width, "float") from exc
     verify_ndarray("out_wavenumbers", out_wavenumbers)
 
-    convolved_intensities = out_wavenumbers * 0
+    convolved_intensities = out_wavenumbers * 0.0
     for wavenumber, intensity in zip(wavenumbers, intensities):
         factor = 0
         if function == "gaussian":
-- 
2.43.0


From 805a6adaa5dc0b670947daef858964ffbe70b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:20 +0000
Subject: [PATCH 30/31] fix: accept integer polarizabilities in torch datasets

---
 ramannoodle/dataset/torch/_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..c950f7b 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -105,7 +105,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         self._atomic_numbers = torch.tensor(atomic_numbers).type(torch.int).unsqueeze(0)
         self._atomic_numbers = self._atomic_numbers.expand(num_samples, num_atoms)
         self._positions = torch.tensor(positions).type(default_type)
-        self._polarizabilities = torch.tensor(polarizabilities)
+        self._polarizabilities = torch.tensor(np.asarray(polarizabilities, dtype=float))
 
         _, _, scaled = _scale_and_flatten_polarizabilities(
             self._polarizabilities, scale_mode="standard"
-- 
2.43.0


From 82bf647412137051bead594bd51748d477e219a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:42 +0000
Subject: [PATCH 31/31] fix: number atom types of the network independently of
 the order of atoms

---
 ramannoodle/pmodel/torch/_gnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 802d11b..51ef5be 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -499,7 +499,7 @@ class PotGNN(
         )
 
         # Atom types map
-        unique_atomic_numbers = set(ref_structure.atomic_numbers)
+        unique_atomic_numbers = sorted(set(ref_structure.atomic_numbers))
         self._num_atom_types = len(unique_atomic_numbers)
         self._atom_type_map = (torch.zeros(119) - 1).type(torch.int)
         for atom_type, atomic_number in enumerate(unique_atomic_numbers):
-- 
2.43.0

