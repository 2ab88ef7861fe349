"""Write known_findings.json (run by hand; checks never touch that file)."""
import json

F1 = "F1: symmetry images computed with positions @ R instead of positions @ R^T (and tensors rotated with the fractional R): "
find = []
for unit, label, what in [
    ("linear-hex-hcp-axes", "unexpected exception", "hexagonal close-packed cell: the mirror image of an in-plane displacement is missed, a sufficient atomic Raman tensor is refused"),
    ("linear-hex-wurtzite-axes", "unexpected exception", "wurtzite: the mirror image of an in-plane displacement is missed, a sufficient atomic Raman tensor is refused"),
    ("linear-trigonal-axes", "unexpected exception", "trigonal selenium-like cell: a sufficient atomic Raman tensor is refused"),
    ("linear-trigonal-P31-axes", "unexpected exception", "P3_1 chain: images under the screw axis are misplaced"),
    ("linear-fcc-primitive-axes", "unexpected exception", "primitive face-centred cubic cell: a sufficient atomic Raman tensor is refused"),
    ("linear-tetra-P41-axes", "degrees of freedom", "P4_1 cell: images of a displacement are missed, 6 of 12 degrees of freedom are added"),
    ("linear-cubic-perovskite-shifted", "degrees of freedom", "perovskite with the origin off the symmetry centre: 13 of 15 degrees of freedom are added"),
    ("linear-rutile-shifted", "degrees of freedom", "rutile with the origin off the symmetry centre: 15 of 18 degrees of freedom are added"),
]:
    find.append({"property": "M03", "unit": unit, "label": label, "what": F1 + what})
find.append({"property": "S04", "unit": "shifted-tetra-P4mm", "label": "every image is listed or oblique", "what": F1 + "P4mm cell with the origin off the four-fold axis: images of a displacement are missed"})
for unit, label, what in [
    ("crystal-monoclinic-P2/m-turned", "prediction", "monoclinic cell in a turned Cartesian frame"),
    ("crystal-ortho-Pmm2-axes", "prediction", "orthorhombic cell with its lattice vectors listed in another order"),
    ("crystal-rutile-origin", "degrees of freedom", "rutile with the origin off the symmetry centre"),
]:
    find.append({"property": "X01", "unit": unit, "label": label, "what": F1 + what + " gives other results than the standard description"})

fixed = [
    "fixed: property=M01 0f0e560 the length of a displacement or direction vector changed (or broke) the degree of freedom that was added",
    "fixed: property=M03 83a9408 orthogonality of symmetry images was judged in fractional coordinates, so orthogonal images in non-orthogonal cells were lost or non-orthogonal ones added",
    "fixed: property=I05 cfb7eed imaginary modes of vasprun.xml came back with positive wavenumbers, unlike those of the OUTCAR",
    "fixed: property=I03 59f268c POSCAR Cartesian coordinates ignored the scale factor, negative scale factors were not cell volumes",
    "fixed: property=R05 1011c97 MDRamanSpectrum.polarizability_ts and PhononRamanSpectrum.measure handed out internal arrays",
    "fixed: property=G05 9fd299f get_rotations returned nan for targets antiparallel to x",
    "fixed: property=I06 200c9b0 truncated or malformed OUTCAR blocks were read as short or wrong arrays, or escaped as other exceptions",
    "fixed: property=I06 08bc7eb POSCAR and XDATCAR files ending early were accepted or escaped as other exceptions",
    "fixed: property=I06 2d86d33 malformed numbers and incomplete tensors in vasprun.xml escaped as other exceptions or wrong shapes",
    "fixed: property=R05 c03919b get_equivalent_displacements handed out internal rotation and translation arrays",
    "fixed: property=R05 c2ff856 ARTModel.get_specification_tuples handed out views of internal basis vectors",
    "fixed: property=I06 2f41ac7 OUTCAR files with missing or negative numbers of ions were read with missing atoms",
    "fixed: property=I06 e0451bb negative ion counts in POSCAR and XDATCAR files were read as missing atoms",
    "fixed: property=I06 29cbf6a XDATCAR files with a lost or blank line were read as a shorter series",
    "fixed: property=I06 8b58153 vasprun.xml files with missing rows were read with missing atoms, unknown elements escaped as KeyError",
    "fixed: property=I08 d5904fa pymatgen trajectories stored as displacements were taken for positions",
    "fixed: property=A01 a675105 lists longer than 256 entries were refused because lengths were compared by identity",
    "fixed: property=M07 8a17224 dummy models without degrees of freedom predicted polarizabilities",
    "fixed: property=A01 9e0df59 positions with one atom or one coordinate were broadcast to the number of atoms by interpolation models",
    "fixed: property=A01 45fc1df displacements with the wrong number of atoms or axes were broadcast",
    "fixed: property=A01 6496879 degrees of freedom for the wrong number of atoms were broadcast and added",
    "fixed: property=M05 a36e383 files and structures with one atom were taken for displaced structures of larger models",
    "fixed: property=R05 842a74b unmask overwrote the array assigned to mask",
    "fixed: property=A01 157caa5 atomic Raman tensors from pymatgen accepted more or fewer polarizabilities than structures",
    "fixed: property=S04 00c1581 displacements were mapped wrongly in structures that are symmetric within symprec only",
    "fixed: property=A01 d01558b empty lists of pymatgen structures escaped as IndexError or UnboundLocalError",
    "fixed: property=I07 b4d1e18 files were compared with the previous one only, so lattices drifting from file to file were accepted",
    "fixed: property=S02 f1b58df displaced structures of references with integer positions came out as NaN",
    "fixed: property=M01 f1b58df atomic Raman tensors of references with integer positions were cut to integers and refused or wrong",
    "fixed: property=R04 2b7ee6c integer wavenumber grids could not be convolved",
    "fixed: property=G02 805a6ad datasets with integer polarizabilities could not be built",
    "fixed: property=X01 82bf647 the network numbered elements in the iteration order of a set, so the same weights gave other predictions when atoms were reordered (Sr/Ti, O/S)",
]

if __name__ == "__main__":
    with open("/verif/known_findings.json", "w", encoding="utf-8") as f:
        json.dump({"findings": find, "fixed": fixed}, f, indent=1)
        f.write("\n")
