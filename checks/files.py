"""Generators of VASP files. Numbers may be symbolic: their text is then a token that stands for the value."""

NUM = {"Ti": 22, "O": 8, "Sr": 38, "Na": 11, "Cl": 17, "H": 1, "C": 6, "Si": 14, "Zr": 40, "Xe": 54, "Li": 3, "S": 16, "N": 7, "Fe": 26}


def expand(groups):
    return [s for s, n in groups for _ in range(n)]


def numbers_of(groups):
    return [NUM[s] for s in expand(groups)]


def row(env, v, dec=9, sep="  "):
    return sep.join(env.text(x, dec) for x in v)


def potcar_lines(groups, style, suffix):
    names = [s + (suffix if i % 2 == 0 else "") for i, (s, _) in enumerate(groups)]
    out = [f" POTCAR:    PAW_PBE {n} 08Apr2002" for n in names]
    if style == "list":  # names listed, then listed again one by one
        out += [f" POTCAR:    PAW_PBE {names[0]} 08Apr2002", "   local pseudopotential read in"]
        return out + [f" POTCAR:    PAW_PBE {n} 08Apr2002" for n in names[1:]]
    if style == "plain":  # every name once
        return out + ["", "   some text"]
    if style == "gap":  # header of the first potential two lines below
        out += [f" POTCAR:    PAW_PBE {names[0]} 08Apr2002", "   SHA256 = 0", f"   VRHFIN ={groups[0][0]}: s2p4"]
        return out
    out += [f" POTCAR:    PAW_PBE {names[0]} 08Apr2002", f"   VRHFIN ={groups[0][0]}: s2p4"]
    for n, (s, _) in zip(names[1:], groups[1:]):
        out += ["   LEXCH  = PE", f" POTCAR:    PAW_PBE {n} 08Apr2002", f"   VRHFIN ={s}: s2p4"]
    return out


def outcar(env, groups, lattice, positions, polarizability=None, phonons=None, timestep=None, steps=None, style="vrhfin", suffix="_sv", decoys=True, pdec=8, more=True):
    """Text of an OUTCAR. phonons = [(wavenumber, imaginary, eigenvector rows)], steps = [(kind, Cartesian rows)]."""
    L = [" vasp.6.3.0 20Jan22", " executed on LinuxGNU", " INCAR:"]
    L += potcar_lines(groups, style, suffix)
    L += ["  support grid", " ----------"]
    if decoys:  # symmetry section: an initial listing of the (primitive) cell
        L += ["  direct lattice vectors                    reciprocal lattice vectors", "     9.0 0.0 0.0   0.1 0.0 0.0", "     0.0 9.0 0.0   0.0 0.1 0.0", "     0.0 0.0 9.0   0.0 0.0 0.1", ""]
        L += ["  position of ions in fractional coordinates (direct lattice)"] + ["     0.9 0.9 0.9"] * len(expand(groups)) + [""]
    L += ["   ions per type =            " + "  ".join(str(n) for _, n in groups), ""]
    L += [f"   POTIM  = {env.text(timestep, 4) if timestep is not None else '0.5000'}    time-step for ionic-motion", "   TEIN   =    0.0    initial temperature", ""]
    L += [" Write flags", "   LWAVE        =      F    write WAVECAR", ""]
    if decoys:
        L += ["  energy-cutoff  :      400.00"]
    L += ["      direct lattice vectors                 reciprocal lattice vectors"]
    for v in lattice:
        L.append("    " + row(env, v) + "     0.084580423  0.000000000  0.000000000")
    L += ["", "  length of vectors", "    11.823066970 11.823066970 11.823066970     0.084580423  0.084580423  0.084580423", ""]
    L += [" k-points in reciprocal lattice and weights: K-Points", "   0.25000000  0.25000000  0.25000000       0.250", ""]
    L += [" position of ions in fractional coordinates (direct lattice)"]
    L += ["   " + row(env, p, pdec) for p in positions] + [""]
    L += [" position of ions in cartesian coordinates  (Angst):"] + ["   1.5000  1.5000  1.5000"] * len(expand(groups)) + [""]
    for kind, cart in steps or []:
        if decoys:
            L += ["      direct lattice vectors                 reciprocal lattice vectors", "    8.0 0.0 0.0 0.1 0.0 0.0", "    0.0 8.0 0.0 0.1 0.0 0.0", "    0.0 0.0 8.0 0.1 0.0 0.0", ""]
        L += [" POSITION                                       TOTAL-FORCE (eV/Angst)" + (" (ML)" if kind == "ml" else ""), " " + "-" * 60]
        L += ["    " + row(env, p, 9) + "      0.003500     -0.003005     -0.004277" for p in cart]
        L += [" " + "-" * 60, "    total drift:       0.0   0.0  0.0", ""]
    if phonons is not None:
        L += [" Eigenvectors and eigenvalues of the dynamical matrix", " ----------------------------------------------------", "", ""]
        for i, (w, imag, vec) in enumerate(phonons):
            L.append(f"{i+1:4d} {'f/i=' if imag else 'f  ='}    3.000000 THz    18.000000 2PiTHz  {env.text(w, 8)} cm-1     7.000000 meV")
            L.append("             X         Y         Z           dx          dy          dz")
            L += ["      1.500000  1.500000  1.500000  " + row(env, v, 9) for v in vec]
            L.append("")
        L += ["", " Finite differences POTIM=   0.0150", ""]
    if polarizability is not None:
        if decoys:
            L += [" HEAD OF MICROSCOPIC STATIC DIELECTRIC TENSOR (INDEPENDENT PARTICLE, excluding Hartree and local field effects)", " " + "-" * 54]
            L += ["        7.5 0.0 0.0", "        0.0 7.5 0.0", "        0.0 0.0 7.5", " " + "-" * 54, ""]
        for k, p in enumerate([polarizability] + ([[[1.5, 0, 0], [0, 1.5, 0], [0, 0, 1.5]]] if decoys else [])):
            L += [" MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)", " " + "-" * 54]
            L += ["        " + row(env, v, 8) for v in p]
            L += [" " + "-" * 54, ""]
        if decoys:
            L += [" MACROSCOPIC STATIC DIELECTRIC TENSOR IONIC CONTRIBUTION", " " + "-" * 54]
            L += ["        8.5 0.0 0.0", "        0.0 8.5 0.0", "        0.0 0.0 8.5", " " + "-" * 54, ""]
    if more:
        L += [" General timing and accounting informations for this job:"]
    return "\n".join(L) + "\n"


def _va(env, name, rows, pad="   ", dec=9):
    out = [f'{pad}<varray name="{name}" >']
    out += [f"{pad} <v>       {row(env, v, dec)} </v>" for v in rows]
    return out + [f"{pad}</varray>"]


def vasprun(env, groups, lattice, positions, polarizability=None, phonons=None, timestep=None, steps=None, decoys=True, pdec=9):
    """Text of a vasprun.xml. phonons = [(eigenvalue, eigenvector rows)], steps = [(kind, fractional rows)]."""
    wrong = [[9.0, 0, 0], [0, 9.0, 0], [0, 0, 9.0]]
    L = ['<?xml version="1.0" encoding="ISO-8859-1"?>', "<modeling>", " <generator>", '  <i name="program" type="string">vasp </i>', " </generator>"]
    L += [" <incar>", '  <i name="POTIM">      0.01500000</i>', " </incar>"]
    if decoys:
        L += [" <primitive_cell>", '  <structure name="primitive_cell" >', "   <crystal>"] + _va(env, "basis", wrong) + ["   </crystal>"]
        L += _va(env, "positions", [[0.9, 0.9, 0.9]]) + ["  </structure>", " </primitive_cell>"]
    t = env.text(timestep, 8) if timestep is not None else "0.50000000"
    L += [" <parameters>", '  <separator name="electronic" >', '   <i name="ENMAX">    400.0</i>', "  </separator>", '  <separator name="ionic" >', '   <i type="int" name="NSW">     1</i>', f'   <i name="POTIM">      {t}</i>', "  </separator>", " </parameters>"]
    L += [" <atominfo>", f"  <atoms>      {len(expand(groups))} </atoms>", f"  <types>       {len(groups)} </types>", '  <array name="atoms" >', '   <dimension dim="1">ion</dimension>', '   <field type="string">element</field>', '   <field type="int">atomtype</field>', "   <set>"]
    for k, (s, n) in enumerate(groups):
        L += [f"    <rc><c>{s:<2s}</c><c>   {k+1}</c></rc>"] * n
    L += ["   </set>", "  </array>", '  <array name="atomtypes" >', "   <set>"]
    L += [f"    <rc><c>   {n}</c><c>{s:<2s}</c><c>     87.62000000</c><c>     10.0</c><c>  PAW_PBE {s} </c></rc>" for s, n in groups]
    L += ["   </set>", "  </array>", " </atominfo>"]
    L += [' <structure name="initialpos" >', "  <crystal>"] + _va(env, "basis", lattice) + ['   <i name="volume">     61.2 </i>'] + _va(env, "rec_basis", wrong) + ["  </crystal>"]
    L += _va(env, "positions", positions, "  ", pdec) + [" </structure>"]
    for kind, pos in steps or []:
        st = ["  <structure>", "   <crystal>"] + _va(env, "basis", wrong) + ["   </crystal>"] + _va(env, "positions", pos, "   ", pdec) + ["  </structure>"]
        if kind == "calc":
            L += [" <calculation>"] + st + [" </calculation>"]
        else:
            L += st
    L += [" <calculation>", "  <scstep>", '   <energy><i name="e_fr_energy"> 1.0 </i></energy>', "  </scstep>"]
    if decoys:
        L += ["  <structure>", "   <crystal>"] + _va(env, "basis", wrong) + ["   </crystal>"] + _va(env, "positions", [[0.9] * 3] * len(expand(groups))) + ["  </structure>"]
        L += _va(env, "forces", [[0.1, 0.2, 0.3]] * len(expand(groups)), "  ")
        L += _va(env, "dielectric_rpa", wrong, "  ")
    if polarizability is not None:
        L += _va(env, "dielectric_dft", polarizability, "  ")
    if phonons is not None:
        L += ["  <dynmat>"]
        if decoys:
            L += ['   <varray name="hessian" >', "    <v> 1.0 2.0 3.0 </v>", "   </varray>"]
        L += ['   <v name="eigenvalues"> ' + " ".join(env.text(e, 9) for e, _ in phonons) + "</v>", '   <varray name="eigenvectors" >']
        L += ["    <v>  " + "  ".join(row(env, r, 10) for r in vec) + " </v>" for _, vec in phonons]
        L += ["   </varray>", "  </dynmat>"]
    L += [" </calculation>"]
    if decoys:
        L += [' <structure name="finalpos" >', "  <crystal>"] + _va(env, "basis", wrong) + ["  </crystal>"] + _va(env, "positions", [[0.8] * 3] * len(expand(groups)), "  ") + [" </structure>"]
    L += ["</modeling>"]
    return "\n".join(L) + "\n"


def header(env, groups, lattice, scale=None, label="title", dec=9, comment="", scale_text=None):
    L = [label, "   " + (scale_text if scale_text is not None else "1.00000000" if scale is None else env.text(scale, 9)) + comment.replace("!", " ")]
    L += ["    " + row(env, v, dec) + comment for v in lattice]
    L += ["   " + "   ".join(s for s, _ in groups), "   " + "   ".join(str(n) for _, n in groups)]
    return L


def poscar(env, groups, lattice, positions, scale=None, mode="Direct", selective=None, comment="", label="title", trailer="", scale_text=None, dec=9):
    L = header(env, groups, lattice, scale, label, dec, "", scale_text)
    if selective is not None:
        L.append(selective)
    L.append(mode)
    flags = ["   T   T   F", "   F   F   F", "   T   T   T"]
    for i, p in enumerate(positions):
        L.append("   " + row(env, p, dec) + (flags[i % 3] if selective is not None else "") + comment)
    return "\n".join(L) + "\n" + trailer


def xdatcar(env, groups, lattice, steps, scale=None, mode="Direct configuration=", label="title", trailer="", dec=9):
    L = header(env, groups, lattice, scale, label, dec)
    for i, pos in enumerate(steps):
        L.append(f"{mode}{i+1:6d}")
        L += ["   " + row(env, p, dec) for p in pos]
    return "\n".join(L) + "\n" + trailer


def write(path, text):
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path
