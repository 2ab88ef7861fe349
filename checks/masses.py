"""Standard atomic weights (independent of the library)."""

MASSES = {
    "H": (1, 1.00794),
    "He": (2, 4.002602),
    "Li": (3, 6.941),
    "Be": (4, 9.012182),
    "B": (5, 10.811),
    "C": (6, 12.0107),
    "N": (7, 14.0067),
    "O": (8, 15.9994),
    "F": (9, 18.9984032),
    "Ne": (10, 20.1797),
    "Na": (11, 22.98976928),
    "Mg": (12, 24.305),
    "Al": (13, 26.9815386),
    "Si": (14, 28.0855),
    "P": (15, 30.973762),
    "S": (16, 32.065),
    "Cl": (17, 35.453),
    "Ar": (18, 39.948),
    "K": (19, 39.0983),
    "Ca": (20, 40.078),
    "Sc": (21, 44.955912),
    "Ti": (22, 47.867),
    "V": (23, 50.9415),
    "Cr": (24, 51.9961),
    "Mn": (25, 54.938045),
    "Fe": (26, 55.845),
    "Co": (27, 58.933195),
    "Ni": (28, 58.6934),
    "Cu": (29, 63.546),
    "Zn": (30, 65.409),
    "Ga": (31, 69.723),
    "Ge": (32, 72.64),
    "As": (33, 74.9216),
    "Se": (34, 78.96),
    "Br": (35, 79.904),
    "Kr": (36, 83.798),
    "Rb": (37, 85.4678),
    "Sr": (38, 87.62),
    "Y": (39, 88.90585),
    "Zr": (40, 91.224),
    "Nb": (41, 92.90638),
    "Mo": (42, 95.94),
    "Tc": (43, 98.0),
    "Ru": (44, 101.07),
    "Rh": (45, 102.9055),
    "Pd": (46, 106.42),
    "Ag": (47, 107.8682),
    "Cd": (48, 112.411),
    "In": (49, 114.818),
    "Sn": (50, 118.71),
    "Sb": (51, 121.76),
    "Te": (52, 127.6),
    "I": (53, 126.90447),
    "Xe": (54, 131.293),
    "Cs": (55, 132.9054519),
    "Ba": (56, 137.327),
    "La": (57, 138.90547),
    "Ce": (58, 140.116),
    "Pr": (59, 140.90765),
    "Nd": (60, 144.242),
    "Pm": (61, 145.0),
    "Sm": (62, 150.36),
    "Eu": (63, 151.964),
    "Gd": (64, 157.25),
    "Tb": (65, 158.92535),
    "Dy": (66, 162.5),
    "Ho": (67, 164.93032),
    "Er": (68, 167.259),
    "Tm": (69, 168.93421),
    "Yb": (70, 173.04),
    "Lu": (71, 174.967),
    "Hf": (72, 178.49),
    "Ta": (73, 180.94788),
    "W": (74, 183.84),
    "Re": (75, 186.207),
    "Os": (76, 190.23),
    "Ir": (77, 192.217),
    "Pt": (78, 195.084),
    "Au": (79, 196.966569),
    "Hg": (80, 200.59),
    "Tl": (81, 204.3833),
    "Pb": (82, 207.2),
    "Bi": (83, 208.9804),
    "Po": (84, 210.0),
    "At": (85, 210.0),
    "Rn": (86, 220.0),
    "Fr": (87, 223.0),
    "Ra": (88, 226.0),
    "Ac": (89, 227.0),
    "Th": (90, 232.03806),
    "Pa": (91, 231.03588),
    "U": (92, 238.02891),
    "Np": (93, 237.0),
    "Pu": (94, 244.0),
    "Am": (95, 243.0),
    "Cm": (96, 247.0),
    "Bk": (97, 247.0),
    "Cf": (98, 251.0),
    "Es": (99, 252.0),
    "Fm": (100, 257.0),
    "Md": (101, 258.0),
    "No": (102, 259.0),
    "Lr": (103, 262.0),
    "Rf": (104, 267.0),
    "Db": (105, 268.0),
    "Sg": (106, 269.0),
    "Bh": (107, 270.0),
    "Hs": (108, 270.0),
    "Mt": (109, 278.0),
    "Ds": (110, 281.0),
    "Rg": (111, 282.0),
    "Cn": (112, 285.0),
    "Nh": (113, 286.0),
    "Fl": (114, 289.0),
    "Mc": (115, 290.0),
    "Lv": (116, 293.0),
    "Ts": (117, 294.0),
    "Og": (118, 294.0),
}
