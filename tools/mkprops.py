"""Writes properties.jsonl (kept as a script so that the lines stay well formed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":files[0]}]}
    if state: a["state"]=[{"name":s,"where":files[0]} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="ramannoodle/structure/"; M="ramannoodle/pmodel/"; V="ramannoodle/io/vasp/"
p("S01","Fractional coordinates wrap into the cell; displacements are minimum image",
 "Wrapping fractional positions changes every coordinate by a whole number of cells and leaves it between 0 and 1; the displacement between two configurations is that of the nearest periodic image (every component within half a cell), and applying it to the first configuration gives the second one, up to whole cells. Adding whole cells to any coordinate of any input changes none of the results.",
 ["inputs"],"every finite coordinate (any sign and magnitude, half-cell ties and cell boundaries included), every number of whole-cell shifts",
 "Tests sample a handful of random vectors; boundaries, ties, negative values and floating-point rounding next to a cell boundary form a continuum.",
 [S+"utils.py"],"wrapping and displacement helpers used by models, trajectories and structure generation")
p("S02","Displaced structures move by the requested distance along the direction",
 "Each generated structure equals the reference structure with atoms moved, in Cartesian space, along the given direction by exactly the given signed amplitude, whatever the length of the direction vector, and with coordinates wrapped into the cell. The single-atom variant moves only the chosen atom; one structure is returned (or one file written) per amplitude, in order, and the reference structure is unchanged.",
 ["inputs","configurations"],"every direction of any non-zero magnitude, every signed amplitude below half a cell, every atom, orthogonal and skewed cells",
 "Tests compare a few amplitudes along axis-aligned directions in one orthogonal cell with stored files.",
 [S+"_displace.py",S+"_reference.py"],"generation and writing of displaced structures")
p("S03","Cartesian and fractional representations are mutually inverse",
 "Converting a displacement or direction to Cartesian coordinates and back (or the other way round) gives the original, for every cell shape; conversion is linear in directions of any magnitude, and displacements outside half a cell are first reduced to the nearest image.",
 ["inputs","configurations"],"every vector, every non-singular cell in the catalogue (orthogonal, skewed, left-handed) and a fully symbolic cell",
 "Conversions are only tested indirectly, in orthogonal cells, where a transposed lattice matrix has no effect.",
 [S+"_reference.py"],"coordinate conversion methods of the reference structure")
p("M01","Interpolation models reproduce the polarizabilities they were given",
 "After adding a degree of freedom, evaluating the model at each supplied amplitude along the supplied direction returns the supplied polarizability, and (when included in the interpolation) the reference polarizability at zero amplitude; this does not depend on the length of the displacement vector, the order of the supplied points, or which other valid degrees of freedom are added before or after. For first-order interpolation values between points lie on the straight line.",
 ["inputs","configurations"],"every set of polarizability tensors, every amplitude, orders one to three, every order of the points, single- and multi-atom directions of any magnitude",
 "Tests check stored data for one oxide with axis-aligned atomic displacements; tensors, amplitudes and directions are continuous.",
 [M+"_interpolation.py",M+"_art.py"],"construction and evaluation of per-degree-of-freedom interpolations",["list of unit displacement vectors","list of interpolations"])
p("M02","Degrees of freedom act independently, and only through displacement",
 "The predicted change of polarizability for a combined displacement along orthogonal degrees of freedom is the sum of the changes for each one alone; displacements orthogonal to all specified degrees of freedom, whole-cell translations of any atom, and the other configurations of a batch have no influence on a configuration's result.",
 ["inputs","configurations"],"every amplitude combination, every batch size, permutation and whole-cell shift, every set of tensors",
 "Tests evaluate single configurations of one data set; the guarantee ranges over all combined displacements and batches.",
 [M+"_interpolation.py"],"polarizability evaluation of interpolation models")
p("M03","Symmetry-equivalent degrees of freedom carry correctly rotated polarizabilities",
 "For every space-group operation of the reference structure, the polarizability predicted for the transformed configuration equals the prediction for the original configuration rotated as a Cartesian tensor, whenever the supplied data respect the site symmetry of the displaced atoms; each symmetry image of a supplied displacement is covered, and every degree of freedom added is a unit vector orthogonal to all others.",
 ["inputs","configurations"],"every polarizability tensor and amplitude, crystals of the catalogue (cubic, tetragonal, orthorhombic, monoclinic, hexagonal, primitive face-centred, screw axes)",
 "Tests use crystals with orthogonal axes, and compare against stored numbers instead of the symmetry requirement itself.",
 [S+"_reference.py",S+"_symmetry_utils.py",S+"utils.py",M+"_interpolation.py"],"symmetry search results turned into permutations, equivalent displacements and rotated tensors",["rotations, translations and permutations of the reference structure"])
p("M04","Invalid degrees of freedom are refused, and refusing changes nothing",
 "A degree of freedom that is not orthogonal to those already present, repeats an amplitude (directly or by symmetry), or has too few points for its interpolation order is refused with the documented exception; valid ones are accepted. After any sequence of accepted and refused additions the model predicts exactly what the accepted ones alone would give, and its list of degrees of freedom and its mask have equal length.",
 ["inputs","histories"],"every sequence of up to three additions (valid and invalid, any direction, amplitudes, tensor values)",
 "Tests trigger each exception once and never look at the model afterwards.",
 [M+"_interpolation.py",M+"_art.py"],"validation before and during addition of degrees of freedom",["unit displacement vectors, interpolations and mask, which must stay in step"])
p("M05","Adding data from files or structure objects equals adding it by hand",
 "A model built from displaced-structure files (in any supported format), or from structure objects, predicts the same polarizabilities as one built from the same displacement, amplitudes and polarizabilities directly; files whose displacements are not collinear, or (for atomic tensors) that move more than one atom, are refused. Signed amplitudes are measured in ångström along the first displacement, across periodic boundaries.",
 ["inputs","configurations"],"every displacement direction, amplitude pair and polarizability tensor, displacements crossing the cell boundary included",
 "Tests read a few stored files with axis-aligned displacements of one atom.",
 [M+"_interpolation.py",M+"_art.py","ramannoodle/io/generic.py","ramannoodle/io/pymatgen.py"],"derivation of direction and amplitudes from structures")
p("M06","Masking removes exactly the chosen degrees of freedom and nothing else",
 "A masked model predicts the reference polarizability plus the contributions of the unmasked degrees of freedom only; masking a set and masking its complement split the full prediction without overlap, the original model is untouched, masking replaces any earlier mask, and unmasking restores the full prediction. Selecting degrees of freedom by atom index or symbol returns exactly those that move the selected atoms.",
 ["inputs","configurations","histories"],"every subset of degrees of freedom, every configuration, every sequence of masking and unmasking",
 "Tests compare two partial spectra of one material with stored files.",
 [M+"_interpolation.py",M+"_art.py"],"mask handling and selection of degrees of freedom",["per-degree-of-freedom mask"])
p("D01","Phonon Raman tensors are directional derivatives of the polarizability",
 "The Raman tensor of every phonon is proportional, with one and the same positive constant for all phonons and models, to the derivative of the model polarizability along that phonon's displacement; it is linear in the displacement for linear models, flips sign with it, vanishes for constant models, and each phonon keeps its own wavenumber and position in the list. A model built from phonon displacements and one built from atomic displacements with the same derivatives give the same spectrum.",
 ["inputs","configurations"],"every set of displacements and wavenumbers (one to four modes), every linear and quadratic polarizability dependence",
 "Tests compare one stored spectrum; sign, ordering and scale errors that cancel in that material go unnoticed.",
 ["ramannoodle/dynamics/_phonon.py"],"central difference of the polarizability along phonon displacements")
p("R01","Phonon Raman intensities are rotational invariants of the Raman tensors",
 "The polycrystalline intensity of a mode is 45 times the squared mean polarizability derivative plus 7 times the squared anisotropy of its symmetric Raman tensor: it is non-negative, unchanged by any rotation of the crystal, unchanged by the sign of the mode, and scales with the square of the tensor. Intensities of different modes do not influence each other, and wavenumbers are returned as given.",
 ["inputs"],"every symmetric Raman tensor, every rotation, every number of modes up to four",
 "Tests compare stored intensities of one material; invariance ranges over all tensors and rotations.",
 ["ramannoodle/spectrum/_raman.py"],"rotational invariants in the phonon spectrum")
p("R02","Molecular-dynamics spectra are rotation- and offset-invariant power spectra",
 "The intensity at each frequency is 45 times the isotropic plus 7 times the anisotropic power spectrum of the polarizability's time derivative: it is unchanged by rotating all polarizabilities, by adding a constant tensor to the series, and by reversing sign, and scales with the square of the series. The frequency axis is the positive, non-zero part of the discrete frequencies in inverse centimetres for the given timestep, and has as many entries as the intensities.",
 ["inputs"],"every series of symmetric polarizabilities with two to seven steps, every positive timestep, every rotation",
 "Tests compare one stored trajectory (its data file is missing); invariance and scaling hold for all series.",
 ["ramannoodle/spectrum/_raman.py","ramannoodle/spectrum/utils.py"],"time derivative, autocorrelation and Fourier transform")
p("R03","Laser and temperature corrections are the documented pointwise factors",
 "Requesting a correction multiplies each intensity by its factor at that wavenumber and nothing else, both corrections commute, and settings of a correction that was not requested have no influence. The laser factor is the fourth power of the difference to the laser wavenumber (10^7 divided by the wavelength in nm) over the wavenumber, the thermal factor is 1/(1-exp(-E/kT)): above one, decreasing with wavenumber and increasing with temperature; non-positive temperatures and laser wavenumbers are refused.",
 ["inputs","configurations"],"every wavenumber, temperature and wavelength, all four combinations of corrections, both spectrum types",
 "Tests compare stored arrays for one laser and one temperature.",
 ["ramannoodle/spectrum/_raman.py","ramannoodle/constants.py"],"correction factors and their application")
p("R04","Spectrum convolution is linear with normalised, symmetric line shapes",
 "Convolution replaces each line by a Gaussian (of the given standard deviation) or Lorentzian (of the given full width) of unit area, centred on the line and multiplied by its intensity, summed over lines: the result is linear in the intensities, independent of the order of the lines, and non-negative for non-negative input. The default output grid extends 100 wavenumbers beyond the lines on both sides at about unit spacing; a given grid is returned as is; inputs are not modified, and non-positive widths and unknown shapes are refused.",
 ["inputs","configurations"],"every set of lines (up to four), intensities, widths and output grid",
 "Tests compare stored curves for one material and width.",
 ["ramannoodle/spectrum/utils.py"],"spectrum convolution")
p("R05","Results and documented copies are independent values",
 "Whatever the caller does to an array, list or object obtained from a structure, model, phonon set, trajectory, spectrum or dataset as a documented copy or as a computed result does not change what the object returns later, and asking twice (in any order of different requests) gives the same answer; computations do not modify the arrays passed to them.",
 ["histories","inputs"],"every sequence of up to three read, modify and compute operations on every such accessor, every content",
 "No test modifies a returned array and asks again.",
 ["ramannoodle/spectrum/_raman.py","ramannoodle/dynamics/_phonon.py","ramannoodle/dynamics/_trajectory.py",S+"_reference.py",M+"_interpolation.py","ramannoodle/dataset/torch/_dataset.py"],"accessors documented to return copies")
p("I01","Written structures and trajectories read back unchanged",
 "Writing a valid structure or trajectory and reading the file returns the same lattice, the same atomic numbers in the same order and the same positions within the printed precision, configuration by configuration, whatever the label text; atomic numbers that are not grouped by element are refused rather than reordered.",
 ["inputs","configurations"],"every lattice and positions, every grouped list of elements, any label (line breaks, quotes, non-ASCII), one to three configurations",
 "Tests round-trip a few random structures with one label; alignment, sign and width of numbers and label content vary.",
 [V+"poscar.py",V+"xdatcar.py","ramannoodle/io/generic.py","ramannoodle/io/_utils.py"],"writers and readers of structure and trajectory files")
p("I02","Existing files are never overwritten or damaged unless asked",
 "Without permission to overwrite, writing to an existing path fails and leaves that file byte for byte as it was; with it the file contains only the new content. Invalid input (bad shapes, unknown or ungrouped elements, coordinates outside the cell) is refused before any file is created or emptied; the same holds for the helpers that write series of displaced structures.",
 ["inputs","histories","configurations"],"every writer and format, path existing or not, overwrite on or off, every kind of invalid input",
 "Tests check one overwrite case, and never the content of the file after a refused write.",
 [V+"poscar.py",V+"xdatcar.py",S+"_displace.py","ramannoodle/io/generic.py"],"opening mode and validation order of writers")
p("I03","POSCAR and XDATCAR files mean what the format says",
 "Lattice vectors are rows times the scale factor (a negative factor gives the cell volume); counts follow the element line; Cartesian coordinates are scaled and converted to fractional ones, direct ones are taken as they are, selective-dynamics lines and flags are skipped, and trailing text on lattice and coordinate lines is ignored. All entry points that read such a file (positions, structure, reference structure, trajectory, generic by format name) agree.",
 ["inputs","configurations"],"every value of every number in the file, direct/Cartesian, with and without selective dynamics, one to three elements and configurations",
 "Tests read stored files with scale factor one and mostly direct coordinates.",
 [V+"poscar.py",V+"xdatcar.py","ramannoodle/io/generic.py"],"structure file readers")
p("I04","OUTCAR readers put every number in its place with the right unit",
 "Lattice, elements, positions, polarizability, timestep, phonon wavenumbers (negative for imaginary modes) and displacements (fractional, divided by the square root of the atomic mass) read from an OUTCAR are exactly the numbers printed there, for any number of elements, atoms and steps; trajectories are in the order of the file, without the ab-initio duplicates that follow machine-learned steps. All entry points agree on the parts they share.",
 ["inputs","configurations"],"every value of every number, one to three elements, machine-learning flags in every arrangement of up to four steps, real and imaginary modes in every arrangement",
 "Tests look at a few numbers of a few stored files.",
 [V+"outcar.py","ramannoodle/io/generic.py","ramannoodle/constants.py"],"OUTCAR text parsing")
p("I05","vasprun.xml readers agree with the file and with the OUTCAR readers",
 "Lattice, elements, positions, polarizability, timestep, trajectory and phonons read from a vasprun.xml are exactly the numbers recorded there, with frequencies converted to inverse centimetres (negative for imaginary modes) and displacements divided by the square root of the atomic mass; the same calculation described by an OUTCAR gives the same result through every entry point.",
 ["inputs","configurations"],"every value of every number, one to three elements, one to three steps, real and imaginary modes in every arrangement",
 "Tests look at a few numbers of a few stored files without imaginary modes.",
 [V+"vasprun.py","ramannoodle/io/generic.py"],"vasprun.xml parsing")
p("I06","Truncated or malformed files are rejected, never silently misread",
 "A file cut off between any two entries before the end of the requested data, or with a non-numeric entry, a row with too few entries or a missing row in it, raises the documented invalid-file error (a trajectory cut between two configurations is a shorter one); no reader returns an array with missing rows, missing components or another wrong shape.",
 ["inputs","fault_sequences"],"every truncation point (line or token) and every single corrupted numeric token of generated files of each format",
 "Tests use a few hand-made broken files per format.",
 [V+"poscar.py",V+"xdatcar.py",V+"outcar.py",V+"vasprun.py","ramannoodle/io/_utils.py"],"error handling of file readers")
p("I07","Datasets read from several files keep samples apart and refuse mismatches",
 "A dataset read from a list of files (or structure objects) holds one sample per file in the given order, each with its own positions and polarizability; a file whose lattice, elements or number of atoms differ is refused.",
 ["inputs","configurations"],"every content of two or three files, each kind of mismatch in each position, every order",
 "Tests read one list of identical-structure files.",
 ["ramannoodle/io/_utils.py","ramannoodle/io/pymatgen.py",V+"outcar.py",V+"vasprun.py"],"dataset assembly from files")
p("I08","Structure objects from pymatgen give the same structures as files",
 "Reference structures, datasets and trajectories constructed from pymatgen objects contain exactly the lattice, elements, fractional positions and timestep of these objects; trajectories with a changing lattice and structures with mismatched lattices, elements or atoms are refused.",
 ["inputs","configurations"],"every lattice, position, polarizability and timestep; matching and mismatching objects in every order",
 "Tests convert a few stored files.",
 ["ramannoodle/io/pymatgen.py"],"pymatgen conversion")
p("T01","Trajectories are wrapped, ordered sequences with a positive timestep",
 "A trajectory holds every configuration in order with coordinates wrapped into the cell; its length, iteration, indexing (negative too) and slicing agree with that series, indexes outside it raise an index error, non-positive timesteps are refused, and its spectrum is that of the model's polarizabilities in the same order.",
 ["inputs"],"every coordinate, one to four configurations, every index and slice, every timestep",
 "Tests check one shape of one trajectory.",
 ["ramannoodle/dynamics/_trajectory.py"],"trajectory container")
p("G01","Polarizability vectors and tensors convert without loss",
 "A symmetric polarizability tensor and its six-component vector convert into each other exactly with one fixed component order everywhere in the package, sample by sample.",
 ["inputs"],"every tensor and vector, batches of one to three",
 "Tests use a few random tensors; a consistent mix-up of two components in one place only shows for unequal ones.",
 ["ramannoodle/dataset/torch/utils.py","ramannoodle/dataset/torch/_dataset.py"],"conversion between tensor and vector form")
p("G02","Dataset scaling is standard scaling that can be undone",
 "The scaled polarizabilities of a dataset are, for every component that varies between its samples, (value - mean)/standard deviation of its own samples, or of the mean and deviation given later; multiplying back by the deviation and adding the mean returns the original, repeated rescaling does not accumulate, and items, length and unscaled values stay the same.",
 ["inputs","histories"],"every set of two to four polarizabilities with non-zero deviations, every given mean and deviation, every sequence of rescalings",
 "Tests check shapes and one scaling of stored data.",
 ["ramannoodle/dataset/torch/_dataset.py"],"scaling of polarizabilities",["scaled polarizabilities"])
p("G03","Periodic neighbour graphs contain exactly the pairs within the cutoff",
 "The graph built for a batch of structures has, for each structure separately, an edge between two different atoms in both directions exactly when the distance between nearest images (component-wise in the cell) is within the cutoff, with that distance and the unit vector pointing from one to the other; whole-cell shifts and the other structures in the batch do not matter.",
 ["inputs","configurations"],"every set of positions of up to three atoms, orthogonal and skewed cells, every cutoff, batches of one or two",
 "Tests compare random structures against a slow reference implementation in one cubic cell.",
 [M+"torch/_utils.py"],"radius graph with periodic boundary conditions")
p("G04","Batched triplets are each structure's reference triplets, in any order of use",
 "For any sequence of requested batch sizes the triplets returned are, for each structure of the batch, the reference triplets with node and edge numbers offset to that structure, consistent with the batched edges; earlier requests do not influence later ones.",
 ["histories","configurations"],"every sequence of up to three batch sizes from one to three, graphs of two to four atoms",
 "Tests request one sequence of batch sizes.",
 [M+"torch/_utils.py"],"cache of batched triplets",["cached triplets and batch size"])
p("G05","Edge frames are proper rotations onto the edge direction",
 "For every non-zero target vector of any length the computed matrix is a proper rotation (orthogonal, determinant one) that takes the x direction onto the direction of the target, parallel and antiparallel targets included, each vector of a batch on its own.",
 ["inputs"],"every non-zero vector, the degenerate directions included",
 "A test draws 40 random vectors; the degenerate directions have probability zero.",
 [M+"torch/_utils.py"],"rotation construction for edge frames")
p("G06","Neural-network predictions do not depend on batching or periodic images",
 "In evaluation mode the polarizability predicted for a configuration is symmetric, is the same whether it is evaluated alone, in any batch or in any order (also beyond the internal chunk size), and does not change when atoms are shifted by whole cells or the whole crystal is translated; predictions are rescaled with the model's own mean and deviation, and evaluation changes no parameter.",
 ["inputs","configurations"],"every set of network weights (as uninterpreted layers) and positions near the reference, batches of one to three and across the chunk boundary",
 "Tests check shapes and one numeric example.",
 [M+"torch/_gnn.py",M+"torch/_utils.py"],"batched message passing and chunked evaluation")
p("G07","Batches partition the configurations in order",
 "Splitting configurations into batches of any positive size gives consecutive pieces, all of exactly that size except possibly a smaller last one, whose concatenation is the original series, with no empty piece.",
 ["inputs"],"every number of configurations up to eight and batch size up to nine, every content",
 "Tests use one size that divides evenly and one that does not.",
 [M+"torch/_utils.py"],"splitting into batches")
p("G08","One training epoch trains on the training set only",
 "During one epoch every training sample is used exactly once to update the model, with gradients cleared between batches; validation samples never change the model, and the reported losses are the averages of the batch losses on the respective sets.",
 ["schedules","inputs"],"every shuffle of the training set, batch size and loss value",
 "A test only runs one epoch and checks the types of the results.",
 [M+"torch/_train.py"],"training loop")
p("M07","Dummy models accept and refuse exactly what real ones do, and never predict",
 "A dummy model given the same sequence of additions (by hand, from files or from structure objects) accepts and refuses the same ones as a real model, ends up with the same degrees of freedom and masks, whatever polarizabilities it is or is not given; files without polarizabilities are accepted by dummy models only; no dummy model, with or without degrees of freedom, masked or not, ever returns a polarizability or a spectrum, and is_dummy_model says which kind a model is.",
 ["histories","inputs"],"every sequence of two additions of valid and invalid directions, amplitudes and orders, every displaced structure read from files and objects, models with no degrees of freedom",
 "Tests build one dummy model from stored files and ask it for one prediction.",
 [M+"_interpolation.py",M+"_art.py"],"dummy variants of interpolation models")
p("M08","Summaries of a model state what the model contains",
 "The printed summary of an interpolation model and the specification tuples and table of an atomic Raman tensor model list every symmetry-nonequivalent atom with its equivalent atoms, exactly the directions specified for it (as unit vectors) and how many of three, the total number of specified degrees of freedom out of 3N, and warn about masked degrees of freedom (with their number) and dummy models exactly when there are any.",
 ["histories","configurations"],"every subset of three orthogonal directions at any angle on two atoms, added in interleaved order, every partition of up to three atoms into equivalent ones, three masks, real and dummy models",
 "Tests compare the summary of one model with a stored text.",
 [M+"_art.py",M+"_interpolation.py"],"specification tuples and printed summaries")
p("M09","Amplitudes on one side of the reference come with a warning, others do not",
 "Adding a degree of freedom issues a DOFWarning exactly when the amplitudes of a resulting degree of freedom, those generated by symmetry included, do not reach both sides of the reference structure (amplitudes within 0.002 angstrom of it may count as being at it), whatever the route (by hand, from files, from structure objects), the kind of model (real or dummy, interpolation or atomic Raman tensors) and the other amplitudes; the warning changes nothing about what is added, and a caller that turns warnings into errors finds the model as it was and usable.",
 ["inputs","histories"],"every set of up to three amplitudes of either sign in any order, any two displaced structures read from files or objects, one-sided amplitudes completed or not completed by the symmetry of twelve crystals",
 "Tests check the warning for two amplitudes lists on one structure.",
 [M+"_interpolation.py",M+"_art.py"],"amplitude span warnings")
p("S04","Equivalent atoms and displacements are the orbits under the structure's symmetry",
 "The dictionary of equivalent atoms lists every atom exactly once, each under the first atom it is mapped onto by symmetry; the equivalent displacements of any displacement are images of it under the symmetry operations, grouped into mutually orthogonal directions (one or two opposite ones in each), contain the displacement itself first and every image that is not oblique to those listed, whatever the length of the displacement; the tolerances given to the structure are the ones used, also for structures that are symmetric only within them.",
 ["inputs","configurations"],"every direction in a plane and every integer direction of any length, crystals of the catalogue, every partition of up to four atoms, structures distorted within the tolerance",
 "Tests compare the numbers of equivalent displacements of a few oxides.",
 [S+"_reference.py",S+"_symmetry_utils.py"],"symmetry search results turned into equivalent atoms and displacements")
p("A01","Arguments of the wrong shape or kind are refused, documented ones accepted",
 "Every public constructor, addition and evaluation refuses arrays whose shape differs from the documented one (sizes that must agree between arguments included) and lists of the wrong length with a ValueError or the documented exception, leaving the object as it was and writing nothing; every documented combination of sizes is accepted; file formats that are not documented for an operation are refused.",
 ["inputs","configurations"],"every argument of 25 entry points with every neighbouring shape, documented sizes from 1 to 257, every undocumented format name in a menu",
 "Tests try one or two wrong shapes per function; broadcasting and identity comparison make particular sizes slip through.",
 ["ramannoodle/exceptions.py",M+"_interpolation.py",S+"_reference.py","ramannoodle/io/generic.py"],"argument verification")
p("X01","Predictions and spectra do not depend on how the crystal is described",
 "Listing the atoms in another order, choosing other lattice vectors for the same lattice, moving the origin, exchanging the coordinate axes or turning the whole crystal (with displacements and tensors) leaves every result what it was: predictions, phonon Raman tensors and polarizability series of interpolation and atomic-Raman-tensor models are the same tensors (turned likewise), degrees of freedom and equivalent atoms correspond atom by atom, and the neural network with the same weights predicts the same for reordered atoms, exchanged axes and another origin.",
 ["inputs","configurations"],"every tensor, amplitude and displacement; every order of three atoms (four orders of larger cells), five changes of cell, origins, exchanged axes, turned frames; crystals of the catalogue",
 "Tests use each material in the one description stored in its files.",
 [M+"_interpolation.py",M+"_art.py",S+"_reference.py",M+"torch/_gnn.py"],"models built on a description of the reference structure")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
