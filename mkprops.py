import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/wulfric/"+f for f in files],mechanism=[dict(name=n,where="src/wulfric/"+w) for n,w in mech],observe_at=observe,hook_needed=None)))
CR=["crystal/_conventional.py","crystal/_primitive.py","_spglib_interface.py"]
p("C01","Standardised cells describe the same crystal",
"For every crystal, every way of describing it and every supported convention (HPKOT, SC, spglib), the cell and atoms returned as conventional or primitive are the same crystal as the input: the same infinite set of atoms of the same types, with the same density, up to one common shift of the origin. The spatial orientation is that of the input (nothing is rotated or mirrored), and no two returned atoms coincide.",
["inputs"],"all crystals (every space group and setting), all descriptions of them (any unit of length and tolerances that resolve the atoms, unimodular changes of basis, supercells, left-handed cells, rotations, origin shifts, permutations, periodic images), all conventions",
"The tests compare a few dozen fixed examples and only their lattice parameters; the claim quantifies over every crystal and every description of it.",
CR+["constants/_hpkot_convention.py","constants/_sc_convention.py"],
[("get_conventional","crystal/_conventional.py"),("get_primitive","crystal/_primitive.py"),("SpglibData","_spglib_interface.py")],
["return values of get_conventional, get_primitive and get_spglib_data"])
p("C02","Primitive cell holds exactly one lattice point, tied to the conventional one",
"For every crystal and convention the returned primitive cell contains exactly one lattice point: no translation of the crystal is shorter than its lattice. For HPKOT and SC the primitive cell is obtained from the conventional one by the transformation matrix published for the Bravais lattice type of the crystal, so the conventional cell contains 1, 2, 3 or 4 lattice points according to the centring (1 for SC rhombohedral).",
["inputs"],"all crystals and descriptions, all conventions",
"The tests never compute the translations of a crystal; they sample a few lattices where a wrong cell still has plausible parameters.",
CR+["constants/_hpkot_convention.py","constants/_sc_convention.py","constants/_space_groups.py"],
[("conventional-to-primitive matrices","constants/_hpkot_convention.py"),("_get_unique","crystal/_primitive.py")],
["return values of get_conventional, get_primitive","constants HPKOT_CONVENTIONAL_TO_PRIMITIVE, SC_CONVENTIONAL_TO_PRIMITIVE"])
p("C03","Conventional cells obey the metric rules of their convention",
"The conventional cell of every crystal is right-handed and satisfies the rules its convention states for the crystal's Bravais lattice: equal lengths and right (or 120 degree) angles of the crystal family; for SC orthorhombic a<=b<=c (a<=b when base-centred), monoclinic alpha<=90 with the other angles right and b<=c when primitive (the unique axis of the symmetry being a, and b in HPKOT and spglib, even if all angles are right by accident), rhombohedral equal lengths and angles, triclinic all reciprocal angles acute or all obtuse with gamma extremal (smallest obtuse or largest acute). For HPKOT triclinic the reciprocal cell is Niggli-reduced up to order and signs, a* and b* have the smallest scalar product in magnitude, and the reciprocal angles are all acute or all at least right.",
["inputs"],"all crystals of the 14 Bravais lattices in any setting and description, including equal lattice parameters, accidental right angles, any unit of length and any tolerances passed through get_spglib_data that resolve the atoms",
"Every branch of the re-ordering rules is reached only by particular metrics and input settings; the tests take one example per lattice.",
CR+["cell/_niggli.py"],[("get_conventional","crystal/_conventional.py")],["return value of get_conventional"])
p("C04","Bravais lattice classification is the exact decision of the metric",
"For every crystal the HPKOT extended Bravais lattice symbol and the SC lattice variation are the ones that the conditions of the two conventions assign to the space group and to the metric of the conventional cell (angles and ratios of lengths), whenever the metric is not on the border between two variations. Exactly one of the documented names is returned.",
["inputs"],"all crystals of the 14 Bravais lattices, all metrics on either side of every border, any unit of length and any tolerances",
"Tests classify one example per symbol; the conditions are inequalities in three to six real parameters.",
["crystal/_hpkot_extended_bl_symbol.py","crystal/_sc_variation.py","constants/_space_groups.py"],
[("hpkot_get_extended_bl_symbol","crystal/_hpkot_extended_bl_symbol.py"),("sc_get_variation","crystal/_sc_variation.py")],
["return values of hpkot_get_extended_bl_symbol and sc_get_variation"])
p("C05","Standardisation does not depend on how the crystal is described",
"Two descriptions of one crystal (another choice of basis vectors, a supercell, a left-handed cell, a rotated crystal, another origin, order or periodic image of the atoms, other names for the same types, other tolerances of spglib that still resolve the same crystal) get the same space group, Bravais lattice symbol and variation, conventional and primitive cells with the same metric, the same k-path and the same high-symmetry points up to the rotation. Standardising the result again changes nothing.",
["inputs","histories"],"all crystals, all sequences of re-descriptions, all conventions",
"It is a relation between two runs; no test compares two descriptions of the same crystal.",
CR+["crystal/_hpkot_extended_bl_symbol.py","crystal/_sc_variation.py","kpoints/_path_and_points.py"],
[("get_conventional","crystal/_conventional.py"),("get_path_and_points","kpoints/_path_and_points.py")],
["return values of the crystal and kpoints functions on pairs of descriptions"])
p("C06","Every property of the atoms is carried to the standardised crystal",
"The conventional and primitive atoms have every key of the input atoms (user-defined ones included) plus spglib_types, each with one value per returned atom. The values attached to a returned atom are those of the last input atom of the same type, whatever kind of key defines the type, and the returned cell and atoms are accepted again as input.",
["inputs"],"all atoms dictionaries: any extra keys and values, any of spglib_types/species/names defining the type, all conventions and crystals",
"Tests check the presence of keys on a few examples and never distinguish the atoms of one type.",
CR+["crystal/_crystal_validation.py"],[("get_conventional","crystal/_conventional.py"),("get_primitive","crystal/_primitive.py")],
["atoms returned by get_conventional and get_primitive"])
p("C07","High-symmetry points are the convention's points in the given cell's basis",
"For every crystal the high-symmetry points are exactly those that the HPKOT or SC tables give for its lattice variation and metric, GAMMA being the origin, and every one of them lies in or on the first Brillouin zone (SC triclinic points and the unused point F3 of MCLC1 and MCLC2 excepted). Their relative coordinates refer to the reciprocal cell of the cell the user passed (not of the primitive or conventional one), the absolute ones to Cartesian axes of the input, and both are the same k-vectors.",
["inputs"],"all crystals of every lattice variation of both conventions, all descriptions, all metrics",
"About fifty tables whose entries are formulas of the lattice parameters; the tests only check that some path exists.",
["kpoints/_hpkot_points.py","kpoints/_sc_points.py","kpoints/_path_and_points.py"],
[("get_path_and_points","kpoints/_path_and_points.py")],["return value of get_path_and_points, Kpoints.from_crystal"])
p("C08","Suggested k-path is well formed, and extended only without inversion",
"For every crystal the suggested path is the one the convention lists for its lattice variation, uses only points that are defined together with it, and every defined point has a plot label. It is extended by its image under k -> -k (new points are exactly the negatives of the original ones) if and only if the crystal has no inversion symmetry and time reversal is switched off.",
["inputs","configurations"],"all crystals, conventions, both values of with_time_reversal",
"Tests look at few crystals; the extension and the tables of paths interact with every lattice variation.",
["kpoints/_path_and_points.py","constants/_hpkot_convention.py","constants/_sc_convention.py","constants/_kpoints.py","constants/_space_groups.py"],
[("get_path_and_points","kpoints/_path_and_points.py")],["return value of get_path_and_points","Kpoints.from_crystal"])
p("C09","K-path text and list forms are inverse to each other",
"Every non-empty list of subpaths of at least two points (non-empty names free of the separators) converts to a string and back to the same list, and every well-formed string converts to a list and back to the same string. A string with a subpath of fewer than two points is rejected with ValueError.",
["inputs"],"all paths: any number and length of subpaths, any names without separators; all strings over names and the two separators",
"Tests use a handful of strings.",["kpoints/_path_and_points.py"],
[("get_path_as_list","kpoints/_path_and_points.py"),("get_path_as_string","kpoints/_path_and_points.py")],
["wulfric.kpoints.get_path_as_list / get_path_as_string"])
p("C10","A Kpoints object stays consistent through any history of operations",
"After any sequence of adding and removing points, setting the path (as text or list), setting the number of intermediate points and copying - including rejected operations, which change nothing - the names, coordinates and labels of an object list the same points in insertion order, the path refers to defined points only, path and path string agree, and each value is the last one set. Names of points are unique: a constructor or an addition that would repeat one is rejected. Copies and the caller's own lists are independent of the object.",
["histories"],"all finite sequences of public operations on one or several Kpoints objects",
"The tests run short fixed sequences; consistency is a claim about every history.",["_kpoints_class.py"],
[("Kpoints","_kpoints_class.py")],["public attributes and methods of Kpoints after every operation"])
p("C11","Sampling along a k-path is consistent for plotting",
"For every Kpoints object there is exactly one tick per label, ticks start at zero and grow by the (relative or absolute) distance between neighbouring points of the path, with zero distance across a break of the path, where the two labels are joined. The sampled points are n+2 equidistant points per segment, ends included, and the flat coordinates of the sampled points are the distances travelled, so that they meet the ticks at the high-symmetry points.",
["inputs","histories"],"all reciprocal cells, points, paths with any breaks, all n >= 0, relative and absolute",
"Tests check one cubic example.",["_kpoints_class.py"],[("labels, ticks, points, flat_points","_kpoints_class.py")],
["Kpoints.labels, ticks, points, flat_points, hs_table"])
p("C12","Niggli reduction is complete, unique and keeps the lattice",
"For every non-degenerate cell both implementations terminate with a basis of the very same lattice and of the same handedness, whose metric satisfies all Niggli conditions, and which is the same for every basis of that lattice, any length unit from 0.05 to 100 and any orientation. A cell of zero volume is rejected with ValueError, an unknown implementation with ValueError.",
["inputs"],"all lattices (all 44 Niggli characters), all bases, scales and rotations",
"The tests reduce three cells; correctness is a fixed point over all bases and border cases of the metric.",["cell/_niggli.py"],
[("get_niggli","cell/_niggli.py")],["return value of wulfric.cell.get_niggli"])
p("C13","Comparisons with tolerance form one consistent order",
"For all pairs of numbers and tolerances exactly one of <, >, == holds, != is the negation of ==, <= and >= are < or == and > or ==, and numbers closer than the tolerance compare equal while others compare as usual; the default tolerance is atol + rtol*|y|. Any other condition is rejected with ValueError.",
["inputs"],"all numbers (incl. negative and zero) and tolerances",
"Tests sample some pairs.",["_numerical.py"],[("compare_with_tolerance","_numerical.py")],["wulfric.compare_with_tolerance"])
p("C14","Validation accepts exactly the well-formed atoms dictionaries",
"An atoms dictionary is accepted if and only if every documented requirement holds: all present keys have a length, the lengths are equal, the required keys are present, positions form an N x 3 array, names are strings, species are known chemical species or X, spglib types are integers not smaller than one. With raise_errors the documented exception type is raised, without it False is returned and nothing is raised; the dictionary is not changed.",
["inputs"],"all dictionaries: any combination of keys, lengths, element types and values",
"A decision over a product of conditions; tests cover the diagonal.",["crystal/_crystal_validation.py"],
[("validate_atoms","crystal/_crystal_validation.py")],["wulfric.crystal.validate_atoms"])
p("C15","Species and types are deduced by the documented rules",
"The species deduced from an atom's name is the chemical symbol contained in it (two-letter symbols win over one-letter ones, case does not matter), or the documented failure. Types follow the first of spglib_types, species, names that is present; two atoms get the same type if and only if they have the same identity under that rule.",
["inputs"],"all names, all combinations of keys, any order and repetition of atoms",
"Tests check a few names; the claim ranges over every text and table entry.",["crystal/_atoms.py","_spglib_interface.py","constants/_atoms.py"],
[("get_atom_species","crystal/_atoms.py"),("get_spglib_types","_spglib_interface.py")],
["wulfric.crystal.get_atom_species, wulfric.get_spglib_types"])
p("C16","Unique names are unique",
"For every list of names the returned names are pairwise different, one per atom, each made of the original name followed by digits, with either strategy. The repeated-only strategy leaves every name that occurs once as it is, and an unknown strategy is rejected with ValueError.",
["inputs"],"all lists of names, including names that end with digits or look like generated ones",
"Collisions need particular combinations of names.",["crystal/_atoms.py"],
[("get_unique_names","crystal/_atoms.py")],["wulfric.crystal.get_unique_names"])
p("C17","Moving atoms around never changes the crystal",
"Moving atoms to the 000 cell changes each coordinate by an integer and leaves it in [0, 1]; curing negative coordinates shifts all atoms by one common vector, minimal and only along axes that need it; centring atoms on a point shifts all atoms by one common vector that puts the middle of their extent at the requested (relative or absolute) point. Vectors and distances between atoms with lattice offsets agree with the cell, and antisymmetry and symmetry hold.",
["inputs","histories"],"all cells, positions (negative, far outside the cell), gravity points, orders of these operations",
"Tests check single examples.",["crystal/_basic_manipulation.py","crystal/_atoms.py"],
[("ensure_000, cure_negative, shift_atoms","crystal/_basic_manipulation.py"),("get_vector, get_distance","crystal/_atoms.py")],
["wulfric.crystal functions, positions in the atoms dictionary"])
p("C18","Cell algebra is self-consistent",
"For every non-degenerate cell the reciprocal cell is dual to it (scalar products 2 pi on the diagonal, 0 elsewhere) and its reciprocal is the cell again; lengths and angles of the cell built from six parameters are these parameters, and six parameters are refused exactly when no such cell exists. Volume, angles, scalar products, the transformation matrix between two cells and the list of lattice points agree with their definitions.",
["inputs"],"all cells, parameters and pairs of cells, both left- and right-handed",
"Property tests cover part of the parameter space with loose tolerances; several of the functions have no test.",
["cell/_basic_manipulation.py","geometry/_geometry.py"],
[("get_reciprocal, from_params, get_params, get_scalar_products, get_transformation_matrix, get_lattice_points","cell/_basic_manipulation.py"),("get_volume, get_angle, parallelepiped_check, get_spherical","geometry/_geometry.py")],
["wulfric.cell and wulfric.geometry functions"])
p("C19","Wigner-Seitz cells are exactly the points nearest to the origin",
"For every reasonably compact basis the polyhedron returned for a lattice is its Wigner-Seitz cell (its Brillouin zone when reciprocal): every vertex is at least as near to the origin as to any lattice point and equidistant to three or more independent ones, no vertex is missing or repeated, and the edges are exactly the pairs of vertices sharing an edge of the polyhedron, so vertices, edges and faces obey Euler's formula.",
["inputs"],"all lattices given by a basis whose Voronoi neighbours have coordinates within the searched range",
"No test computes a Voronoi cell of a general lattice.",["cell/_voronoi.py"],
[("get_wigner_seitz_cell","cell/_voronoi.py")],["wulfric.cell Voronoi functions"])
p("C20","POSCAR files written are read back as the same crystal",
"For every crystal, writing a POSCAR file (Direct or Cartesian, any number of decimals, any comment, atoms of one species not adjacent, path or open file) and reading it gives the same cell, the same positions of each species to the written precision, the same species and comment. What is written has the layout of the format: 1.0 scale, three vectors, species and counts lines that agree with the coordinate lines. Line breaks in a comment become blanks; names without a species and unknown modes are refused with ValueError.",
["inputs","histories"],"all cells, atoms, order of species, modes, decimals, comments; chains of write and read",
"Tests read fixed files; no test writes one.",["io/_vasp.py"],
[("dump_poscar, load_poscar","io/_vasp.py")],["files written by dump_poscar; return value of load_poscar"])
p("C21","POSCAR files are interpreted as the format defines",
"Every well-formed POSCAR text is read as the format says: a positive scale multiplies cell and Cartesian coordinates, a negative one gives the volume of the cell, three scales act on x, y and z; the species line is optional, selective-dynamics lines are skipped, D/d means Direct, C/c/K/k Cartesian, and counts expand species in order. Positions are returned relative to the cell, and trailing lines are ignored.",
["inputs"],"all POSCAR texts: every scale form, with and without species line, selective dynamics, mode letters, comments and trailing blocks",
"Tests read a few fixed files of the same form.",["io/_vasp.py"],[("load_poscar","io/_vasp.py")],["return value of load_poscar"])
p("C22","Symmetry data is an immutable snapshot and is never mismatched",
"Symmetry data once computed never changes, whatever the caller later does with the cell, atoms or any returned object, and its attributes cannot be reassigned. Passing it to the functions that accept it gives exactly the results of not passing it (with default tolerances); data of another cell, positions or types is refused with ValueError and objects of any other kind with TypeError.",
["histories"],"all interleavings of creating data, mutating inputs and results, and calling the functions that accept the data",
"Sharing of memory shows only after particular sequences of mutations.",["_spglib_interface.py","crystal/_conventional.py","crystal/_primitive.py"],
[("SpglibData","_spglib_interface.py"),("validate_spglib_data","_spglib_interface.py")],["SpglibData attributes; results of functions with spglib_data"])
p("C23","Functions leave their inputs alone and do not depend on history",
"No function changes the cell, atoms, path, points or other objects passed to it, except those documented to act in place; it returns the same result when called again in any order with other calls, whether array-likes are lists, tuples or arrays. Changing an object returned by a function never changes a later result or a constant of the library.",
["histories","inputs"],"all sequences of public calls, all array-like kinds, mutation of any returned object in between",
"A frame condition over all functions and histories, unobservable in single-call tests.",
["cell/_basic_manipulation.py","cell/_sc_examples.py","crystal/_atoms.py","crystal/_conventional.py","crystal/_primitive.py","kpoints/_path_and_points.py","kpoints/_hpkot_points.py","kpoints/_sc_points.py","io/_vasp.py"],
[("public API","__init__.py")],["arguments before and after; results of repeated calls"])
p("C24","Attribute access to atoms is the same dictionary",
"A dictionary with syntactic sugar reads, sets and deletes an entry through attribute and item access identically, keeps its keys, order and equality with the plain dictionary, for every key that is a name and not a method of dictionaries, and reports a missing entry with the exception of the syntax used. Adding and removing sugar gives independent dictionaries with the same entries (the values themselves are shared) and leaves the original as it was.",
["histories"],"all sequences of attribute and item operations, all string keys",
"Equivalence of two interfaces over every history.",["_syntactic_sugar.py"],
[("SyntacticSugar, add_sugar, remove_sugar","_syntactic_sugar.py")],["wulfric.add_sugar, remove_sugar and the object between them"])
p("C25","Figures show everything that was requested",
"After any sequence of plotting calls on any subplots the figure contains exactly the requested objects in the subplot they were requested for: each drawn cell is the right polyhedron of the given cell, atoms at their absolute positions, each subpath of the k-path through its points, and a legend entry only where a label was given. The axis ranges of a subplot include every point drawn in it and have equal scales, axes are hidden exactly in the figures they were asked to be hidden in, atoms of every chemical species can be drawn with the default colors.",
["histories","inputs"],"all sequences of plot calls, subplots, species, colors and labels",
"No test plots anything.",["_plotly_engine.py","constants/_atoms.py"],
[("PlotlyEngine","_plotly_engine.py")],["the plotly figure of the engine"])
p("C26","The tables of constants agree with crystallography and with each other",
"For every space group 1-230 the crystal family, centring and presence of inversion are the crystallographic ones and combine to one of the fourteen Bravais lattices, for each of which both conventions have names, transformation matrices and paths. Every point of every path has a plot label, labels are different for different points, and masses and colors exist for every species and have valid values.",
["inputs"],"all entries of all tables (230 space groups, 14 lattices, 54 variations, 118 species, all point names)",
"Tests check sizes and keys of the tables, not their content.",
["constants/_space_groups.py","constants/_bravais_lattices.py","constants/_hpkot_convention.py","constants/_sc_convention.py","constants/_kpoints.py","constants/_atoms.py"],
[("tables","constants/__init__.py")],["wulfric.constants"])
p("C27","Example structures are what their names say",
"For every documented name the example cell of an SC lattice variation or the example crystal of an HPKOT symbol is classified by the library under that very name (with inversion symmetry exactly when requested), for any letter case where names are case-insensitive. Unknown names and combinations without an example are refused with the documented exception. An example handed out is the caller's own: changing it does not change the next one. The constructors SC_* return the documented primitive cell for any parameters.",
["inputs","configurations"],"all names of both conventions, with and without inversion, letter cases, unknown names; all lengths and angles; histories of requests and changes",
"Tests classify part of the examples.",["cell/_sc_examples.py","crystal/_hpkot_examples/__init__.py"],
[("sc_get_example","cell/_sc_examples.py"),("hpkot_get_example","crystal/_hpkot_examples/__init__.py")],["wulfric.cell.sc_get_example, wulfric.crystal.hpkot_get_example"])
p("C28","A call means what it says: defaults, words and ways of writing it",
"For every public function with options, leaving an option out is the same as giving its documented default, and giving it by position (in the documented order) is the same as giving it by name. Words documented as case-insensitive (conventions, strategies, implementations, positions of the legend) are understood in any letter case, unknown words are refused with the documented exception, and no option that is given is ignored, also when functions call each other.",
["inputs","configurations"],"all public functions and methods with optional parameters, all subsets and orders of options given by position or keyword, all letter cases, unknown words",
"Tests call each function in one or two ways; a default or a forwarded option matters only on data where its values differ.",
["crystal/_conventional.py","crystal/_primitive.py","crystal/_atoms.py","crystal/_basic_manipulation.py","crystal/_crystal_validation.py","kpoints/_path_and_points.py","_kpoints_class.py","_plotly_engine.py","cell/_niggli.py","cell/_voronoi.py","cell/_basic_manipulation.py","geometry/_geometry.py","_numerical.py","io/_vasp.py","_spglib_interface.py"],
[("public API","__init__.py")],["results and exceptions of the public functions"])
p("C29","Input that is no crystal is refused, not computed with",
"Every function that works something out of a whole crystal or its atoms (conventional and primitive cells, symbol and variation, k-points and paths, symmetry data, types, species, unique names) gives a result only for input that is one: atoms that validate_atoms accepts, with the keys the function needs (names, positions, something to deduce types from), a cell of shape 3 x 3 with finite numbers and a volume, finite positions. Everything else is refused with ValueError or TypeError (RuntimeError for cells without volume), also when spglib_data is given, and never ends the interpreter. Valid input is accepted in every container (arrays, lists, tuples), and the input is left as it was.",
["inputs"],"all atoms dictionaries with any combination of faults, all cells of a wrong shape, type or value, coordinates that are no numbers, with and without spglib_data",
"Tests pass crystals; a function that stops checking its input is noticed only with input of the wrong kind.",
["crystal/_crystal_validation.py","crystal/_atoms.py","crystal/_conventional.py","crystal/_primitive.py","crystal/_hpkot_extended_bl_symbol.py","crystal/_sc_variation.py","_spglib_interface.py","kpoints/_path_and_points.py","_kpoints_class.py"],
[("validate_atoms","crystal/_crystal_validation.py"),("SpglibData","_spglib_interface.py"),("get_spglib_types","_spglib_interface.py")],
["results and exceptions of get_conventional, get_primitive, get_path_and_points, Kpoints.from_crystal, hpkot_get_extended_bl_symbol, sc_get_variation, get_spglib_data, SpglibData, get_spglib_types, get_unique_names, get_atoms_species"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
