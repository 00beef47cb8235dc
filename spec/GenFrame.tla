------------------------------ MODULE GenFrame ------------------------------
EXTENDS Frame, TLC, Json
CONSTANT Depth
\* pal: the few functions this history is about, so that one meets several inputs
VARIABLES s, hist, pal
Pick(S) == {RandomElement(S)}
Funs == {"get_reciprocal", "from_params", "get_params", "get_scalar_products", "get_transformation_matrix", "get_niggli", "get_niggli_wulfric",
  "get_lattice_points", "get_lattice_points_abs", "get_wigner_seitz_cell", "get_brillouin_zone", "sc_get_example", "SC_cell",
  "get_distance", "get_vector", "get_atom_species", "get_atoms_species", "get_unique_names", "hpkot_get_example",
  "conv-HPKOT", "conv-SC", "conv-spglib", "prim-HPKOT", "prim-SC", "prim-spglib", "symbol", "variation", "validate_atoms",
  "shift_atoms", "cure_negative", "ensure_000", "get_volume", "get_angle", "get_spherical", "parallelepiped_check",
  "path-HPKOT", "path-SC", "path-HPKOT-notr", "path-SC-notr", "path-HPKOT-notr", "path-SC-notr", "get_path_as_list", "get_path_as_string",
  "kpoints-HPKOT", "kpoints-SC", "kpoints-notr", "Kpoints", "dump_poscar", "load_poscar", "compare", "get_spglib_data", "get_spglib_types",
  "validate_spglib_data", "add_sugar", "remove_sugar", "lepage", "data-conv", "data-prim", "data-tol", "tol-conv", "tol-path"}
NeedCrystal == {f \in Funs : Len(f) >= 5 /\ SubSeq(f, 1, 5) \in {"conv-", "prim-", "path-", "kpoin", "data-", "tol-c", "tol-p", "symbo", "varia"}}
Op(d) == IF d = 1 THEN [op |-> "spoil"]
         ELSE IF d = 2 THEN [op |-> "form", i |-> RandomElement(1..2), form |-> RandomElement({"array", "list", "tuple", "readonly", "fortran"}),
                             keys |-> RandomElement({"types", "names", "species", "all"})]
         ELSE IF d = 3 THEN [op |-> "change", i |-> RandomElement(1..2), what |-> RandomElement({"cell", "positions"})]
         ELSE [op |-> "call", f |-> RandomElement(pal), i |-> RandomElement(1..2), v |-> RandomElement(0..5)]
GInit == s = Start /\ hist = <<>> /\ pal = {}
GNext == /\ Len(hist) < Depth
         /\ \E a \in Pick(Funs) : \E b \in Pick(Funs) : \E c \in Pick(Funs) : \E e \in Pick(Funs) : \E g \in Pick(NeedCrystal) : \E h \in Pick(NeedCrystal) :
              pal' = IF pal # {} THEN pal ELSE {a, b, c, e, g, h}
         /\ \E d \in Pick(IF pal = {} THEN {1, 2} ELSE 1..9) : \E op \in {TLCEval(Op(d))} :
              /\ hist' = Append(hist, op)
              /\ s' = CASE op.op = "spoil" -> Spoil(s) [] op.op = "form" -> s [] op.op = "change" -> Change(s, op.i) [] op.op = "call" -> Call(s, op.f, op.i)
GSpec == GInit /\ [][GNext]_<<s, hist, pal>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
