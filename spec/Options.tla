------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Options of the public functions (C28).                                   *)
(*                                                                         *)
(* A call gives some parameters by position and others by keyword, and       *)
(* leaves out the rest.  What the call means is a value for every parameter: *)
(* the given one or the documented default.  How the call is written (what   *)
(* is left out, by position or by keyword, letter case of the words, an      *)
(* equivalent spelling of a value) is no part of its meaning.                *)
(*                                                                         *)
(* Values are texts; harness/c28.py says which objects they stand for.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LOCAL LowerOf == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i",
            J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r",
            S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
RECURSIVE Lower(_)
Lower(t) == IF t = "" THEN ""
            ELSE LET c == SubSeq(t, 1, 1) IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o Lower(SubSeq(t, 2, Len(t)))

(* ------------------------------- the table ------------------------------- *)
\* n: name, k: kind, d: documented default, v: values, s: another value gives
\* another result (of the data of the harness)
LOCAL P(n, k, d, v, s) == [n |-> n, k |-> k, d |-> d, v |-> v, s |-> s]
LOCAL R(n) == P(n, "required", "", {"$" \o n}, FALSE)
LOCAL W(n, d, v) == P(n, "word", d, v, TRUE)       \* a word in any letter case
LOCAL W0(n, d, v) == P(n, "word", d, v, FALSE)
LOCAL X(n, d, v) == P(n, "exact", d, v, TRUE)      \* a word in exactly this case
LOCAL X0(n, d, v) == P(n, "exact", d, v, FALSE)
LOCAL O(n, d, v) == P(n, "free", d, v, FALSE)
LOCAL S(n, d, v) == P(n, "free", d, v, TRUE)
LOCAL Flag(n, d) == S(n, d, {"True", "False"})
LOCAL Flag0(n, d) == O(n, d, {"True", "False"})
LOCAL Data == O("spglib_data", "None", {"None", "$data"})
LOCAL F(p, e) == [p |-> p, e |-> e]
LOCAL Conv3 == W("convention", "HPKOT", {"HPKOT", "SC", "spglib"})
LOCAL Conv2 == W("convention", "HPKOT", {"HPKOT", "SC"})
LOCAL CA == <<R("cell"), R("atoms")>>
LOCAL Black(n) == S(n, "#000000", {"#000000", "#12AB34"})
LOCAL Label == S("legend_label", "None", {"None", "text"})
LOCAL Group == S("legend_group", "None", {"None", "grp"})
LOCAL Place == <<S("row", "1", {"1", "2"}), S("col", "1", {"1", "2"})>>
LOCAL Shift == S("shift", "(0, 0, 0)", {"(0, 0, 0)", "[0, 0, 0]", "(0.0, 0.0, 0.0)", "(1, 2, 3)"})
LOCAL Scale == S("scale", "1", {"1", "1.0", "3"})
LOCAL Length == {"1.0", "1", "2.5"}
LOCAL Angle == {"90.0", "90", "80.0"}
LOCAL Legend == W("legend_position", "top", {"top", "bottom", "left", "right"})

Table == [
  get_conventional |-> F(CA \o <<Conv3, Data>>, "ConventionNotSupported"),
  get_primitive |-> F(CA \o <<Conv3, Data>>, "ConventionNotSupported"),
  get_path_and_points |-> F(CA \o <<Data, Conv2, Flag("with_time_reversal", "True"), Flag("relative", "True")>>, "ConventionNotSupported"),
  from_crystal |-> F(CA \o <<Conv2, Flag("with_time_reversal", "True"), S("n", "100", {"100", "7"}), Data>>, "ConventionNotSupported"),
  hpkot_get_extended_bl_symbol |-> F(CA \o <<Data>>, ""),
  sc_get_variation |-> F(CA \o <<Data>>, ""),
  get_spglib_data |-> F(CA \o <<S("spglib_symprec", "1e-5", {"1e-5", "1e-4"}), S("spglib_angle_tolerance", "-1", {"-1", "5"})>>, ""),
  SpglibData |-> F(CA \o <<S("spglib_symprec", "1e-5", {"1e-5", "1e-4"}), S("spglib_angle_tolerance", "-1", {"-1", "5"})>>, ""),
  get_unique_names |-> F(<<R("atoms"), W("strategy", "all", {"all", "repeated-only"})>>, "ValueError"),
  get_atom_species |-> F(<<R("name"), Flag("raise_on_fail", "False")>>, "*"),
  get_atoms_species |-> F(<<R("atoms"), Flag("raise_on_fail", "False")>>, "*"),
  validate_atoms |-> F(<<R("atoms"), O("required_keys", "None", {"None", "['names']", "['positions', 'other']"}), Flag("raise_errors", "True")>>, "*"),
  shift_atoms |-> F(<<R("atoms"), O("gravity_point", "(0.5, 0.5, 0.5)", {"(0.5, 0.5, 0.5)", "[0.5, 0.5, 0.5]", "(1, 2, 3)"}),
                     O("cell", "None", {"None", "$cell"}), O("gp_is_relative", "True", {"True", "False"})>>, "*"),
  get_vector |-> F(CA \o <<R("atom1"), R("atom2"), S("R", "(0, 0, 0)", {"(0, 0, 0)", "[0, 0, 0]", "(1, 2, 3)"}), Flag("return_relative", "False")>>, ""),
  get_distance |-> F(CA \o <<R("atom1"), R("atom2"), S("R", "(0, 0, 0)", {"(0, 0, 0)", "[0, 0, 0]", "(1, 2, 3)"})>>, ""),
  hpkot_get_example |-> F(<<R("extended_bl_symbol"), Flag("with_inversion", "False")>>, "*"),
  get_niggli |-> F(<<R("cell"), O("eps_relative", "1e-5", {"1e-5", "1e-2"}), W0("implementation", "spglib", {"spglib", "wulfric"}),
                    O("max_iterations", "100000", {"100000", "2"})>>, "ValueError"),
  get_lattice_points |-> F(<<R("cell"), S("range", "(1, 1, 1)", {"(1, 1, 1)", "[1, 1, 1]", "(2, 0, 1)"}), Flag("relative", "False"), Flag("flat", "True")>>, ""),
  from_params |-> F(<<S("a", "1.0", Length), S("b", "1.0", Length), S("c", "1.0", Length),
                     S("alpha", "90.0", Angle), S("beta", "90.0", Angle), S("gamma", "90.0", Angle)>>, ""),
  SC_TRI |-> F(<<R("a"), R("b"), R("c"), R("alpha"), R("beta"), R("gamma"), Flag("input_reciprocal", "False")>>, ""),
  get_angle |-> F(<<R("v1"), R("v2"), Flag("radians", "False")>>, ""),
  get_spherical |-> F(<<R("vector"), Flag("in_degrees", "True"), S("polar_axis", "[0, 0, 1]", {"[0, 0, 1]", "(0, 0, 1)", "[0, 1, 0]"}),
                       S("radial_line_zero", "[1, 0, 0]", {"[1, 0, 0]", "(1, 0, 0)", "[-1, 0, 0]"})>>, ""),
  parallelepiped_check |-> F(<<R("a"), R("b"), R("c"), R("alpha"), R("beta"), R("gamma"), Flag("raise_error", "False"),
                              S("length_tolerance", "1e-8", {"1e-8", "1e-2"}), S("angle_tolerance", "1e-4", {"1e-4", "1.0"})>>, "*"),
  compare_with_tolerance |-> F(<<R("x"), X0("condition", "", {"<", ">", "<=", ">=", "==", "!="}), R("y"),
                                S("eps", "None", {"None", "0", "1e-3"}), O("rtol", "1e-5", {"1e-5", "1e-3"}), O("atol", "1e-8", {"1e-8", "1e-2"})>>, "ValueError"),
  dump_poscar |-> F(CA \o <<S("file_object", "POSCAR", {"POSCAR", "out.vasp"}), O("comment", "None", {"None", "a text"}),
                           S("decimals", "8", {"8", "4"}), X("mode", "Direct", {"Direct", "Cartesian"})>>, "ValueError"),
  load_poscar |-> F(<<S("file_object", "None", {"None", "POSCAR", ".", "other"})>>, ""),
  Kpoints |-> F(<<R("rcell"), S("coordinates", "None", {"$coordinates"}), S("names", "None", {"None", "$names"}),
                 O("labels", "None", {"None", "['x', 'y', 'z']", "['p', 'q', 'r']"}), O("path", "None", {"None"}), S("n", "100", {"100", "7"})>>, ""),
  add_hs_point |-> F(<<R("name"), R("coordinate"), S("label", "None", {"None", "text"}), Flag("relative", "True")>>, ""),
  ticks |-> F(<<Flag("relative", "False")>>, ""),
  points |-> F(<<Flag("relative", "False")>>, ""),
  flat_points |-> F(<<Flag("relative", "False")>>, ""),
  hs_table |-> F(<<S("decimals", "8", {"8", "3"})>>, ""),
  PlotlyEngine |-> F(<<O("fig", "None", {"None"}), O("_sphinx_gallery_fix", "False", {"False"}), S("rows", "1", {"1", "3"}), S("cols", "1", {"1", "3"})>>, ""),
  show |-> F(<<Flag("axes_visible", "True"), Legend>>, "ValueError"),
  save |-> F(<<S("output_name", "wulfric-plot.html", {"wulfric-plot.html", "out.html"}), Flag("axes_visible", "True"), Legend>>, "ValueError"),
  plot_points |-> F(<<R("points"), Black("colors"), Label, Group, Scale>> \o Place, ""),
  plot_line |-> F(<<R("start_point"), R("end_point"), Black("color"), Label, Group>> \o Place, ""),
  plot_vector |-> F(<<R("start_point"), R("end_point"), Black("color"), S("vector_label", "None", {"None", "text"}), Label, Group>> \o Place, ""),
  plot_cell |-> F(<<R("cell"), Black("color"), Flag("plot_vectors", "True"), O("vector_label", "a", {"a", "q"}), Shift, Label, Group>> \o Place, ""),
  plot_wigner_seitz_cell |-> F(<<R("cell"), Flag("plot_vectors", "True"), O("vector_label", "a", {"a", "q"}), Black("color"), Shift, Label, Group>> \o Place, ""),
  plot_brillouin_zone |-> F(<<R("cell"), Flag("plot_vectors", "True"), O("vector_label", "b", {"b", "q"}),
                             S("color", "#FF4D67", {"#FF4D67", "#12AB34"}), Shift, Label, Group>> \o Place, ""),
  plot_kpath |-> F(<<R("kp"), Black("color"), Shift, Label, Group>> \o Place, ""),
  plot_kpoints |-> F(<<R("kp"), Black("color"), Shift, Label, Group, Scale, Flag("only_from_kpath", "False")>> \o Place, ""),
  plot_lattice |-> F(<<R("cell"), Black("color"), S("range", "(1, 1, 1)", {"(1, 1, 1)", "[1, 1, 1]", "(2, 0, 1)"}), Shift, Label, Group>> \o Place, ""),
  plot_atoms |-> F(<<R("cell"), R("atoms"), S("colors", "None", {"None", "#12AB34"}), Label, Group, Shift, Scale, Flag0("add_hoverinfo", "True")>> \o Place, "")
]
Functions == DOMAIN Table
Pars(f) == Table[f].p
\* "*": no words; the answer may be an exception
ExcOf(f) == Table[f].e
MayRaise == {f \in Functions : Table[f].e = "*"} \cup {"get_niggli"}

(* --------------------------- values and meaning --------------------------- *)
Unknown == "?"
\* equivalent spellings of a value
Plain(t) ==
  CASE t \in {"[0, 0, 0]", "(0.0, 0.0, 0.0)"} -> "(0, 0, 0)"
    [] t = "[1, 1, 1]" -> "(1, 1, 1)" [] t = "(0, 0, 1)" -> "[0, 0, 1]" [] t = "(1, 0, 0)" -> "[1, 0, 0]"
    [] t = "[0.5, 0.5, 0.5]" -> "(0.5, 0.5, 0.5)" [] t = "1.0" -> "1" [] t = "90.0" -> "90"
    [] t = "$data" -> "None"           \* symmetry data of the same crystal with default tolerances
    [] OTHER -> t
\* values that mean what is given when nothing is given
PlainOf(f, p, t) ==
  CASE f = "load_poscar" /\ t \in {"POSCAR", "."} -> "None"
    [] OTHER -> Plain(t)
Canonical(f, p, t) ==
  CASE p.k = "word" -> IF \E v \in p.v : Lower(v) = Lower(t) THEN CHOOSE v \in p.v : Lower(v) = Lower(t) ELSE Unknown
    [] p.k = "exact" -> IF t \in p.v THEN t ELSE Unknown
    [] OTHER -> PlainOf(f, p, t)

\* a call: [f, pos: sequence of values, kw: set of <<name, value>>]
Names(f) == {Pars(f)[i].n : i \in DOMAIN Pars(f)}
KwNames(c) == {x[1] : x \in c.kw}
Given(c, i) == i <= Len(c.pos) \/ Pars(c.f)[i].n \in KwNames(c)
ValueAt(c, i) ==
  IF i <= Len(c.pos) THEN c.pos[i]
  ELSE IF Given(c, i) THEN (CHOOSE x \in c.kw : x[1] = Pars(c.f)[i].n)[2]
  ELSE Pars(c.f)[i].d
Legal(c) ==
  /\ Len(c.pos) <= Len(Pars(c.f))
  /\ KwNames(c) \subseteq {Pars(c.f)[i].n : i \in Len(c.pos) + 1..Len(Pars(c.f))}
  /\ Cardinality(c.kw) = Cardinality(KwNames(c))
  /\ \A i \in DOMAIN Pars(c.f) : Given(c, i) \/ (Pars(c.f)[i].k # "required" /\ (Pars(c.f)[i].d # ""))
Meaning(c) == [i \in DOMAIN Pars(c.f) |-> Canonical(c.f, Pars(c.f)[i], ValueAt(c, i))]
IsRefused(c) == \E i \in DOMAIN Pars(c.f) : Meaning(c)[i] = Unknown

(* ------------------------ writing a call differently ---------------------- *)
NPos(c) == Len(c.pos)
NPar(c) == Len(Pars(c.f))
ByKw(c, i) == i > NPos(c) /\ Given(c, i)
KwVal(c, i) == <<Pars(c.f)[i].n, ValueAt(c, i)>>
\* a parameter by keyword that has the default value is left out
CanOmit(c, i) == ByKw(c, i) /\ Pars(c.f)[i].k # "required" /\ Pars(c.f)[i].d # ""
                 /\ Canonical(c.f, Pars(c.f)[i], ValueAt(c, i)) = Canonical(c.f, Pars(c.f)[i], Pars(c.f)[i].d)
DoOmit(c, i) == [c EXCEPT !.kw = @ \ {KwVal(c, i)}]
CanAdd(c, i) == ~Given(c, i)
DoAdd(c, i) == [c EXCEPT !.kw = @ \cup {<<Pars(c.f)[i].n, Pars(c.f)[i].d>>}]
\* the next parameter is given by position instead of by keyword, and back
CanPos(c) == NPos(c) < NPar(c) /\ Given(c, NPos(c) + 1)
DoPos(c) == [c EXCEPT !.pos = Append(@, ValueAt(c, NPos(c) + 1)), !.kw = @ \ {KwVal(c, NPos(c) + 1)}]
CanKw(c) == NPos(c) > 0
DoKw(c) == [c EXCEPT !.pos = SubSeq(@, 1, Len(@) - 1), !.kw = @ \cup {<<Pars(c.f)[Len(c.pos)].n, c.pos[Len(c.pos)]>>}]
\* a given parameter gets another text
DoSet(c, i, t) ==
  IF i <= NPos(c) THEN [c EXCEPT !.pos[i] = t]
  ELSE [c EXCEPT !.kw = {x \in @ : x[1] # Pars(c.f)[i].n} \cup {<<Pars(c.f)[i].n, t>>}]
\* the shortest way to say it with nothing but what is required
First(f) == [f |-> f, pos |-> <<>>,
             kw |-> {<<Pars(f)[i].n, CHOOSE t \in Pars(f)[i].v : TRUE>> : i \in {j \in DOMAIN Pars(f) : Pars(f)[j].d = "" \/ (f = "Kpoints" /\ j = 2)}}]
=============================================================================
