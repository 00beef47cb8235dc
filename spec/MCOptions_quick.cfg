SPECIFICATION MSpec
CONSTANT Some = {"get_conventional", "get_unique_names", "get_lattice_points", "dump_poscar", "show", "get_vector"}
CONSTANT Limit = 4
INVARIANT AlwaysLegal
INVARIANT MeansTheSame
INVARIANT NormalForm
CHECK_DEADLOCK FALSE
