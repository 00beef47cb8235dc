SPECIFICATION MSpec
CONSTANT Some = {"get_conventional", "get_path_and_points", "get_unique_names", "get_lattice_points", "dump_poscar", "show", "get_vector", "get_niggli", "from_crystal", "save", "get_spherical", "validate_atoms", "shift_atoms", "compare_with_tolerance", "add_hs_point", "Kpoints", "load_poscar", "plot_points", "plot_cell", "plot_atoms", "plot_kpoints", "from_params", "parallelepiped_check"}
CONSTANT Limit = 5
INVARIANT AlwaysLegal
INVARIANT MeansTheSame
INVARIANT NormalForm
CHECK_DEADLOCK FALSE
