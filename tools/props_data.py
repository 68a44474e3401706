"""Single source of properties.jsonl and MANIFEST.json (see gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note, na=na, state=state, observe=observe))


IN = ["inputs"]
IC = ["inputs", "configurations"]

prop(
    "S01", "Imaginary self-energy equals the third-order perturbation formula",
    "For any frequencies, interaction strengths, integration weights, triplet weights and temperature (including 0 K), the imaginary self-energy reported per band, or per frequency point, equals the unit-converted sum over triplets and band pairs of the Bose-factor expression (n1+n2+1) g1 + (n1-n2) g2. Terms whose phonon frequencies are not above the cutoff, or whose integration weight is flagged zero, contribute nothing; results are averaged over degenerate bands; selecting a scattering class keeps only its weight channel.",
    IC, "all real frequencies, strengths, weights, temperatures and cutoffs; all zero-flag patterns; band subsets; band and frequency-point modes",
    "Tests compare a few numbers for a few crystals at 300 K; skipped terms, 0 K, cutoff edges, band subsets and zero patterns are hardly sampled.",
    ["phono3py/phonon3/imag_self_energy.py", "c/imag_self_energy_with_g.c", "c/funcs.c", "c/_phono3py.cpp"],
    [("sum over triplets and bands", "c/imag_self_energy_with_g.c:ise_get_imag_self_energy_with_g"), ("driver", "phono3py/phonon3/imag_self_energy.py:ImagSelfEnergy.run")],
    note="exact real arithmetic; <=3 bands, <=2 triplets, <=3 frequency points; weights and strengths arbitrary (their own contracts are other properties)",
)
prop(
    "S02", "Detailed self-energy decomposes the total; N and U parts sum to it",
    "The triplet- and band-resolved imaginary self-energy holds exactly the unweighted term of each triplet and band pair, so that its triplet-weighted sum is the total. The Normal and Umklapp parts assign each triplet by whether its three addresses sum to zero, and add up to the total.",
    IC, "all real inputs, all integer triplet addresses in [-2,2], all temperatures, zero patterns",
    "Tests sample fixed crystals at fixed grid points, where most triplets never contribute.",
    ["phono3py/phonon3/imag_self_energy.py", "c/imag_self_energy_with_g.c"],
    [("detailed kernel", "c/imag_self_energy_with_g.c:ise_get_detailed_imag_self_energy_with_g"), ("N/U split", "phono3py/phonon3/imag_self_energy.py:ImagSelfEnergy._run_c_detailed_with_band_indices_with_g")],
    note="exact real arithmetic; <=2 bands, <=2 triplets",
)
GRID = ["phono3py/phonon/grid.py", "c/grgrid.c", "c/_phono3py.cpp"]
prop(
    "G01", "Grid addresses and grid-point indices are mutually inverse and periodic",
    "For every mesh, an address maps to one index in [0, number of mesh points), equal for two addresses exactly when they differ by whole mesh periods, and the tabulated address of index j maps back to j. Looking up a grid point of the Brillouin-zone grid by address returns a point equivalent to that address modulo the mesh, for one address or a list of them.",
    IC, "all integer addresses and mesh numbers in bounds; negative addresses; one or several addresses; both map types",
    "Tests compare stored index lists of a few meshes.",
    GRID, [("index from address", "c/grgrid.c:grg_get_grid_index"), ("Python interface", "phono3py/phonon/grid.py:get_grid_point_from_address"), ("BZ lookup", "phono3py/phonon/grid.py:BZGrid.get_indices_from_addresses")],
    note="mesh numbers <=3 (thorough <=4) per axis, addresses within [-7,7]",
)
prop(
    "G02", "Generalized grid: Smith form and rotations on the grid are exact",
    "For every nonsingular integer grid matrix with positive determinant the integer decomposition satisfies P A Q = diag(D) with D positive and det P = det Q = 1; singular matrices are refused. Rotations transferred to the grid are exactly the conjugated integer matrices, and are refused exactly when they would not be integer; the reciprocal point group is the set of transposed rotations, each once, doubled by inversion only when time reversal is requested. A grid transformation that is not an integer matrix is refused.",
    IC, "all integer matrices within bounds; forced and natural decompositions; with and without time reversal",
    "Tests decompose a handful of matrices of high-symmetry crystals.",
    GRID + ["c/snf3x3.c"], [("Smith normal form", "c/snf3x3.c:snf3x3"), ("transform rotations", "c/grgrid.c:grg_transform_rotations"), ("reciprocal operations", "c/grgrid.c:grg_get_reciprocal_point_group"), ("grid matrix", "phono3py/phonon/grid.py:GridMatrix")],
    note="integer matrices with 2-7 free entries in small ranges, paths per distinct control flow and entry value",
)
prop(
    "G03", "Irreducible grid points are the orbits of the rotations on the grid",
    "For every mesh compatible with the rotation group, the map of grid points sends each point to the smallest index in its orbit under the rotations, including half-shifted grids; the irreducible points are the images and their weights count the orbit members, adding up to the number of mesh points.",
    IC, "all meshes in bounds compatible with the group; cubic, hexagonal, tetragonal, trigonal, monoclinic, triclinic and oblique-setting groups; all half shifts",
    "Tests check totals for a few crystals on one mesh.",
    GRID, [("ir map", "c/grgrid.c:grg_get_ir_grid_map"), ("driver", "phono3py/phonon/grid.py:get_ir_grid_points")],
    note="14 groups, mesh numbers <=4; shifts in [-1,2]",
)
prop(
    "G04", "Brillouin-zone grid holds exactly the shortest equivalents of every point",
    "For every lattice in bounds the Brillouin-zone grid contains, for each grid point, exactly its translationally equivalent addresses of minimal length (within the tolerance), each once; maps between the two grids, dense and sparse, are mutually consistent. Holds for lattices given in unreduced bases, with grid basis changes, and for half-shifted grids.",
    IC, "all lattice parameters in the stated families, including the degenerate ones at which points sit on zone faces",
    "Tests sample fixed crystals; degenerate and nearly degenerate lattices decide which points lie on the surface.",
    GRID + ["c/bzgrid.c"], [("shortest addresses", "c/bzgrid.c:bzg_get_bz_grid_addresses"), ("driver", "phono3py/phonon/grid.py:_relocate_BZ_grid_address")],
    note="lattice parameters symbolic reals in ranges, meshes up to 2x2x2 / 1x2x3; lattice reduction is a stub (reduced basis given)",
)
prop(
    "G05", "Rotated grid points are at the rotated q-points",
    "For every grid point and every rotation of the crystal's reciprocal point group, the rotated grid point reported lies at the rotated q-point: exactly, when surface points are resolved, and modulo a reciprocal lattice vector at the representative point otherwise. Compiled and Python implementations agree, for regular, generalized and half-shifted grids and both map types.",
    IC, "all grid points, all rotations of the lattice point groups of five lattices, several meshes, shifts and map types",
    "Tests sample unshifted grids of two crystals.",
    GRID + ["c/bzgrid.c"], [("rotation in the BZ", "c/bzgrid.c:bzg_rotate_grid_index"), ("driver", "phono3py/phonon/grid.py:get_grid_points_by_rotations")],
    note="fixed lattices and meshes, every grid point and rotation; symbolic rotation entries on one orthorhombic grid",
)
prop(
    "T01", "Triplets at a grid point conserve momentum, are complete, and are weighted",
    "For every grid point, the triplets reported cover each second point exactly once up to the little group and, when allowed, the exchange of the second and third member: weights count the merged triplets and add up to the number of mesh points. Every triplet starts at the grid point and its q-points sum to a reciprocal lattice vector, to zero whenever equivalent points exist that do; without symmetry all triplets are listed with weight one.",
    IC, "all grid points including zone-surface ones, with and without exchange and time reversal, polar and centrosymmetric groups, regular and generalized grids, both map types",
    "Tests compare stored lists at two grid points of two crystals.",
    ["phono3py/phonon3/triplets.py", "c/triplet_grid.c", "c/bzgrid.c"], [("symmetry reduction", "c/triplet_grid.c:tpk_get_ir_triplets_at_q"), ("choice of equivalents", "c/triplet_grid.c:tpk_get_BZ_triplets_at_q"), ("driver", "phono3py/phonon3/triplets.py:get_triplets_at_q")],
    note="fixed lattices, meshes <=3, every grid point; the length of Umklapp sums is a known finding",
)
TM = ["c/tetrahedron_method.c", "phono3py/other/tetrahedron_method.py", "c/_phono3py.cpp"]
prop(
    "W01", "Tetrahedron integration weights are the exact linear-interpolation integrals",
    "For all vertex frequencies in any order, including equal ones, and any sampling frequency not equal to a vertex frequency, the tetrahedron weight of a grid point equals the exact integral over the linearly interpolated tetrahedra sharing that point (delta-function and step-function versions); the step version goes from 0 to 1. The tetrahedra are the 24 around a grid point that share the shortest main diagonal; their neighbouring grid points lie at the addressed points or at equivalents; frequencies known at irreducible points only are looked up through the irreducible map.",
    IC, "all real vertex and sampling frequencies in the stated ranges; all orderings and coincidence patterns; four lattices; all grid points",
    "Tests compare a density of states; the weight is piecewise rational with special cases that few sampled points meet.",
    TM + ["phono3py/phonon/grid.py"], [("weight", "c/tetrahedron_method.c:thm_get_integration_weight"), ("relative addresses", "c/tetrahedron_method.c:thm_get_relative_grid_address"), ("neighbours", "c/triplet_iw.c:tpi_get_neighboring_grid_points")],
    note="exact real arithmetic; sampling at exactly a vertex frequency is a known finding",
)
prop(
    "W02", "Triplet integration weights combine the right phonons at the right points",
    "The tetrahedron weights of a triplet are, for every frequency point and band pair, the weights of w - f1 - f2, the difference of those of w + f1 - f2 and w - f1 + f2, and, for collision matrices, their sum, with the second phonon at q2 and the third at -q-q2 when the tetrahedron is traversed. Negative frequencies count as zero, and the zero flag is set exactly where all weights vanish.",
    IC, "all real frequencies of the varied vertices, frequency points and triplets; imaginary modes; several bands",
    "Tests only compare final self-energies of fixed crystals.",
    ["phono3py/phonon3/triplets.py", "c/triplet_iw.c", "c/tetrahedron_method.c"], [("weights", "c/triplet_iw.c:tpi_get_integration_weight"), ("driver", "phono3py/phonon3/triplets.py:get_triplets_integration_weights")],
    note="one or two vertex frequencies symbolic at a time, the others fixed",
)
prop(
    "W03", "Gaussian smearing weights and their cutoff",
    "With a smearing width the weights of a triplet are normalised Gaussians of w - f1 - f2, the difference of those of w + f1 - f2 and w - f1 + f2, and, for collision matrices, their sum. With a cutoff the weights of a band pair are zero, and flagged zero, exactly when all three arguments lie beyond cutoff times width. Compiled and Python versions agree.",
    IC, "all real frequencies, frequency points, widths and cutoffs",
    "Tests sample one width and cutoff with one crystal.",
    ["phono3py/phonon3/triplets.py", "c/triplet_iw.c", "phono3py/phonon/func.py"], [("weights", "c/triplet_iw.c:tpi_get_integration_weight_with_sigma"), ("driver", "phono3py/phonon3/triplets.py:get_triplets_integration_weights")],
    note="exact real arithmetic; <=2 bands, <=2 triplets, <=2 frequency points; at least one positive width",
)
INT = ["c/interaction.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c", "phono3py/phonon3/interaction.py", "c/_phono3py.cpp"]
prop(
    "I01", "Interaction strength is |Phi|^2/(f0 f1 f2) of the transformed force constants",
    "For every triplet, band triple, force constants, shortest vectors with multiplicities, eigenvectors, masses and frequencies, the interaction strength equals the unit-converted squared modulus of the mass-weighted contraction of eigenvectors with the Fourier transform of the third-order force constants (phases averaged over equidistant vectors, reciprocal-lattice prefactor included), divided by the three frequencies. It is zero if a frequency is not above the cutoff; entries flagged zero stay zero; band subsets, compact force constants, frequency scaling and the constant-averaged mode are respected; the Python implementation agrees.",
    IC, "all real force constants, vectors, eigenvectors, masses and frequencies of the stated shapes; zero flags; band subsets; compact and full; normal and Umklapp triplets; generalized grids",
    "Tests compare sums of strengths of three crystals, in which symmetric errors and rare branches vanish.",
    INT + ["phono3py/phonon3/real_to_reciprocal.py", "phono3py/phonon3/reciprocal_to_normal.py"], [("Fourier transform", "c/real_to_reciprocal.c:r2r_real_to_reciprocal"), ("normal coordinates", "c/reciprocal_to_normal.c:reciprocal_to_normal_squared"), ("driver", "phono3py/phonon3/interaction.py:Interaction.run")],
    note="exact real arithmetic; <=2 atoms in the primitive cell, <=4 in the supercell; fc3/vectors, eigenvectors of one point, or masses/frequencies symbolic per slice; Python version on conventional grids",
)
prop(
    "I02", "Exchange-symmetrized and reference-averaged interaction strengths",
    "With symmetrization in reciprocal space the strength of every band triple is the mean over the six exchanges of the three phonons, also for band subsets and when zero flags are given. With reference averaging the transformed force constants are the mean over the three choices of reference atom, where triples of atoms whose three vectors are all shortest are counted in one choice with weight three; those triples are exactly the ones with single shortest vectors and equal distances.",
    IC, "all real force constants, vectors and eigenvectors of the stated shapes; all flag tables; band subsets; compact and full",
    "Tests use these options for sums over one crystal with all bands.",
    INT, [("exchanges", "c/interaction.c:real_to_normal_sym_q"), ("reference average", "c/real_to_reciprocal.c:real_to_reciprocal_r0_average"), ("all-shortest flags", "phono3py/phonon3/interaction.py:Interaction._get_all_shortest")],
    note="exact real arithmetic; <=2 atoms in the primitive cell, <=4 in the supercell",
)
prop(
    "S03", "Real self-energy equals the third-order formula; Kramers-Kronig sums are exact",
    "The frequency shift per band or per frequency point equals the unit-converted sum over triplets and band pairs of the four principal-value terms broadened by epsilon with their Bose factors (two terms at 0 K), with modes not above the cutoff left out, zero below the cutoff, averaged over degenerate bands, in the compiled and Python versions, and for every epsilon, temperature and grid point requested together. The conversion of an imaginary part to a real part is the discrete Kramers-Kronig sum of its odd extension, and non-uniform frequencies are refused.",
    IC, "all real frequencies, strengths, widths, temperatures, cutoffs and frequency points; band subsets; both implementations",
    "Tests compare a few shifts of one crystal; the sign structure and skipped terms are hardly sampled.",
    ["phono3py/phonon3/real_self_energy.py", "c/real_self_energy.c", "c/_phono3py.cpp"],
    [("compiled sums", "c/real_self_energy.c:get_real_self_energy_at_band"), ("class", "phono3py/phonon3/real_self_energy.py:RealSelfEnergy"), ("Kramers-Kronig", "phono3py/phonon3/real_self_energy.py:ImagToReal"), ("loop", "phono3py/phonon3/real_self_energy.py:get_real_self_energy")],
    note="exact real arithmetic; <=3 bands, <=2 triplets, <=3 frequency points; strengths arbitrary",
)
prop(
    "S04", "Self-energy requests over widths, temperatures, points and batches are complete",
    "A request for imaginary self-energies over several smearing widths, temperatures, grid points and frequency points returns for each combination exactly the value of that combination, whatever the division of frequency points into batches, together with the detailed values when requested; default frequency points are evenly spaced from zero to twice the highest frequency plus four widths; batches cover all frequency points once.",
    IC, "all strengths, weights, temperatures; 1-3 batches; both widths and tetrahedra; scattering event classes; detailed results",
    "Tests run one width and one temperature and compare a few numbers.",
    ["phono3py/phonon3/imag_self_energy.py"],
    [("loop", "phono3py/phonon3/imag_self_energy.py:get_imag_self_energy"), ("batches", "phono3py/phonon3/imag_self_energy.py:run_ise_at_frequency_points_batch")],
    note="exact real arithmetic; 2 widths, 2 temperatures, 2 grid points, <=4 frequency points, batches <=12",
)
prop(
    "S05", "The low-memory collision kernel equals weights, strengths and sums combined",
    "The fused kernel that accumulates collisions triplet by triplet returns for every temperature and band exactly what computing integration weights, interaction strengths and imaginary self-energies separately returns, for tetrahedra and smearing with or without cutoff, for the total or for Normal and Umklapp parts, and whatever averaging, band subset, force-constants layout and thread distribution are chosen.",
    IC, "varied frequencies, force constants, widths, cutoffs and temperatures; symmetrization and averaging options; compact force constants; band subsets",
    "Tests compare final conductivities, for which one of the two routes runs.",
    ["c/pp_collision.c", "c/interaction.c", "c/imag_self_energy_with_g.c", "c/triplet_iw.c", "c/_phono3py.cpp"],
    [("fused kernel", "c/pp_collision.c:ppc_get_pp_collision"), ("smearing version", "c/pp_collision.c:ppc_get_pp_collision_with_sigma"), ("Normal and Umklapp sums", "c/pp_collision.c:finalize_ise")],
    note="exact real arithmetic; mesh 2x2x1, <=4 triplets, <=2 atoms; the separate kernels are the subject of S01, W02, W03, I01, I02",
)
prop(
    "J01", "Joint density of states equals the weighted sums of integration weights",
    "The joint density of states per frequency point is, divided by the number of mesh points, the triplet-weighted sum over band pairs of the weights of w - f1 - f2, and of w + f1 - f2 plus w - f1 + f2; with a temperature the sums carry n1+n2+1 and n1-n2 and leave out modes not above the cutoff. A request over widths, temperatures and batches returns and writes every combination.",
    IC, "all real frequencies, weights, frequency points and temperatures; with and without symmetry; both implementations; batches",
    "Tests compare one spectrum of one crystal at a fixed temperature.",
    ["phono3py/phonon3/joint_dos.py", "phono3py/api_jointdos.py", "c/imag_self_energy_with_g.c", "phono3py/file_IO.py"],
    [("sums", "phono3py/phonon3/joint_dos.py:JointDos.run_jdos"), ("request", "phono3py/api_jointdos.py:Phono3pyJointDos.run"), ("files", "phono3py/file_IO.py:write_joint_dos")],
    note="exact real arithmetic; 4 grid points, 3 bands, <=5 frequency points; phonon solver stubbed",
)
prop(
    "C01", "The collision matrix sums each scattering process once per symmetry image",
    "For a grid point the reducible collision matrix row equals, for every band pair and grid point q', the unit-converted sum over all grid points of strength times weight over sinh factors of the process that leads to q', independent of how triplets were reduced by symmetry; modes not above the cutoff do not contribute, and at 0 K it vanishes. The irreducible form is that operator summed over the point-group images of each irreducible point with the Cartesian rotations as weights. Compiled and Python versions agree.",
    IC, "all real frequencies, strengths and weights that respect the point group, all temperatures; cubic and hexagonal meshes, subgroups, band subsets, both forms and both versions",
    "Tests compare the final conductivity of two crystals, for which compensating errors and rare branches are invisible.",
    ["phono3py/phonon3/collision_matrix.py", "c/collision_matrix.c", "c/_phono3py.cpp", "phono3py/phonon3/imag_self_energy.py"],
    [("irreducible sum", "c/collision_matrix.c:get_collision_matrix"), ("reducible sum", "c/collision_matrix.c:get_reducible_collision_matrix"), ("class", "phono3py/phonon3/collision_matrix.py:CollisionMatrix")],
    note="exact real arithmetic; meshes up to 2x2x2 and 3x3x1, <=3 bands",
)
prop(
    "C02", "Symmetrizing and expanding collision matrices keeps every element",
    "Symmetrization replaces every element of every width and temperature by the mean of it and its transpose, for the full and for the irreducible form. Expansion fills the row of each rotated point with the elements of the irreducible row at the correspondingly rotated columns, leaving irreducible rows unchanged and counting every rotation once.",
    IC, "all element values; several widths, temperatures, points and bands; four lattices and subgroups",
    "Tests run them inside one calculation and compare a conductivity.",
    ["c/_phono3py.cpp", "c/phono3py.c"],
    [("symmetrize", "c/phono3py.c:ph3py_symmetrize_collision_matrix"), ("expand", "c/phono3py.c:ph3py_expand_collision_matrix")],
    note="exact real arithmetic; <=27 grid points, <=3 bands, <=3 widths, <=2 temperatures",
)
prop(
    "K01", "RTA conductivity is the mesh mean of heat capacity, velocities and lifetimes",
    "The relaxation-time conductivity is the unit-converted mean over all mesh points and bands of mode heat capacity times the tensor product of group velocities divided by twice the total line width (phonon-phonon plus isotope plus boundary). Using one grid point per star gives that same mean, with velocity products averaged over the point group. Modes not above the cutoff, of vanishing width, or frozen out contribute nothing. Every width and temperature is filled.",
    IC, "all real group velocities, line widths, isotope rates, mean free paths, frequencies and temperatures; cubic and hexagonal meshes with and without stars",
    "Tests compare final traces of two cubic crystals, where components and star averages are degenerate.",
    ["phono3py/conductivity/rta.py", "phono3py/conductivity/base.py"],
    [("conductivity sum", "phono3py/conductivity/rta.py:ConductivityRTA.set_kappa_at_sigmas"), ("velocity products", "phono3py/conductivity/base.py:ConductivityMixIn._get_gv_by_gv"), ("heat capacities", "phono3py/conductivity/base.py:HeatCapacityMixIn._set_cv")],
    note="exact real arithmetic, exp as an uninterpreted positive function; meshes up to 2x2x2 and 3x3x1, <=3 bands; group velocities arbitrary inputs",
)
FC3 = ["phono3py/phonon3/fc3.py", "c/fc3.c", "c/_phono3py.cpp"]
prop(
    "F01", "Permutation symmetry of third-order force constants is the mean of six",
    "Imposing permutation symmetry replaces every element of the force constants by the mean over the six permutations of its three atoms together with their Cartesian indices; the compact form gives exactly the rows of the full one, for every crystal, and the Python version agrees.",
    IC, "all real force constants of the stated crystals, full and compact, both versions",
    "Tests compare a norm of one symmetrized array of a cubic crystal.",
    FC3, [("full", "c/fc3.c:fc3_set_permutation_symmetry_fc3"), ("compact", "c/fc3.c:set_permutation_symmetry_compact_fc3")],
    note="exact real arithmetic; seven crystals of 2-4 atoms (cubic, hexagonal root-3, CsCl, triclinic); symmetry data from phonopy/spglib",
)
prop(
    "F02", "Translational invariance removes exactly the mean over each atom",
    "Imposing translational invariance subtracts the mean over the first, second and third atom in turn, so that all three sums vanish, and nothing else. The compact form gives the rows of the full one: transposition of its indices sends every element to the translated counterpart, and twice gives the original.",
    IC, "all real force constants of the stated crystals, full and compact, the three transpositions",
    "Tests compare one number of one crystal.",
    FC3, [("per index", "phono3py/phonon3/fc3.py:set_translational_invariance_compact_fc3"), ("transposition", "c/fc3.c:transpose_compact_fc3_type01"), ("transposition of the last two", "c/fc3.c:transpose_compact_fc3_type2")],
    note="exact real arithmetic; six crystals of 2-4 atoms; a known finding covers pairs that are translations of their own reverse",
)
prop(
    "F03", "Distance cutoff zeroes exactly the triples with a pair beyond it",
    "Cutting force constants by distance sets to zero exactly those elements in which any of the three pair distances (shortest periodic image) exceeds the cutoff and leaves all other elements unchanged, for full and compact arrays; a compact array without its atom map is refused.",
    IC, "all force constants and all cutoff distances for three crystals, full and compact",
    "Tests use one cutoff and compare a norm.",
    FC3, [("cutoff", "phono3py/phonon3/fc3.py:cutoff_fc3_by_zero")],
    note="cutoffs within 1e-4 of a pair distance left out; three crystals of 4 atoms",
)
prop(
    "F05", "Displacement sets determine the force constants exactly",
    "For every harmonic plus cubic potential that obeys the crystal symmetry, the forces of the generated one- and two-atom displacements give back, through the finite-displacement solver, exactly the second- and third-order force constants of that potential, in full and compact form, with axis or diagonal and forced plus-minus displacements. With cutoff pairs, elements with a pair inside the cutoff are recovered and the others vanish. Supercells are numbered consecutively.",
    IC, "all coefficients of the symmetry-allowed potentials of the stated crystals (a stated number of them symbolic)",
    "Tests compare a few elements for two cubic crystals from stored forces; lower symmetries and the cutoff logic are not sampled.",
    FC3 + ["phono3py/phonon3/displacement_fc3.py"],
    [("solver", "phono3py/phonon3/fc3.py:get_fc3"), ("displacements", "phono3py/phonon3/displacement_fc3.py:get_third_order_displacements"), ("distribution by symmetry", "c/fc3.c:fc3_distribute_fc3"), ("fit", "c/fc3.c:fc3_rotate_delta_fc2"), ("cutoff pairs", "phono3py/phonon3/fc3.py:_cutoff_fc3_for_cutoff_pairs")],
    note="exact real arithmetic apart from pseudo-inverses and rotations (1e-9); eight crystals of 2-4 atoms; phonopy's displacement and harmonic solver executed as is; LAPACK pseudo-inverse not modelled",
)
prop(
    "C03", "Direct solution of the phonon Boltzmann equation inverts the collision matrix",
    "For every set of frequencies, line widths, collision matrices and velocities, the direct solution assembles main diagonal (phonon, isotope and boundary rates) and off-diagonal parts, symmetrizes or expands them over the stars, weights them by star multiplicity, and returns the thermal conductivity as the quadratic form of the inverse with frequency-weighted velocities X, summed over modes; the relaxation-time value uses the same diagonal. Modes at or below the cutoff take no part. Reducible and irreducible forms agree; every temperature and width has its own result.",
    IC, "all real collision matrices, line widths, velocities, frequencies, temperatures; reducible and irreducible forms; several widths and temperatures; isotope and boundary rates",
    "Tests compare final traces for two crystals at one temperature; per-temperature, per-width and cutoff bookkeeping is hardly sampled.",
    ["phono3py/conductivity/direct_solution.py", "c/collision_matrix.c"],
    [("assembly", "phono3py/conductivity/direct_solution.py:ConductivityLBTEBase._prepare_collision_matrix"), ("conductivity", "phono3py/conductivity/direct_solution.py:ConductivityLBTE._set_kappa"), ("X vector", "phono3py/conductivity/direct_solution.py:ConductivityLBTEBase._get_X")],
    note="exact real arithmetic; meshes up to 2x2x2 and 3x3x1; the eigen- or pseudo-inverse step is executed on concrete spectra or replaced by a recorder (LAPACK itself is not modelled)",
)
prop(
    "K05", "Wigner and Green-Kubo conductivities add the stated interband terms",
    "The Wigner conductivity is the population (single-mode) part plus the coherence sum over unequal band pairs of velocity-matrix products weighted with heat capacities, frequencies and line widths; the Green-Kubo conductivity is the sum over band pairs of the heat-capacity matrix with the Lorentzian of the pair. Star averages, cutoffs, degenerate pairs, several widths and temperatures, and the direct-solution variants are treated alike.",
    IC, "all Hermitian velocity matrices, frequencies, line widths and temperatures; with and without stars; relaxation-time and direct solution",
    "Tests compare traces of two crystals at one temperature, where coherence terms are small and degenerate.",
    ["phono3py/conductivity/wigner.py", "phono3py/conductivity/kubo.py", "phono3py/conductivity/rta.py", "phono3py/conductivity/direct_solution.py"],
    [("coherence terms", "phono3py/conductivity/wigner.py:ConductivityWignerMixIn"), ("heat-capacity matrix", "phono3py/phonon/heat_capacity_matrix.py:mode_cv_matrix"), ("Kubo sum", "phono3py/conductivity/rta.py:ConductivityKuboRTA._set_kappa_at_sigmas")],
    note="exact real arithmetic, exp uninterpreted; 3 bands, meshes up to 2x2x2; velocity matrices arbitrary inputs",
)
prop(
    "P01", "Grid phonons come from the right dynamical matrix, with direction only at Gamma",
    "At every grid point the matrix handed to the eigensolver is the mass-weighted, Hermitian Fourier sum of the force constants over shortest images, plus the dipole-dipole term of the chosen method, which uses the given direction only for Gamma; frequencies are the signed square roots in the requested unit. Only requested points are solved, each once. After any sequence of requests, points hold the phonons of their matrix, and Gamma those without direction unless it is the grid point. Frequencies announced as forced to zero stay zero.",
    ["inputs", "configurations", "histories"], "all real force constants, charges, dielectric constants and directions; all sequences of three requests (four in the thorough tier) to the interaction and joint-DOS classes",
    "Tests compare frequencies of a few crystals; sequences of requests with and without a direction are not run.",
    ["c/phonon.c", "c/dynmat.c", "phono3py/phonon/solver.py", "phono3py/phonon3/interaction.py", "phono3py/phonon3/joint_dos.py"],
    [("dynamical matrices", "c/phonon.c:get_undone_phonons"), ("driver", "phono3py/phonon/solver.py:run_phonon_solver_c"), ("phonons at Gamma", "phono3py/phonon3/interaction.py:Interaction.run_phonon_solver_at_gamma"), ("joint DOS", "phono3py/phonon3/joint_dos.py:JointDos.set_grid_point")],
    note="exact real arithmetic, wave vectors concrete; nine small crystals; eigensolver replaced by a recorder; histories enumerated path by path; a known finding covers frequencies forced to zero",
)
prop(
    "P02", "Phonons copied by rotation solve the eigenproblem of their own point",
    "When phonons are solved at irreducible points only and copied by symmetry, each copied point has the frequencies of the irreducible point and a unitary image of its eigenvectors (rotation, permutation of atoms, phase, or complex conjugation for reversed points) that carries the dynamical matrix of one point into that of the other; every point of the Brillouin-zone grid is covered.",
    IC, "all force constants obeying the space group (six symbolic coefficients), nine crystals with mirror, screw, glide, cyclic permutations, polar and acentric",
    "No test runs this mode.",
    ["phono3py/phonon3/interaction.py"],
    [("rotation", "phono3py/phonon3/interaction.py:Interaction.run_phonon_solver_with_eigvec_rotation"), ("reversal", "phono3py/phonon3/interaction.py:Interaction._get_phonons_at_minus_q")],
    note="vectors at solved points are arbitrary concrete ones; equality of matrices decided for all coefficients",
)
prop(
    "X01", "Isotope scattering rates equal the mass-variance formula",
    "The isotope scattering rate of a mode is pi/4 times its squared frequency times the mean over the mesh of the sum over modes and atoms of mass variance, squared overlap of the atom's eigenvector components, and the energy-conserving weight (tetrahedron or Gaussian). Modes at or below the cutoff neither scatter nor are scattered. Mass variances follow from isotope masses and abundances. Band subsets, every width and grid point, both implementations and the conductivity driver agree.",
    IC, "all eigenvectors, weights, variances, masses and abundances, frequencies around the cutoff; band subsets; both implementations",
    "Tests compare three numbers for two crystals at one grid point.",
    ["c/isotope.c", "phono3py/other/isotope.py", "phono3py/api_isotope.py", "phono3py/conductivity/base.py"],
    [("kernel", "c/isotope.c:iso_get_thm_isotope_scattering_strength"), ("driver", "phono3py/other/isotope.py:Isotope.run"), ("conductivity", "phono3py/conductivity/base.py:ConductivityBase._get_gamma_isotope_at_sigmas")],
    note="exact real arithmetic; 1-2 atoms, meshes up to 2x2x1",
)
prop(
    "K02", "Accumulated conductivity sums exactly the modes at or below the threshold",
    "The accumulation tool prints, for every temperature and tensor component, the sum over mesh points (star members counted by their multiplicity) and bands of each mode's contribution up to a frequency or mean-free-path threshold, with its derivative by the tetrahedron method. Averaged quantities and scalars per mode use the same bookkeeping. The chosen temperature selects its own data.",
    IC, "all mode conductivities, frequencies, line widths, velocities of the stated meshes; every quantity the tool offers",
    "The repository has no test that runs the tool on line widths or with several temperatures and compares numbers.",
    ["phono3py/cui/kaccum_script.py", "phono3py/other/kaccum.py"],
    [("mean free paths", "phono3py/other/kaccum.py:get_mfp"), ("accumulation", "phono3py/other/kaccum.py:KappaDOSTHM"), ("scalars", "phono3py/cui/kaccum_script.py:_show_scalar")],
    note="exact real arithmetic; meshes up to 3x3x1; integration weights replaced by arbitrary ones where stated (their correctness is W03)",
)
prop(
    "H01", "Conductivity files hold what was calculated and restore it",
    "Relaxation-time results written in one file, per grid point, or per band, in one or several calculations, and read back give the same line widths, normal and Umklapp parts, averaged interaction strengths and conductivity for every width, temperature, grid point and band; a missing file is reported. Every dataset of these files is the quantity it is named after, with names that identify width, cutoff, grid point and band.",
    ["inputs", "configurations", "histories"], "all line widths and mode properties; whole, per-point, per-band and mixed files; several widths and temperatures, written in one or more calculations",
    "One test reads one whole file; the per-point and per-band routes have no test.",
    ["phono3py/file_IO.py", "phono3py/conductivity/utils.py"],
    [("writer", "phono3py/file_IO.py:write_kappa_to_hdf5"), ("reader", "phono3py/file_IO.py:read_gamma_from_hdf5"), ("assembly", "phono3py/conductivity/utils.py:set_gamma_from_file")],
    note="hdf5 replaced by the arrays stored in it; 2 widths, 2 temperatures, 3 bands, meshes up to 3x3x1; route histories enumerated",
)
prop(
    "H02", "Collision-matrix files restore the calculation they were written from",
    "Collision matrices and line widths calculated in parts (whole, per grid point, per band), written to files and read back are placed at their own width, temperature, grid point and band, in reducible and irreducible form; a selection of temperatures picks exactly those; parts combined into a whole file read the same; a missing part is reported. The solution then uses these values and the isotope rates of its own grid points.",
    ["inputs", "configurations", "histories"], "all collision matrices, line widths and isotope rates; all writing routes, selections of temperatures; several widths",
    "One test reads one file and compares a final number; parts, selections and combination have no test.",
    ["phono3py/file_IO.py", "phono3py/conductivity/utils.py", "phono3py/conductivity/direct_solution.py"],
    [("writer", "phono3py/file_IO.py:write_collision_to_hdf5"), ("reader", "phono3py/file_IO.py:read_collision_from_hdf5"), ("assembly", "phono3py/conductivity/utils.py:set_collision_from_file")],
    note="hdf5 replaced by the arrays stored in it; 2 widths, 3 temperatures, 3 bands, meshes up to 2x2x1; route histories enumerated",
)
prop(
    "H03", "Stored strengths, phonons, force constants and triplet data read back exactly",
    "Interaction strengths written with positions of vanishing values restore every strength and every position, for any number of values and any pattern; files of different grid points, widths, cutoffs and names stay apart. Phonons on a grid restore frequencies, eigenvectors and addresses; another mesh is refused. Force constants restore every element; compact ones of other primitive atoms are refused. Contributions of triplets are filed under their own width, grid point and band with their triplets.",
    IC, "all values; every pattern of vanishing strengths around byte boundaries; regular and generalized grids; several widths, names, bands",
    "One test stores and restores strengths of one crystal; patterns, remainders, refusals and triplet files are not tested.",
    ["phono3py/file_IO.py", "phono3py/conductivity/utils.py"],
    [("strengths", "phono3py/file_IO.py:write_pp_to_hdf5"), ("reading", "phono3py/file_IO.py:read_pp_from_hdf5"), ("phonons", "phono3py/file_IO.py:read_phonon_from_hdf5"), ("force constants", "phono3py/file_IO.py:read_fc3_from_hdf5"), ("triplets", "phono3py/file_IO.py:write_gamma_detail_to_hdf5")],
    note="hdf5 replaced by the arrays stored in it; up to 27 strengths with all 2^9 patterns or those around byte boundaries; patterns split into paths",
)
prop(
    "H04", "Self-energy spectra reach their place in arrays and files",
    "Drivers of imaginary and real self-energies store each value at its width, temperature, grid point, band and frequency, whatever the batch size; contributions of triplets likewise. Each text file holds the average over its group of bands, one line per frequency; each hdf5 file the values of its width and grid point. No two items share a file name. The default frequency axis is uniform from zero and covers every sum of two frequencies plus the smearing tails.",
    IC, "all values, widths, temperatures, band groups, batch sizes 1, 2 and whole; all largest frequencies",
    "Tests compare arrays at one width and one batch size; file contents are not tested.",
    ["phono3py/phonon3/imag_self_energy.py", "phono3py/phonon3/real_self_energy.py", "phono3py/file_IO.py"],
    [("batches", "phono3py/phonon3/imag_self_energy.py:run_ise_at_frequency_points_batch"), ("imaginary part", "phono3py/phonon3/imag_self_energy.py:get_imag_self_energy"), ("text", "phono3py/phonon3/imag_self_energy.py:write_imag_self_energy"), ("real part", "phono3py/phonon3/real_self_energy.py:write_real_self_energy")],
    note="single self-energies arbitrary inputs (S01-S04 decide them); 2 widths, 2 temperatures, 2 grid points, 3 bands, 5 frequency points; files replaced by what is written to them",
)
prop(
    "S06", "Spectral functions follow from the widths by the Kramers-Kronig relation",
    "The spectral function of a mode is 4 f^2 G / pi over (w^2 - f^2 - 2 f D)^2 + (2 f G)^2, with half line width G(w) of that mode, temperature, width and grid point, and shift D(w) the Kramers-Kronig transform of the odd continuation of G; it is zero where there is neither width nor detuning. Text files average over band groups; hdf5 files hold all selected bands and say which.",
    IC, "all half line widths and mode frequencies of either sign; band groups; several widths, temperatures and grid points",
    "Tests compare arrays of two crystals at one grid point; files are not tested.",
    ["phono3py/phonon3/spectral_function.py", "phono3py/phonon3/real_self_energy.py", "phono3py/file_IO.py"],
    [("spectral function", "phono3py/phonon3/spectral_function.py:SpectralFunction._get_spectral_function"), ("shift", "phono3py/phonon3/real_self_energy.py:ImagToReal"), ("files", "phono3py/phonon3/spectral_function.py:run_spectral_function")],
    note="exact real arithmetic; up to 4 frequency points and 3 bands; half line widths arbitrary inputs",
)
prop(
    "K04", "RTA line widths are those of the self-energy on every calculation route",
    "The relaxation-time conductivity stores, for each smearing width (or tetrahedra), temperature, grid point and selected band, the imaginary self-energy calculated with that width, its cutoff, that temperature and the triplets of that grid point, averaged over degenerate bands, whichever route computes it: on the fly in the low-memory kernel, with whole or only the needed interaction strengths, reused between widths, split into Normal and Umklapp parts (which sum to the total), resolved by triplet, with a constant or a tabulated average strength, or with strengths read from files.",
    IC, "all fc3 values in the stated entries, all temperatures; sequences of widths with and without cutoff; all routes; band subsets, degenerate bands, symmetry on and off",
    "Tests compare conductivities of a few crystals to 0.5; routes other than the default run for one width only.",
    ["phono3py/conductivity/rta.py", "phono3py/conductivity/base.py", "phono3py/phonon3/imag_self_energy.py", "phono3py/phonon3/interaction.py", "c/pp_collision.c"],
    [("routes with strengths", "phono3py/conductivity/rta.py:ConductivityRTABase._set_gamma_at_sigmas"), ("low-memory route", "phono3py/conductivity/rta.py:ConductivityRTABase._set_gamma_at_sigmas_lowmem"), ("strengths", "phono3py/phonon3/interaction.py:Interaction.run")],
    note="relational: every route against the composition of the separate kernels (S01, W02, W03, I01, T01) with symbolic force constants and temperatures; 1-2 atoms, meshes up to 3x3x1",
)
prop(
    "V01", "Velocity matrices are the derivatives of the (root) dynamical matrix",
    "At each q-point the velocity operator is the Hermitian central difference, along each Cartesian axis, of the square root of the dynamical matrix, taken between the modes of that point, in the requested frequency unit; near Gamma the three acoustic modes are left out and, with dipole-dipole interaction, each displaced matrix uses its own direction. The group-velocity matrix is the derivative of the dynamical matrix between modes over 2 sqrt(w w'), zero for modes below the cutoff, with degenerate modes chosen along the perturbation and, without one, averaged over the rotations that fix the point.",
    IC, "all eigenvalues of the point and the displaced points, all Hermitian derivative matrices; degenerate and imaginary modes, given directions, several q-points",
    "Tests compare norms of blocks for two crystals.",
    ["phono3py/phonon/velocity_operator.py", "phono3py/phonon/group_velocity_matrix.py"],
    [("velocity operator", "phono3py/phonon/velocity_operator.py:VelocityOperator.run"), ("group-velocity matrix", "phono3py/phonon/group_velocity_matrix.py:GroupVelocityMatrix.run")],
    note="exact real arithmetic; 4 modes; eigenvectors fixed exact unitary matrices, eigenvalues and derivatives symbolic; eigensolver and dynamical matrix replaced by the harness; finite-difference form",
)

prop(
    "Y01", "Displacement-force datasets survive phono3py yaml and FORCES files",
    "A dataset of displacement pairs or of snapshots written to a phono3py yaml file or a FORCES file and read back holds the same supercells in the same order: displaced atoms, displacements, forces, energies, distances, ids, duplicates, cutoff and which pairs are excluded, for fc3 and fc2 together. A truncated forces file is refused. Born charges and cells are kept. Converting units scales every displacement and force once.",
    IC, "all displacements, forces, energies, distances and units; every pattern of excluded pairs; with and without forces, ids, energies",
    "Tests read a few stored files; writing with excluded pairs, duplicates or mixed fc2 and fc3 datasets is not tested.",
    ["phono3py/interface/phono3py_yaml.py", "phono3py/file_IO.py", "phono3py/cui/create_force_constants.py"],
    [("writer", "phono3py/interface/phono3py_yaml.py:displacements_yaml_lines_type1"), ("reader", "phono3py/interface/phono3py_yaml.py:_parse_fc3_dataset_type1"), ("FORCES", "phono3py/file_IO.py:parse_FORCES_FC3"), ("units", "phono3py/cui/create_force_constants.py:_convert_unit_in_dataset")],
    note="printed numbers stand for their values (8-16 decimals checked); 2-3 atoms, up to 8 supercells; patterns split into paths",
)
prop(
    "Y02", "Displacements, forces and supercells of a dataset agree with each other",
    "For every dataset the displacements and forces handed to force-constants calculators, those returned by Phono3py, and the atomic positions of the generated supercells describe the same supercells in the same order: both displacements of a pair, also when one atom is displaced twice; excluded pairs are left out of the calculation. Forces and energies set are those got, each at its own supercell, for fc3 and fc2.",
    IC, "all displacements, forces and energies; every pattern of excluded pairs; pairs of distinct atoms and of one atom with itself; snapshots",
    "Tests check numbers of supercells and fitted constants of a few crystals.",
    ["phono3py/phonon3/dataset.py", "phono3py/api_phono3py.py"],
    [("calculators", "phono3py/phonon3/dataset.py:get_displacements_and_forces_fc3"), ("getter", "phono3py/api_phono3py.py:_get_forces_energies"), ("supercells", "phono3py/api_phono3py.py:_build_supercells_with_displacements")],
    note="2 atoms, up to 7 supercells; patterns of excluded pairs split into paths",
)

prop(
    "U01", "Mode Grueneisen tensors are the strain derivative of squared frequencies",
    "At every q-point the Grueneisen tensor of a mode is minus half of the relative change of its squared frequency under a homogeneous strain, with the atoms relaxed in the strained cell unless ions are clamped, expressed by fc2 and fc3; zero for acoustic modes at Gamma. Approach directions of the non-analytical term follow the band path or the given direction. Frequencies, distances, weights and tensors written to file are those of the same q-points and modes.",
    IN, "all cubic constants of the bonds of crystals with 1-2 atoms (2-D and 3-D); q-points, band paths and meshes",
    "There is no test comparing the parameters with a strained crystal.",
    ["phono3py/phonon3/gruneisen.py"],
    [("tensor", "phono3py/phonon3/gruneisen.py:_get_gruneisen_tensor"), ("relaxation", "phono3py/phonon3/gruneisen.py:_get_X"), ("strain", "phono3py/phonon3/gruneisen.py:_get_dPhidu")],
    note="harmonic part and eigenvectors concrete; bonds shorter than half of the supercell",
)

prop(
    "Q01", "Parallel loops of the kernels give one result on every schedule",
    "In every parallel loop of the C kernels no two iterations access the same memory cell with at least one of them writing, except in reductions, so that strengths, self-energies, collision matrices, weights, triplets, phonons and symmetrized force constants do not depend on the number of threads or on how iterations are scheduled.",
    ["schedules", "inputs"], "all pairs of iterations of each loop; values and the branches on them symbolic",
    "The tests run with one thread (OMP_NUM_THREADS=1), where no race can show; with several threads a race shows by chance.",
    ["c/interaction.c", "c/triplet_grid.c", "c/imag_self_energy_with_g.c", "c/collision_matrix.c", "c/phono3py.c", "c/phonon.c", "c/isotope.c", "c/pp_collision.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c", "c/triplet_iw.c", "c/triplet.c", "c/real_self_energy.c", "c/fc3.c"],
    [("strengths", "c/interaction.c:itr_get_interaction"), ("triplets", "c/triplet_grid.c:get_BZ_triplets_at_q_type2"), ("collision matrix", "c/collision_matrix.c:get_collision_matrix"), ("low-memory route", "c/pp_collision.c:ppc_get_pp_collision")],
    note="loops of 2-36 iterations; index patterns split into paths",
)

prop(
    "M01", "C kernels stay inside live, initialised memory and release all of it",
    "For all inputs, the kernels behind the Python extension read and write only inside the arrays they were given or the blocks they allocated, never use a block after it was freed or free one twice, never let a value read from uninitialised memory reach a result, a branch or an address, and free all blocks they allocated before they return.",
    ["inputs"], "values, branches on values; sizes, meshes, cells fixed per slice",
    "A wrong read of a neighbouring value, of stale heap contents, or a leak passes tests that compare results to five digits; sanitizers see only what a test executes.",
    ["c/interaction.c", "c/triplet_grid.c", "c/imag_self_energy_with_g.c", "c/collision_matrix.c", "c/phono3py.c", "c/phonon.c", "c/isotope.c", "c/pp_collision.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c", "c/triplet_iw.c", "c/triplet.c", "c/real_self_energy.c", "c/fc3.c", "c/bzgrid.c", "c/tetrahedron_method.c", "c/recgrid.c", "c/snf3x3.c", "c/dynmat.c", "c/grgrid.c", "c/lagrid.c"],
    [("strengths", "c/interaction.c:itr_get_interaction"), ("triplets", "c/triplet_grid.c:get_BZ_triplets_at_q_type2"), ("collision matrix", "c/collision_matrix.c:get_collision_matrix"), ("fc3 symmetry", "c/fc3.c:fc3_set_permutation_symmetry_compact_fc3")],
    note="blocks allocated by the extension wrapper for the whole interpreter excluded",
)

prop(
    "L01", "Force constants reach the calculation in the form and units requested",
    "Force constants read from files are used unchanged, or, when symmetrization is requested, in the same symmetrized form whether stored full or compact; files of another crystal or missing ones stop the program. Those computed from forces come from the requested calculator, options and dataset of each order, are symmetrized once if the built-in solver made them, cut off if requested, and written as used. Runs that need no third order compute fc2 alike. Displacements and forces are converted once from the calculator's units.",
    IN, "all force constants, displacements, forces and pair cutoffs; all combinations of the switches; crystals of 1-3 atoms",
    "Tests run a few commands on complete data sets and compare a thermal conductivity; compact files with symmetrization, harmonic-only runs from forces and the unit conversions are not run at all.",
    ["phono3py/cui/create_force_constants.py", "phono3py/cui/load.py", "phono3py/api_phono3py.py", "phono3py/interface/fc_calculator.py"],
    [("command line", "phono3py/cui/create_force_constants.py:create_phono3py_force_constants"), ("load", "phono3py/cui/load.py:compute_force_constants_from_datasets"), ("solvers", "phono3py/api_phono3py.py:produce_fc3"), ("datasets", "phono3py/cui/create_force_constants.py:parse_forces"), ("options", "phono3py/cui/create_force_constants.py:get_fc_calculator_params")],
    note="solvers and phonopy's fc2 symmetrization replaced by stand-ins; hdf5 modelled as a store; odd supercells only (see F02's known finding)",
)

prop(
    "R01", "Self-consistent phonons: correlations and force constants of samples",
    "The displacement correlation matrix is the sum over modes above the cutoff frequency of the thermal variance times the mass-weighted eigenvectors, the other matrix its inverse on these modes and the prefactor the normalisation of that Gaussian; phonons at commensurate points give the same as the supercell. Harmonic forces of sampled displacements give back the force constants exactly; cubic ones those of the potential for Gaussian samples.",
    IN, "all force constants, forces, temperatures, eigenvectors and stated frequencies; 1-4 atoms",
    "The one test compares two numbers of one crystal.",
    ["phono3py/sscha/sscha.py", "phono3py/phonon/func.py"],
    [("correlations", "phono3py/sscha/sscha.py:DispCorrMatrix"), ("commensurate points", "phono3py/sscha/sscha.py:DispCorrMatrixMesh"), ("second order", "phono3py/sscha/sscha.py:SecondOrderFC"), ("third order", "phono3py/sscha/sscha.py:ThirdOrderFC"), ("variance", "phono3py/phonon/func.py:sigma_squared")],
    note="LAPACK eigensolver and phonopy's inverse transform replaced by stand-ins; sampled displacements concrete; T > 0",
)

prop(
    "D01", "Displaced supercells are those of the displacement plan",
    "Every planned displacement has the requested length along its direction. A pair is included exactly when its nearest images are closer than the cutoff; ids count first displacements, then all pairs. A supercell listed as duplicate is identical to the earlier one named, or undisplaced if 0 is named; swapped pairs of different atoms are all listed. Supercells hold exactly these displacements, are renewed with the plan, and are written for included ones under their ids. Random displacements use the number, length, seed and supercell asked for.",
    IN, "all distances, cutoffs, lattices and directions of integer components -1 to 1; 2-4 atoms, up to 11 displacements",
    "The tests compare directions of two crystals with stored lists; users skip supercells by these flags and copy forces between listed duplicates, so one wrong entry silently corrupts force constants.",
    ["phono3py/phonon3/displacement_fc3.py", "phono3py/api_phono3py.py", "phono3py/cui/create_supercells.py", "phono3py/interface/calculator.py"],
    [("plan", "phono3py/phonon3/displacement_fc3.py:direction_to_displacement"), ("duplicates", "phono3py/phonon3/displacement_fc3.py:_find_duplicates"), ("generation", "phono3py/api_phono3py.py:generate_displacements"), ("files", "phono3py/cui/create_supercells.py:create_phono3py_supercells")],
    note="symmetry search, random numbers and calculators' file formats are phonopy's",
)

prop(
    "D02", "Collected forces belong to the supercells they were calculated for",
    "Forces (and energies) of the n-th output file, less the forces of the perfect supercell when these are given, are stored for the n-th calculated supercell, skipping excluded pairs, in FORCES_FC3, FORCES_FC2 or phono3py_params.yaml, replacing any forces stored before. The calculator of the displacement file, or else the one requested, reads all files. A wrong number of files for displacement pairs, missing files, and files whose atoms are not at the displaced positions up to lattice translations are refused.",
    IN, "all forces, energies, displacements, excluded pairs and position shifts of 0.001-0.25; 2-3 atoms, 2-6 supercells",
    "No test runs the collection of forces at all.",
    ["phono3py/cui/create_force_sets.py", "phono3py/file_IO.py"],
    [("collection", "phono3py/cui/create_force_sets.py:create_FORCES_FC3_and_FORCES_FC2"), ("third order", "phono3py/cui/create_force_sets.py:_get_force_sets_fc3"), ("second order", "phono3py/cui/create_force_sets.py:_get_force_sets_fc2"), ("params", "phono3py/cui/create_force_sets.py:_set_forces_and_nac_params"), ("files", "phono3py/file_IO.py:write_FORCES_FC3")],
    note="positions are compared for first displacements only, as the code does; outputs of calculators are stand-ins",
)

prop(
    "O01", "Options and configuration tags select the calculation they name",
    "In phono3py and phono3py-load, the calculation requested by option or configuration tag is run, once, and nothing else; nothing is run when the mesh or grid points it needs are missing or a value is malformed. Every option and tag reaches the parameter it names, with its value (numbers, lists, matrices, fractions, words) unchanged; without it the default is used. Command-line options are preferred over tags of the configuration file, whose names do not depend on letter case. Temperature ranges and lists, smearing widths with the tetrahedron method, number and pitch of frequency points, and grid addresses combine as documented.",
    IC, "all values of up to three options together, each absent, given as option, tag, both, or switched off by tag, in every calculation of both programs",
    "Tests run a few combinations; an option or tag that is ignored or reaches another parameter gives a plausible result of another calculation.",
    ["phono3py/cui/phono3py_script.py", "phono3py/cui/settings.py", "phono3py/cui/phono3py_argparse.py"],
    [("programs", "phono3py/cui/phono3py_script.py:main"), ("tags", "phono3py/cui/settings.py:Phono3pyConfParser._set_settings"), ("options", "phono3py/cui/phono3py_argparse.py:get_parser"), ("defaults", "phono3py/cui/phono3py_script.py:get_default_values")],
    note="called classes and functions are recorders; numbers are tokens of the command line that read back as symbolic values",
)

prop(
    "L02", "phono3py.load takes crystal, charges and force constants by precedence",
    "The crystal of phono3py.load comes from the cell, or cell file, given or else the yaml file, in Angstrom by the calculator's unit, with the matrices and settings given. Non-analytical term parameters come from the named file, the argument, the yaml file, then BORN, with the calculator's unit factor unless they have one, and only if requested or given. Force constants come from the named file, else are computed from named forces, else are read from fc3.hdf5 and fc2.hdf5 found, else are computed from yaml forces or FORCES_FC3 and FORCES_FC2 found, each order with its own calculator, options and dataset, once, and only if asked.",
    IN, "every combination of given and found sources, any lattice, matrices, charges and settings; forces both in the yaml file and in a named file left open",
    "Tests load a few combinations from directories without the other files; data of an unintended file give plausible numbers.",
    ["phono3py/cui/load.py"],
    [("crystal", "phono3py/cui/load.py:load"), ("force constants", "phono3py/cui/load.py:load_fc2_and_fc3"), ("datasets", "phono3py/cui/load.py:load_dataset_and_phonon_dataset")],
    note="files are stand-ins that hold arbitrary values",
)

prop(
    "E01", "Eigensolvers return the eigenpairs of the matrices given to them",
    "Frequencies and eigenvectors on the grid, and the spectrum of the collision matrix, are eigenpairs of the matrices built (whose construction, phase conventions, ordering and use are other properties), with errors at the level of machine precision, for the LAPACK, numpy and scipy routes alike.",
    IN, "all Hermitian dynamical matrices and symmetric collision matrices",
    "Tests diagonalize matrices of a few crystals.",
    ["phono3py/phonon/solver.py", "phono3py/conductivity/direct_solution.py", "c/lapack_wrapper.c"],
    [("phonons", "phono3py/phonon/solver.py:run_phonon_solver_py"), ("collision matrix", "phono3py/conductivity/direct_solution.py:diagonalize_collision_matrix")],
    na="The eigenpairs are computed by LAPACK through numpy and scipy: iterative binary code outside this repository, convergent only in floating point, which cannot be executed symbolically. The C route (lapack_wrapper.c) is not compiled here (no LAPACKE). The checks P01, P02, C03 and K05 take eigenpairs as arbitrary values that satisfy the eigenvalue equation instead.",
)
prop(
    "E02", "Rounding errors stay far below the accuracy of the results",
    "Accumulated floating-point rounding in long sums over triplets, grid points and tetrahedra, and cancellation in differences of Bose functions, changes reported line widths and conductivities by less than their stated digits.",
    IN, "all inputs of physical magnitude and all mesh sizes in use",
    "Tests compare with stored numbers to a few digits for a few crystals.",
    ["c/pp_collision.c", "c/imag_self_energy_with_g.c", "c/triplet_iw.c"],
    [("sums", "c/imag_self_energy_with_g.c:ise_get_imag_self_energy_with_g"), ("weights", "c/triplet_iw.c:tpi_get_integration_weight")],
    na="Bit-precise floating-point encodings of kernels with hundreds of multiplications and exponentials are out of reach of the SMT solvers present (one product of three doubles takes minutes); the checks decide exact real arithmetic, and replay their counterexamples in floating point.",
)
prop(
    "E03", "Machine-learning potentials and external solvers fit the data they are given",
    "Force constants from symfc, ALM or polynomial machine-learning potentials minimize the error of the forces in the dataset under the symmetry constraints.",
    IN, "all displacement-force datasets",
    "Tests fit a few datasets.",
    ["phono3py/interface/fc_calculator.py"],
    [("solvers", "phono3py/interface/fc_calculator.py:get_fc3_solver")],
    na="The fits are made in the packages symfc, ALM and pypolymlp (the last two not installed here); this repository only passes data and options to them, which L01 decides.",
)
prop(
    "E04", "Plots show the data of the result files",
    "phono3py-kdeplot and phono3py-coleigplot draw lifetime densities and collision-matrix spectra of the files they are given.",
    IN, "all result files",
    "No test covers them.",
    ["phono3py/scripts/phono3py_kdeplot.py", "phono3py/scripts/phono3py_coleigplot.py"],
    [("density", "phono3py/scripts/phono3py_kdeplot.py:main"), ("spectrum", "phono3py/scripts/phono3py_coleigplot.py:main")],
    na="What is drawn is made by matplotlib and the kernel density estimate of scipy.stats, compiled and third-party code whose output (pictures) has no formal meaning to compare; the scripts themselves are module-level glue.",
)
