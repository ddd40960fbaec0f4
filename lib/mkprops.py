import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Field operations are accepted exactly when their data exists",
 "At every point of a session a field operation (loading the D, H, B or E field of a band, energy, divergence, phase fixing, point values, integrals, output, loading a stored field) is accepted exactly when the data it needs exists, and then leaves precisely the current field it defines; otherwise it is refused without crashing and changes nothing. Solving a k point, replacing or rescaling eigenvectors, and writing the field to a file all discard the current field, so outdated data can never be read as current.",
 ["histories"],"every sequence of calls of the scripting interface, from any session state, with and without magnetic materials, in every build",
 "check.ctl walks a handful of fixed call orders; the guarantee is about every order of some thirty calls, including refused ones",
 ["mpb/fields.c","mpb/field-smob.c","mpb/mpb.c","mpb/matrix-smob.c"],
 [("current-field type guards","mpb/fields.c: strchr(\"...\", curfield_type) tests"),("curfield_reset","mpb/fields.c"),("update_curfield_smob","mpb/field-smob.c")],
 [("curfield_type/curfield_band","which field is current and of which band","mpb/fields.c"),("kpoint_index","0 until a k point has been solved","mpb/mpb.c"),("mdata","null until initialised","mpb/mpb.c")],
 ["refusal messages on stderr","cur-field? and the *-point functions","file names written by output"])

p("C02","Results of a run do not depend on what the session did before",
 "For the same values of the input variables, a run yields the same frequencies, group velocities and field energies whatever the session computed earlier: runs with other grids, materials, permeability, parities, targets, numbers of bands, block or workspace sizes, other k points, or stored fields leave no trace in the result. Starting from the fields of the previous run instead of from random fields leads to modes of the same problem, each one once and in ascending order (only a mode almost orthogonal to those fields, as by symmetry, may be missed).",
 ["histories","configurations"],"every sequence of runs with changing input variables within one session",
 "each test case of check.ctl sees one fixed predecessor; which buffers are kept or reallocated depends on the pair (old, new) of configurations",
 ["mpb/mpb.c","mpb/epsilon.c","src/maxwell/maxwell.c","src/matrices/evectmatrix.c"],
 [("reuse or reallocation of field blocks","mpb/mpb.c: init_params, have_old_fields"),("set_parity / PREV-PARITY","mpb/mpb.c"),("zero-k constraint bookkeeping","src/maxwell/maxwell_constraints.c")],
 [("H, Hblock, W, muinvH","field blocks and their aliasing","mpb/mpb.c"),("nwork_alloc","allocated workspaces","mpb/mpb.c")],
 ["freqs, compute-group-velocities, compute-field-energy after each run"])

p("C03","Every k point is solved, labelled, printed and filed under its own index",
 "A run solves each of its k points once, in order, under consecutive indices, applies every band function once per band (or once per k point if it takes no argument) in the order given, and prints and files each result under the parity, k index, band and component it belongs to. Splitting the k points of a run into any number of chunks partitions them in order with globally correct indices, so the union of the chunks' output is that of the unsplit run.",
 ["programs","configurations"],"all k-point lists, band counts, parities, prefixes, band functions, and all chunk counts and chunk indices",
 "the tests compare numbers, never labels, file names or the split of a list",
 ["mpb/mpb.scm.in","mpb/mpb.c","mpb/fields.c"],
 [("run-parity loop","mpb/mpb.scm.in"),("list-split","mpb/mpb.scm.in"),("file naming","mpb/fields.c: output_field_to_file"),("freqs lines","mpb/mpb.c: solve_kpoint")],
 [("kpoint_index","label of the current k point","mpb/mpb.c"),("freq_output_needed / parity string","label of printed lines","mpb/mpb.c")],
 ["lines '<parity>freqs:'","names of the HDF5 files","get-kpoint-index in band functions"])

p("C04","Band ranges and gaps follow from exactly the computed frequencies",
 "After a run the band ranges are the minimum and maximum of each band over the run's k points together with the k points attaining them, and a gap is reported between two consecutive bands exactly when the maximum of the lower is below the minimum of the upper, with its edges and size relative to mid-gap. Ranges do not depend on the order of the k points, runs do not inherit ranges, and retrieving any gap by band number (also a negative one) agrees with the ranges.",
 ["histories","inputs"],"all sequences of frequency lists, including bands that touch, cross, repeat, or appear only at some k points",
 "no test inspects ranges or gaps of more than a few fixed structures",
 ["mpb/mpb.scm.in"],
 [("update-band-range-data","mpb/mpb.scm.in"),("output-gaps / retrieve-gap","mpb/mpb.scm.in")],
 [("band-range-data, gap-list, all-freqs","accumulated results of a run","mpb/mpb.scm.in")],
 ["values of band-range-data, gap-list, retrieve-gap; printed 'Band' and 'Gap' lines"])

p("C05","Symmetry-restricted runs return exactly the modes of that symmetry",
 "A run restricted to even or odd parity under the z or y mirror (or both) returns exactly the modes of the unrestricted spectrum having that parity, each with computed parity +1 or -1 accordingly, so that the spectra of complementary restrictions merge to the unrestricted spectrum with multiplicity. Requests that are unknown, self-contradictory or incompatible with the k point are refused, and reusing the previous symmetry selects the one last set.",
 ["inputs","histories","configurations"],"all parity combinations, k points, grids (1D to 3D, odd and even sizes) and mirror-symmetric structures, in every build",
 "check.ctl runs TE/TM and a few even/odd cases on fixed grids and compares the lowest frequencies with stored numbers",
 ["src/maxwell/maxwell_constraints.c","mpb/mpb.c","src/maxwell/maxwell.c"],
 [("parity projections","src/maxwell/maxwell_constraints.c"),("set_parity and compatibility checks","mpb/mpb.c, src/maxwell/maxwell.c")],
 [("mdata->parity","the selected symmetry","src/maxwell/maxwell.h")],
 ["freqs, compute-zparities, compute-yparities, parity"])

p("C06","Bands solved block by block equal bands solved at once",
 "However the requested bands are divided into blocks, every band is solved exactly once, bands come out in ascending order, mutually orthonormal, and with the same frequencies as when solved together; asking for fewer bands gives a prefix of the spectrum. At k = 0 exactly the zero-frequency constant modes allowed by the symmetry (two, one or none) come first and are exact, and a targeted run returns the same modes nearest its target for every block size.",
 ["configurations","inputs"],"all numbers of bands and block sizes (explicit, automatic, larger than the number of bands), workspace counts, eigensolver variants, parities, with k = 0 and not, with and without permeability",
 "tests use one block size per structure; the partition arithmetic, the last partial block, the deflation set and the zero modes interact",
 ["mpb/mpb.c","src/matrices/eigensolver.c","src/maxwell/maxwell_constraints.c"],
 [("block loop and deflation","mpb/mpb.c: solve_kpoint"),("zero_k_num_const_bands","src/maxwell/maxwell.c"),("automatic block size","mpb/mpb.c: init_params")],
 [("ib, Hblock.p, num_bands","progress through the bands","mpb/mpb.c")],
 ["'Solving for bands a to b' lines","freqs","dot-eigenvectors"])

p("C07","Eigenvectors survive being fetched, stored, rescaled, written and read back",
 "Fetching bands, putting them back at any position, writing them to a file and reading them, and saving and loading whole states reproduce exactly the same states; each such operation, and rescaling one band by a number, affects the addressed bands only, and previously fetched copies never change. Choosing the canonical phase of a band gives the same state whatever phase the band had before and is idempotent, and phase alignment with earlier states makes the overlaps real and positive.",
 ["histories"],"all sequences of these operations on arbitrary band ranges, builds and process counts",
 "check.ctl never saves, loads, slices or rescales eigenvectors",
 ["mpb/matrix-smob.c","src/matrices/evectmatrix.c","src/matrixio/evectmatrixio.c","mpb/fields.c","mpb/mpb.scm.in"],
 [("column slices","src/matrices/evectmatrix.c: evectmatrix_copy_slice"),("file layout of eigenvectors","src/matrixio/evectmatrixio.c"),("fix_field_phase","mpb/fields.c"),("fix-phase-consistency","mpb/mpb.scm.in")],
 [("H","eigenvectors of the current k point","mpb/mpb.c")],
 ["dot-eigenvectors, sqmatrix-ref, field values after get-dfield"])

p("C08","Stored fields are independent values with checked types",
 "A stored field keeps its value and kind until it is itself assigned, whatever happens to the current field or to other stored fields; copying, pointwise mapping and integration act on every grid point exactly once, with fields of any kind mixed and with a destination that is also a source. Combining fields of different grids or kinds, loading or assigning them, is accepted exactly when it makes sense and the result has the kind (and Bloch behaviour) that follows from its source.",
 ["histories","programs"],"all sequences of make, copy, set, map, load and integrate operations over any number of fields, with changing grids",
 "the only field expressions ever tested are the Poynting flux and total energy",
 ["mpb/field-smob.c","mpb/fields.c","mpb/mpb.scm.in"],
 [("field conformity and kind checks","mpb/field-smob.c: fields_conformp, field_set"),("field_mapL, integrate_fieldL","mpb/field-smob.c"),("cur-field binding","mpb/field-smob.c: update_curfield_smob")],
 [("field_smob.type, type_char","kind of a stored field","mpb/field-smob.h"),("curfield","the current field","mpb/fields.c")],
 ["*-field-get-point at grid points, integrate-fields, cur-field?, fields-conform?"])

p("C09","Energies are normalised, additive and located correctly",
 "The total energy of each band is one, its reported component fractions sum to one, and the energy attributed to regions (objects, ranges of dielectric constant, or weighted by a function of position and material) is additive over disjoint regions and totals the whole, each grid point counted exactly once with equal weight. The same holds for magnetic, electric and combined energy densities, and integrals of any position-dependent function equal the grid sum at the documented points.",
 ["inputs","configurations"],"all objects, ranges, weight functions and grids (odd, even, 1D to 3D), in every build including inversion-symmetric and parallel ones",
 "tests look at a few energy numbers; double counting or omission on a boundary, an odd grid or a slab edge changes them invisibly",
 ["mpb/fields.c","src/maxwell/xyz_loop.h","mpb/field-smob.c"],
 [("energy normalisation and component fractions","mpb/fields.c: compute_field_energy"),("grid loops with weights for the stored half","src/maxwell/xyz_loop.h"),("region integrals","mpb/fields.c: compute_energy_in_*, compute_energy_integral, compute_field_integral")],
 [("curfield","energy density on the grid","mpb/fields.c")],
 ["return values of compute-field-energy, compute-energy-in-*, compute-*-integral"])

p("C10","The discretised structure is the described geometry",
 "At every grid point away from interfaces the material is that of the last object in the list containing it (objects repeat with the lattice), else the default material, where a function material is evaluated at that position and unset material means the background, optionally read from a file interpolated over the cell. At flat interfaces the effective tensor is the arithmetic mean along and harmonic mean across the interface in proportion to the filled fraction, and objects of the same material leave no seam.",
 ["inputs"],"all lists of objects (overlapping, nested, crossing the cell boundary), lattices, resolutions, mesh sizes and materials (anisotropic, magnetic, functions)",
 "tests use a handful of structures and only look at the final frequencies",
 ["mpb/epsilon.c","mpb/medium.c","mpb/epsilon_file.c","src/maxwell/maxwell_eps.c"],
 [("material lookup","mpb/epsilon.c: material_epsmu, epsilon_func"),("sub-pixel averaging","mpb/epsilon.c: mean_epsilon_func; src/maxwell/maxwell_eps.c"),("file interpolation","mpb/epsilon_file.c, linear_interpolate")],
 [("geometry_list, geometry_tree, default_material","the described structure","libctl geom"),("mdata->eps_inv, mu_inv","discretised structure","src/maxwell/maxwell.h")],
 ["get-epsilon + epsilon output, get-epsilon-inverse-tensor-point, get-mu"])

p("C11","Material grids interpolate, combine and differentiate consistently",
 "A material grid takes the value between its bounds given by linear interpolation of its data (kept in [0,1]) at the position inside its object, overlapping grids combine by minimum, product or average as requested with the lower-lying grids only as far as they reach, and saving then loading or matching a grid reproduces it. The reported sensitivities of band frequencies equal the change actually observed when the grid data change.",
 ["inputs","histories"],"all grid sizes, data, object placements and combinations",
 "no test uses material grids",
 ["mpb/material_grid.c","mpb/material_grid_opt.c","mpb/epsilon.c"],
 [("matgrid_val / material_grid_val","mpb/material_grid.c"),("gradient","mpb/material_grid.c: material_grids_addgradient"),("save/load/match","mpb/material_grid.c")],
 [("material_grids","grids found in the geometry","mpb/material_grid.c")],
 ["get-epsilon, save-material-grid, material-grids-approx-gradient, print-material-grids-gradient"])

p("C12","The inversion-symmetric build reports what the general build reports",
 "For a structure with inversion symmetry, the executable that assumes it and the general one give the same frequencies, velocities, parities, energies, integrals, point values and complete output fields for every grid size, once the arbitrary phase of each band is fixed. In particular every grid point of a full output array is filled exactly once with the value of that point, including odd and even sizes and Bloch phases.",
 ["inputs","configurations"],"all inversion-symmetric structures, grids (1D to 3D, odd and even in each direction), k points and operations",
 "tests compare each build with the same stored frequencies; reconstruction of the missing half of a field is never looked at",
 ["src/maxwell/maxwell_op.c","src/maxwell/xyz_loop.h","mpb/fields.c","mpb/field-smob.c","src/maxwell/maxwell.c"],
 [("reconstruction of the other half","src/maxwell/maxwell_op.c: maxwell_*field_otherhalf"),("half-grid loops","src/maxwell/xyz_loop.h"),("point lookup in the half grid","mpb/fields.c: get_val")],
 [("last_dim_size, other_dims","layout of the stored half","src/maxwell/maxwell.h")],
 ["everything the scripting interface returns, and HDF5 output"])

p("C13","Results do not depend on the number of processes",
 "A parallel run gives the same frequencies, velocities, energies, integrals, point values and output files as the serial program for every number of processes, including numbers that do not divide the grid and processes holding no grid points. Messages and files are produced once, and every process sees the same values in the script.",
 ["schedules","configurations"],"all process counts, grids and operations",
 "tests run with two processes only, on grids that divide evenly, and compare frequencies",
 ["src/maxwell/maxwell.c","mpb/fields.c","src/matrixio/fieldio.c","src/matrixio/matrixio.c","src/util/mpi_utils.c","mpb/matrix-smob.c"],
 [("slab distribution","src/maxwell/maxwell.c: create_maxwell_data"),("reductions over processes","mpb/fields.c, src/matrices/*"),("ordered file writes","src/matrixio/*")],
 [("local_nx, local_x_start, local_N, N_start","slab of this process","src/maxwell/maxwell.h")],
 ["everything the scripting interface returns under mpirun -np 1..4"])

p("C14","Point values interpolate the grid periodically and carry the Bloch phase",
 "The value of a field, energy density or dielectric function at any point of space is the linear interpolation of the neighbouring grid values with the cell repeated periodically, hence exact at grid points and unchanged under lattice translations of the cell-periodic part. Fields with Bloch behaviour acquire exactly the phase of the k vector under translation, and fields declared periodic acquire none.",
 ["inputs"],"all points inside and far outside the cell, k points, grids including one-point dimensions, field kinds, builds",
 "no test evaluates fields at points",
 ["mpb/fields.c","mpb/field-smob.c"],
 [("interp_val / interp_cval / interp_cvector","mpb/fields.c"),("Bloch phase at a point","mpb/fields.c: get_bloch_field_point, get_field_point")],
 [("cur_kvector","k vector of the fields","mpb/fields.c")],
 ["get-*-point and *-field-get-point functions"])

p("C15","Output files contain exactly the current field, fully described",
 "Writing the current field produces one file, named after what it holds, whose datasets are the values of that field (all or the selected components, real and imaginary parts, tensors and their inverses) at every grid point in the documented order, with the lattice vectors, k vector and description that belong to it. Writing again replaces the content, no other field's file is touched, and complex fields include the Bloch phase.",
 ["inputs","histories"],"all field kinds, components, grids, k points, prefixes and builds, and repeated output",
 "no test opens an output file",
 ["mpb/fields.c","src/matrixio/fieldio.c","src/matrixio/matrixio.c","mpb/mpb.scm.in"],
 [("output_field_to_file","mpb/fields.c"),("fieldio_write_*","src/matrixio/fieldio.c"),("matrixio datasets and attributes","src/matrixio/matrixio.c")],
 [("curfield, curfield_type","what is written","mpb/fields.c")],
 ["HDF5 files in the working directory"])

p("C16","mpb-data re-tiles and resamples fields without distorting them",
 "Converting a file yields the same periodic (Bloch) function sampled on the requested cell: any number of periods, resolution, transposition, rectangular or rotated cell, interpolated or pixelised, with phases continued correctly between cells and vectors rotated with the cell. The default conversion reproduces the input and the input datasets remain untouched.",
 ["inputs"],"all input sizes, cell shapes and option combinations",
 "no test runs mpb-data",
 ["utils/mpb-data.c","src/matrixio/matrixio.c"],
 [("map_data","utils/mpb-data.c"),("handle_file (cell construction)","utils/mpb-data.c"),("handle_dataset / handle_cvector_dataset","utils/mpb-data.c")],
 [],["datasets written by mpb-data"])

p("C17","k-point and grid helpers return equivalent, optimal values",
 "Reducing a k point to the first Brillouin zone returns an equivalent point, differing by a reciprocal lattice vector, of minimal length among all equivalent points, and is idempotent; uniform interpolation keeps the corner points and spaces points evenly in between. Grid sizes follow resolution and lattice, never below one point, and optimising them picks the smallest size not below the present one with prime factors 2, 3, 5, 7 only.",
 ["inputs"],"all lattices with reduced bases, k points and sizes",
 "no test calls these helpers",
 ["mpb/mpb.scm.in"],
 [("first-brillouin-zone","mpb/mpb.scm.in"),("next-factor2357, optimize-grid-size!","mpb/mpb.scm.in"),("kinterpolate-uniform","mpb/mpb.scm.in")],
 [],["return values"])

p("C18","Solving for k at a given frequency inverts the band structure",
 "Searching for the wavevectors at which given bands have a given frequency returns, for each band, a wavevector along the given direction and origin where a direct computation yields that frequency within tolerance, independent of the order bands are refined in. Intermediate results are reused only for exactly the same band and wavevector, requested band functions run at the found points, and the run's number of bands and k points are restored.",
 ["inputs","histories"],"all frequencies, band ranges, directions, origins and initial guesses",
 "one find-k test case exists, for one structure and band range",
 ["mpb/mpb.scm.in"],
 [("find-k with table of results","mpb/mpb.scm.in"),("group velocity as derivative","mpb/fields.c")],
 [("bktab, k0s","memoised results and best starting points","mpb/mpb.scm.in")],
 ["return value, 'find-k b at k: v' lines, '<parity>kvals:' line"])

p("C19","Symmetry eigenvalues obey the group of the structure",
 "For a symmetry of the structure mapping the k point to itself, the expectation of the operation in each non-degenerate band is a number of modulus one respecting group composition (identity gives one, an operation of order n gives an n-th root of unity up to the Bloch phase of its translation), and the sum over a degenerate set is the character, independent of basis. Values agree whether computed from D or B (with the sign of an improper operation on the magnetic field), per band or for all bands, or through any current field.",
 ["inputs"],"all symmorphic and screw or glide operations of a structure, k points and bands",
 "no test computes symmetry eigenvalues",
 ["mpb/transform.c"],
 [("transformed_overlap","mpb/transform.c"),("compute_symmetry, compute_symmetries","mpb/transform.c")],
 [],["transformed-overlap, compute-symmetry, compute-symmetries"])

p("C20","Group velocities are the gradient of the band structure",
 "The group velocity of a non-degenerate band is the gradient of its frequency with respect to the wavevector, linear in the requested direction, the same whether computed for all bands or one, per component or as a vector in either basis, and zero for k-independent directions. Computing it discards no eigenvector, so results repeat, and it is unaffected by the phase of the states.",
 ["inputs","configurations"],"all k points, bands, directions, materials (with permeability and anisotropy), parities and builds",
 "check.ctl compares velocities of a few fixed cases with stored numbers",
 ["mpb/fields.c","mpb/mpb.scm.in","src/maxwell/maxwell_op.c"],
 [("compute_group_velocity_component and relatives","mpb/mpb.c"),("maxwell_ucross_op","src/maxwell/maxwell_op.c")],
 [],["compute-group-velocity-component, compute-1-group-velocity*, compute-group-velocities"])

p("C21","Matrix operations compute the algebra they name on any slice",
 "Products, inverses, traces, eigenvalues, symmetrisation and copies of the solver's dense matrices and field blocks equal their mathematical definition for all sizes, on any sub-range of columns, and with any combination of scaling and conjugation, leaving everything outside the addressed range untouched; resizing preserves the retained entries. The script-level matrix functions agree with the same algebra.",
 ["inputs"],"all sizes, slices, strides and integer-valued matrices, real and complex builds",
 "blastest prints a few fixed products",
 ["src/matrices/evectmatrix.c","src/matrices/sqmatrix.c","src/matrices/blasglue.c","mpb/matrix-smob.c","src/matrices/matrices.c"],
 [("evectmatrix_XtY_slice and relatives","src/matrices/evectmatrix.c"),("sqmatrix_*","src/matrices/sqmatrix.c"),("resize","src/matrices/matrices.c")],
 [],["return values through a C driver and sqmatrix-* script functions"])

p("C22","Spectra of homogeneous media are exact and physical symmetries hold",
 "In a homogeneous medium the frequencies are exactly the lengths of the wavevectors k + G divided by the refractive index, with two polarisations each, for every lattice, k point, resolution and parity, in ascending order with multiplicity. For any structure the spectrum is unchanged by translating it by grid steps, permuting axes, exchanging permittivity with permeability, adding reciprocal vectors to or reversing k, or describing the same crystal by another cell, and scales inversely with the refractive index.",
 ["inputs","configurations"],"all lattices, k points, materials and chains of these transformations",
 "tests compare fixed numbers for a few structures; these relations quantify over all of them",
 ["src/maxwell/maxwell.c","src/maxwell/maxwell_op.c","src/maxwell/maxwell_pre.c","src/maxwell/maxwell_eps.c","mpb/mpb.c"],
 [("k+G vectors and transverse basis","src/maxwell/maxwell.c: update_maxwell_data_k"),("curl operators","src/maxwell/maxwell_op.c"),("targeted operator","src/maxwell/maxwell_op.c")],
 [("k_plus_G","wavevectors and polarisation basis","src/maxwell/maxwell.h")],
 ["freqs"])

with open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
